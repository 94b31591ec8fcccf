// Native side of the harness interface: replays a recorded input stream (fd 9) and writes an
// observation trace (fd 8).  Compiled freestanding; under the engine these are intercepted.
typedef unsigned long long u64; typedef unsigned char u8;
static long sc(long n,long a,long b,long c){ long r; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c):"rcx","r11","memory"); return r; }
static u8 buf[65536]; static long len=-1,pos;
static void fill(void){ if(len>=0)return; len=0; for(;;){ long r=sc(0,9,(long)(buf+len),sizeof buf-len); if(r<=0)break; len+=r; } pos=8; }
static u64 get(int n){ fill(); u64 v=0; for(int i=0;i<n;i++){ if(pos<len)v|=(u64)buf[pos]<<(8*i); pos++; } return v; }
// Schedules: fd 7 holds n0,(thread,n)*: run the first thread for n0 instructions after the first clone, and so on; the last
// segment has no count.  The program is single-stepped (trap flag); clone, futex and thread exit are carried out here.
extern const u8 __start_vsymtext[],__stop_vsymtext[]; void v_join(void); static int cur;
static int sg[8192],nsg,si; static u64 cnt,last; static int counted,nth; static struct { u64 g[23]; u8 fp[576]; u64 fs; int st; u64 fa,wk; } T[16]; static u64 clk; static u8 alt[65536];
static long sc6(u64*g){ long r; register long r10 __asm__("r10")=g[2],r8 __asm__("r8")=g[0],r9 __asm__("r9")=g[1]; __asm__ volatile("syscall":"=a"(r):"a"(g[13]),"D"(g[8]),"S"(g[9]),"d"(g[12]),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
static void tr(char t,u64 v);
static void die(int st){ sc(231,st,0,0); }
static int others(int t){ for(int i=0;i<nth;i++)if(i!=t&&T[i].st!=2)return 1; return 0; }
static void swtch(u64*g,u8*fp,int t){ if(t==cur)return; for(int i=0;i<18;i++)T[cur].g[i]=g[i]; for(int i=0;i<576;i++)T[cur].fp[i]=fp[i]; sc(158,0x1003,(long)&T[cur].fs,0); cur=t; for(int i=0;i<18;i++)g[i]=T[t].g[i]; for(int i=0;i<576;i++)fp[i]=T[t].fp[i]; sc(158,0x1002,T[t].fs,0); }
static int wakeup(u64 a,u64 n,u64 nr,u64 a2){ u64 w=0; for(;;){ int b=-1; for(int i=0;i<nth;i++)if(i!=cur&&T[i].st==1&&T[i].fa==a&&(b<0||T[i].wk<T[b].wk))b=i; if(b<0)break; if(w<n)T[b].st=0; else if(w<n+nr){ T[b].fa=a2; T[b].wk=clk++; } else break; w++; } return w; }
static void trap(int sig,void*inf,u64*uc){ (void)sig;(void)inf; u64*g=uc+5; u8*fp=(u8*)g[23-0]; u8*ip=(u8*)g[16];
 if(counted&&nth){ u8*q=ip; int rep=0; if(*q==0xf2||*q==0xf3){ q++; if((*q&0xf0)==0x40)q++; if((*q>=0xa4&&*q<=0xa7)||(*q>=0xaa&&*q<=0xaf))rep=1; } if(!(rep&&g[16]==last))cnt++; }
 counted=0;
 for(;;){
  while(nth&&si<nsg&&cnt==(u64)sg[si]){ if(si+1>=nsg){ // the schedule ends where nothing can run
     for(int i=0;i<nth;i++){ u64 rip=i==cur?g[16]:T[i].g[16]; if(T[i].st==0&&!(rip==(u64)v_join&&others(i)))die(75); } tr('D',0); die(98); }
   int t=sg[si+1]; si+=2; cnt=0; if(t<0||t>=nth||T[t].st)die(75); swtch(g,fp,t); }
  if(nth&&T[cur].st)die(75);
  ip=(u8*)g[16]; if(ip>=__start_vsymtext&&ip<__stop_vsymtext){ if(nth&&ip==(u8*)v_join&&others(cur))die(75); return; }
  if(!(ip[0]==0x0f&&ip[1]==0x05))break;
  long r; u64 n=g[13]; if(nth)cnt++; g[16]+=2; g[14]=0; g[3]=0; // rcx, r11
  if(n==56){ if(!nth){ nth=1; } if(nth>=16)die(75); int t=nth++; for(int i=0;i<18;i++)T[t].g[i]=g[i]; for(int i=0;i<576;i++)T[t].fp[i]=fp[i]; T[t].g[15]=g[9]; T[t].g[13]=0; T[t].st=0; T[t].fs=g[0]; if(!(g[8]&0x80000))sc(158,0x1003,(long)&T[t].fs,0); if(g[8]&0x1000000)*(int*)g[2]=1000+t; if(g[8]&0x100000)*(int*)g[12]=1000+t; r=1000+t; if(t==1)cnt=0; }
  else if(n==202){ u64 op=g[9]&0x7f,a=g[8]; r=0; if(op==0||op==9){ if(*(int*)a!=(int)g[12])r=-11; else if(g[2])r=-110; else { T[cur].st=1; T[cur].fa=a; T[cur].wk=clk++; if(!nth)die(75); } } else if(op==1||op==10){ u64 k=g[12]&0xffffffff; if((int)k<0)k=0x7fffffff; r=wakeup(a,k,0,0); } else if(op==3||op==4){ if(op==4&&*(int*)a!=(int)g[1])r=-11; else r=wakeup(a,g[12]&0xffffffff,g[2]&0xffffffff,g[0]); } else die(75); }
  else if(n==60&&nth&&cur){ T[cur].st=2; r=0; }
  else if(n==228||n==96){ u64*p=(u64*)(n==228?g[9]:g[8]); if(p){ p[0]=1700000000; p[1]=0; } r=0; }
  else r=sc6(g);
  g[13]=r; }
 last=g[16]; counted=1; }
__asm__(".section vsymtext,\"ax\"\nvsym_rest: mov $15,%eax\n syscall\n.previous\n"); void vsym_rest(void);
static void threads(void){ int n=0; long r; while(n<(int)sizeof sg&&(r=sc(0,7,(long)((u8*)sg+n),sizeof sg-n))>0)n+=r; nsg=n/4; if(!nsg)return;
 struct { void*sp; int fl,pad; u64 sz; } ss={alt,0,0,sizeof alt}; sc(131,(long)&ss,0,0); struct { void*h; u64 fl; void*rs; u64 mask; } sa={trap,0x4|0x08000000|0x04000000,vsym_rest,0}; __asm__ volatile("mov $8,%%r10\n mov $13,%%eax\n syscall"::"D"(5),"S"(&sa),"d"(0):"rax","rcx","r10","r11","memory");
 __asm__ volatile("pushf\n orq $0x100,(%%rsp)\n popf":::"memory","cc"); }
static void tr(char t,u64 v){ char b[32]; int i=0; b[i++]=t; b[i++]=' '; for(int k=60;k>=0;k-=4)b[i++]="0123456789abcdef"[(v>>k)&15]; b[i++]='\n'; sc(1,8,(long)b,i); }
#define F(n) __asm__("vsym$" #n)
u64 v_u64(void)F(u64); u64 v_u64(void){return get(8);} u64 v_u32(void)F(u32); u64 v_u32(void){return get(4);} u64 v_u16(void)F(u16); u64 v_u16(void){return get(2);} u64 v_u8(void)F(u8); u64 v_u8(void){return get(1);}
void v_bytes(u8*p,u64 n)F(bytes); void v_bytes(u8*p,u64 n){ for(u64 i=0;i<n;i++)p[i]=get(1); }
u64 v_range(u64 lo,u64 hi)F(range); u64 v_range(u64 lo,u64 hi){ (void)lo;(void)hi; return get(8);} u64 v_pick(u64 lo,u64 hi)F(pick); u64 v_pick(u64 lo,u64 hi){ (void)lo;(void)hi; return get(8);}
void v_assume(u8 c)F(assume); void v_assume(u8 c){ if(!c)sc(231,77,0,0); }
void v_check(int id,u8 c)F(check); void v_check(int id,u8 c){ if(!c){ tr('F',id); sc(231,99,0,0);} }
void v_reach(int id)F(reach); void v_reach(int id){ (void)id; }
void v_out(u64 v)F(out); void v_out(u64 v){ tr('o',v); }
u64 v_conc(u64 v)F(conc); u64 v_conc(u64 v){ return v; }
void v_merge(u8 c)F(merge); void v_merge(u8 c){ (void)c; }
void v_expabort(u8 c)F(expabort); void v_expabort(u8 c){ tr('X',c!=0); }
u64 v_kase(void)F(kase); u64 v_kase(void){ fill(); threads(); u64 v=0; for(int i=0;i<8;i++)v|=(u64)buf[i]<<(8*i); return v; }
u8 v_eqmem(u8*p,u8*q,u64 n)F(eqmem); u8 v_eqmem(u8*p,u8*q,u64 n){ for(u64 i=0;i<n;i++)if(p[i]!=q[i])return 0; return 1; }
void v_done(void)F(done); void v_done(void){ sc(231,0,0,0); }
void v_yield(void)F(yield); void v_yield(void){} void v_join(void)F(join); void v_join(void){} u64 v_tid(void)F(tid); u64 v_tid(void){return cur;}
void v_shared(u8*p,u64 n)F(shared); void v_shared(u8*p,u64 n){ (void)p;(void)n; }
u64 v_issym(u64 v)F(issym); u64 v_issym(u64 v){ (void)v; return 0; }
u64 v_ite(u8 c,u64 a,u64 b)F(ite); u64 v_ite(u8 c,u64 a,u64 b){ return c?a:b; }
void v_dbg(u64 v)F(dbg); void v_dbg(u64 v){ (void)v; }
