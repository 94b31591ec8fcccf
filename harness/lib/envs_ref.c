#include "ref.h"
/* the process starts here, with arguments and an environment chosen by the case */
extern void h_begin(void);
static u8 es[5][80]; static int el[5]; int henvn; static u8 as[4][8]; int hargn; static int al[4];
u64 vkase(void)__asm__("vsym$kase");
static int put(int k,const char*s){ int i=0; for(;s[i];i++)es[k][i]=s[i]; es[k][i]=0; el[k]=i; return i; }
static void sym(u8*b,int n){ for(int i=0;i<n;i++){ b[i]=vu8(); vassume(b[i]!=0); } b[n]=0; }
void h_build(u64*sp){
	int k=vkase(), c=k/10; henvn=0; hargn=1; as[0][0]='p'; as[0][1]=0; al[0]=1; int mx=k%10;
	if(c==0||c==1||c==2){ /* any environment */ henvn=vconc(vpick(0,mx)); for(int i=0;i<henvn;i++){ el[i]=vconc(vpick(0,3)); sym(es[i],el[i]); } }
	if(c==3){ hargn=mx; for(int i=0;i<hargn;i++){ al[i]=vconc(vpick(0,3)); sym(as[i],al[i]); } henvn=1; put(0,"A=b"); }
	if(c==4||c==5){ henvn=2; put(0,"A=b"); int n=put(1,"PATH="); if(mx==9)henvn=1; else { for(int i=0;i<mx;i++)es[1][n+i]=":a/"[vconc(vpick(0,2))]; es[1][n+mx]=0; el[1]=n+mx; } }
	if(c==6||c==7||c==8){ henvn=mx==9?1:2; put(0,"A=b"); put(1,"PATH=/x:/y"); }
	if(c==9){ henvn=3; put(0,"A=b"); put(1,mx&1?"TMPDIR=/t":"TMPDI=/u"); put(2,mx&2?"HOME=/h":"HOM=/h"); if(mx&4){ henvn=4; put(3,"home=/k"); } }
	int n=0; sp[n++]=hargn; for(int i=0;i<hargn;i++)sp[n++]=(u64)as[i]; sp[n++]=0; for(int i=0;i<henvn;i++)sp[n++]=(u64)es[i]; sp[n++]=0; sp[n++]=0; sp[n++]=0;
}
__asm__(".globl h_start\nh_start:\n sub $1024,%rsp\n and $-16,%rsp\n mov %rsp,%rbx\n mov %rsp,%rdi\n call h_build\n mov %rbx,%rsp\n xor %ebx,%ebx\n jmp _start\n");
i64 r_nenv(void){ return henvn; }
i64 r_nargs(void){ return hargn; }
u8* r_arg(i64 i){ return as[i]; }
i64 r_arglen(i64 i){ return al[i]; }
/* the model: entries in order, each (pointer, length) */
static u8 mod[8][16]; static int ml[8]; int mn;
void r_model(void){ mn=henvn; for(int i=0;i<henvn;i++){ ml[i]=el[i]; for(int j=0;j<=el[i]&&j<16;j++)mod[i][j]=es[i][j]; } }
static int match(int k,const u8*s,int n){ if(ml[k]<=n)return 0; for(int j=0;j<n;j++)if(mod[k][j]!=s[j])return 0; return mod[k][n]=='='; }
i64 r_get(const u8*s,i64 n,u8**p){ for(int i=0;i<mn;i++)if(match(i,s,n)){ *p=mod[i]+n+1; return ml[i]-n-1; } return -1; }
void r_set(const u8*s,i64 n,const u8*v,i64 m){ int i=0; for(;i<mn;i++)if(match(i,s,n))break; if(i==mn)mn++; int j=0; for(;j<n;j++)mod[i][j]=s[j]; mod[i][j++]='='; for(int k=0;k<m;k++)mod[i][j++]=v[k]; mod[i][j]=0; ml[i]=j; }
/* does envp hold exactly the model? */
i64 r_same(u8**e){ for(int i=0;i<mn;i++){ if(!e[i])return 0; int l=0; while(e[i][l])l++; if(l!=ml[i])return 0; for(int j=0;j<l;j++)if(e[i][j]!=mod[i][j])return 0; } return e[mn]==0; }
/* ---- execvp: the expected attempts, in order ---- */
extern i64 k_nexec(void), k_execpath(i64,const u8*,u64);
i64 r_tries(const u8*cmd,i64 cn,const u8*path,i64 pn){
	int k=0; i64 i=0; static u8 b[64];
	while(i<pn){ i64 j=i; while(j<pn&&path[j]!=':')j++; if(j>i){ int n=0; for(i64 z=i;z<j;z++)b[n++]=path[z]; b[n++]='/'; for(i64 z=0;z<cn;z++)b[n++]=cmd[z]; if(!k_execpath(k,b,n))return -1; k++; } i=j+1; }
	return k;
}
const u8* r_path(void){ return es[1]+5; }
i64 r_pathlen(void){ return el[1]-5; }
/* ---- the end of a child process ---- */
extern i64 k_fdino(i64), k_nopen(void), k_fdflags(i64), k_cwd(void), k_execarg(i64,i64,const u8*,u64), k_execnargs(i64);
static i64 xin,xout,xerr,xcwd,xargs,xexec; static u8 xa[4]; extern void vdone(void)__asm__("vsym$done");
/* descriptors 0, 1, 2 must be the pipes numbered in, out, err (inode numbers), nothing else open */
void r_child(i64 in,i64 out,i64 err,i64 cwd,i64 nargs,const u8*a,i64 nexec){ xin=in; xout=out; xerr=err; xcwd=cwd; xargs=nargs; xexec=nexec; for(int i=0;i<nargs;i++)xa[i]=a[i]; }
void k_onkill(i64 pid,i64 sig){
	vcheck(120,xargs>0); vcheck(121,k_fdino(0)==xin&&(xin==1||(k_fdflags(0)&3)==0)); vcheck(122,k_fdino(1)==xout&&(xout==1||(k_fdflags(1)&3)==1)); vcheck(123,k_fdino(2)==xerr&&(xerr==1||(k_fdflags(2)&3)==1)); vcheck(124,k_nopen()==3); vcheck(125,k_cwd()==xcwd);
	vcheck(126,k_nexec()==xexec); for(int i=0;i<xexec;i++){ vcheck(127,k_execnargs(i)==xargs); for(int j=0;j<xargs;j++)vcheck(128,k_execarg(i,j,xa+j,1)); }
	vcheck(129,sig==6&&pid==4242); vreach(129); vdone();
}
