// Symbolic executor for x86-64 static executables.
#include "solver.h"
#include "decode.h"
#include <chrono>
#include <signal.h>
#include <sys/resource.h>
#include <cmath>
static Image img;
// ------------------------------------------------------------------ options
static u64 opt_mem=3500; static u64 opt_kase=0, opt_maxinstr=400000000, opt_maxpaths=200000; static double opt_time=600; static int opt_witness=3; static bool opt_trace=false, opt_verbose=false, opt_keepgoing=true; static int opt_maxviol=3; static int opt_preempt=2; static u64 opt_maxenum=600; static u64 opt_mux=2048; static std::vector<u8> opt_replay; static bool opt_isreplay=false; static u64 opt_pathinstr=4000000;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t_start;
// ------------------------------------------------------------------ memory
struct SymB{ const Node*e; u8 i; };
struct Page{ int rc=1; bool w=true; bool hv=false; u64 h=0; u8 d[4096]; SymB*s=0; Page(){memset(d,0,4096);} Page(const Page&o):rc(1),w(o.w),s(0){memcpy(d,o.d,4096); if(o.s){s=new SymB[4096];memcpy(s,o.s,sizeof(SymB)*4096);}} ~Page(){delete[]s;} };
struct Chunk{ int rc=1; Page*p[512]; Chunk(){memset(p,0,sizeof p);} Chunk(const Chunk&o):rc(1){memcpy(p,o.p,sizeof p); for(auto x:p)if(x)x->rc++;} ~Chunk(){ for(auto x:p)if(x&&--x->rc==0)delete x; } };
struct Fault{ u64 addr; bool w; }; struct NeedFork{ const Node*e; }; struct Unsup{ std::string s; }; struct EndPath{};
struct Mem{ Chunk*c[512]; Mem(){memset(c,0,sizeof c);} Mem(const Mem&o){memcpy(c,o.c,sizeof c); for(auto x:c)if(x)x->rc++;} Mem&operator=(const Mem&o){ if(this!=&o){ for(auto x:o.c)if(x)x->rc++; drop(); memcpy(c,o.c,sizeof c);} return *this; } void drop(){ for(auto x:c)if(x&&--x->rc==0)delete x; } ~Mem(){drop();}
 inline Page*rd(u64 a)const{ if(a>>30)return 0; Chunk*k=c[a>>21]; return k?k->p[(a>>12)&511]:0; }
 Page*wr(u64 a){ if(a>>30)return 0; Chunk*&k=c[a>>21]; if(!k)return 0; if(k->rc>1){ k->rc--; k=new Chunk(*k);} Page*&p=k->p[(a>>12)&511]; if(!p)return 0; if(p->rc>1){p->rc--; p=new Page(*p);} p->hv=false; return p; }
 static Page*zero(bool w){ static Page*z[2]; if(!z[w]){ z[w]=new Page; z[w]->w=w; } return z[w]; }
 void map(u64 a,u64 n,bool w=true){ for(u64 x=a&~0xfffull;x<a+n;x+=4096){ if(x>>30)throw Unsup{"address space exhausted"}; Chunk*&k=c[x>>21]; if(!k)k=new Chunk; else if(k->rc>1){k->rc--;k=new Chunk(*k);} Page*&p=k->p[(x>>12)&511]; if(p&&--p->rc==0)delete p; p=zero(w); p->rc++; } }
 void unmap(u64 a,u64 n){ for(u64 x=a&~0xfffull;x<a+n;x+=4096){ if(x>>30)return; Chunk*&k=c[x>>21]; if(!k)continue; if(k->rc>1){k->rc--;k=new Chunk(*k);} Page*&p=k->p[(x>>12)&511]; if(p&&--p->rc==0)delete p; p=0; } }
 bool ok(u64 a,int n)const{ return rd(a)&&rd(a+n-1); }
 V load(u64 a,int n)const{ // n<=8
  Page*p=rd(a); if(!p)throw Fault{a,false}; u64 o=a&4095; if(o+n<=4096){ if(!p->s){ u64 v=0; memcpy(&v,p->d+o,n); return V(v);} bool any=false; for(int i=0;i<n;i++)if(p->s[o+i].e){any=true;break;} if(!any){u64 v=0;memcpy(&v,p->d+o,n);return V(v);} }
  V r; int rw=0; for(int i=0;i<n;){ u64 x=a+i; Page*q=rd(x); if(!q)throw Fault{x,false}; u64 oo=x&4095; V piece; int pw;
    if(q->s&&q->s[oo].e){ const Node*e=q->s[oo].e; int b=q->s[oo].i; int len=1; while(i+len<n){ u64 y=x+len; Page*qq=rd(y); if(!qq)break; u64 o2=y&4095; if(!(qq->s&&qq->s[o2].e==e&&qq->s[o2].i==b+len))break; len++; } pw=len*8; int tot=e->w; int hi=b*8+pw-1; if(hi>=tot){ piece=zext(extract(V(e),tot-1,b*8,tot),tot-b*8,pw);} else piece=extract(V(e),hi,b*8,tot); i+=len; }
    else { piece=V((u64)q->d[oo]); pw=8; i++; }
    if(rw==0)r=piece; else r=concat(piece,pw,r,rw); rw+=pw; }
  return r; }
 void store(u64 a,V v,int n){ Page*p=wr(a); if(!p||!p->w)throw Fault{a,true}; u64 o=a&4095; if(o+n<=4096){ if(!v.e){ memcpy(p->d+o,&v.c,n); if(p->s)for(int i=0;i<n;i++)p->s[o+i].e=0; return; } if(!p->s){p->s=new SymB[4096];memset(p->s,0,sizeof(SymB)*4096);} 
    if(v.e->op==CONCAT){ // byte-aligned pieces are stored separately
      bool al=true; for(int i=0;i<v.e->n;i++)if(v.e->a[i]->w&7)al=false; if(al){ int pos=0; for(int i=v.e->n-1;i>=0;i--){ const Node*x=v.e->a[i]; int bn=x->w/8; for(int j=0;j<bn;j++){ if(x->op==CONST){p->s[o+pos+j].e=0;p->d[o+pos+j]=x->imm>>(8*j);} else if(x->op==EXTRACT&&(x->imm&7)==0&&(x->a[0]->w&7)==0){p->s[o+pos+j].e=x->a[0];p->s[o+pos+j].i=x->imm/8+j;} else {p->s[o+pos+j].e=x;p->s[o+pos+j].i=j;} } pos+=bn; } return; } }
    const Node*e=v.e; int b0=0; if(e->op==EXTRACT&&(e->imm&7)==0&&(e->a[0]->w&7)==0){ b0=e->imm/8; e=e->a[0]; }
    for(int i=0;i<n;i++){p->s[o+i].e=e;p->s[o+i].i=b0+i;} return; }
  for(int i=0;i<n;i++)store(a+i,extract(v,i*8+7,i*8,n*8),1); }
 // same byte content?
 static bool bsame(Page*p,Page*q,int o){ const Node*e=p->s?p->s[o].e:0,*f=q->s?q->s[o].e:0; if(e!=f)return false; if(e)return p->s[o].i==q->s[o].i; return p->d[o]==q->d[o]; }
};
// ------------------------------------------------------------------ cpu
enum FK:u8{ F_EXPL,F_SUB,F_ADD,F_LOGIC,F_INC,F_DEC,F_POISON };
struct Flags{ FK k=F_EXPL; u8 w=64; V a,b,r; V cf,zf,sf,of,pf; };
struct Cpu{ V r[16]; V xl[16],xh[16]; Flags f; u64 pc=0; u64 fsbase=0; bool df=false; int st=0; /*0 run,1 futex wait,2 done,3 joining*/ u64 stklo=0,stkhi=0; u64 faddr=0; u64 wake=0; bool atsched=false; u64 futimeout=0; };
struct In{ V v; int w; std::shared_ptr<In> prev; int n; };
struct Out{ V v; std::shared_ptr<Out> prev; int n; };
struct State{ Cpu c; Mem m; PC pc; ModelP model; std::shared_ptr<In> in; std::shared_ptr<Out> out; std::shared_ptr<std::map<const Node*,u64>> fixed; u64 mmap_next=0x10000000; u64 ni=0; V expab; bool merge=false; int forks=0; std::string text; u64 reach=0;
 // threads
 std::vector<Cpu> th; int cur=0; int preempts=0; std::shared_ptr<std::vector<std::pair<u64,u64>>> shared; bool justsched=false; u64 clock=1000; std::vector<int> sched; u64 segn=0; bool freesw=false; };
typedef std::unique_ptr<State> SP;
struct Stop{ u64 pc; u64 rsp; int level; Stop*up; };
// ------------------------------------------------------------------ results
struct Viol{ std::string kind; int id; std::string where; std::vector<u8> input; std::vector<u64> outs; std::string text; std::vector<int> sched; };
static std::vector<Viol> viols; static std::map<int,u64> check_cnt; static std::map<std::string,u64> end_cnt; static std::map<std::string,int> incon; static u64 n_paths,n_instr,n_forks,n_merges,n_mergefail,n_checks,n_trivial; static std::map<std::string,int> viol_seen; static u64 reached_mask; static int max_pc;
struct Wit{ std::vector<u8> input; std::vector<u64> outs; std::string end; std::vector<int> sched; }; static std::vector<Wit> wits; static std::set<std::string> funcs_seen; static std::unordered_map<u64,bool> func_entry; static std::set<u64> covered_br; static bool opt_done=false; static u64 n_sched_states=0;
static void inconclusive(const std::string&s){ incon[s]++; }
static std::vector<u8> stream_of(const State&s,const Model&m){ std::vector<In*> v; for(In*p=s.in.get();p;p=p->prev.get())v.push_back(p); std::reverse(v.begin(),v.end()); std::vector<u8> o; for(int i=0;i<8;i++)o.push_back(opt_kase>>(8*i)); for(auto p:v){ u64 x=evalv(p->v,m); for(int i=0;i<p->w/8;i++)o.push_back(x>>(8*i)); } return o; }
static std::vector<u64> outs_of(const State&s,const Model&m){ std::vector<u64> o; for(Out*p=s.out.get();p;p=p->prev.get())o.push_back(evalv(p->v,m)); std::reverse(o.begin(),o.end()); return o; }
static void violation(State&s,const ModelP&m,const std::string&kind,int id){ std::string key=kind+"#"+std::to_string(id); if(++viol_seen[key]>2)return; Viol v; v.kind=kind; v.id=id; v.where=img.where(s.c.pc); v.input=stream_of(s,*m); v.outs=outs_of(s,*m); v.text=s.text; v.sched=s.sched; viols.push_back(v); if((int)viols.size()>=opt_maxviol)opt_done=true; }
static void assume(State&s,V c){ if(!c.e)return; s.pc=std::make_shared<PCList>(c.e,s.pc); if(s.pc->n>max_pc)max_pc=s.pc->n; }
static V subst(State&s,V v){ if(v.e&&s.fixed){ auto it=s.fixed->find(v.e); if(it!=s.fixed->end())return V(it->second);} return v; }
// ------------------------------------------------------------------ flags
static V parity(V r){ V x=V((u64)0); for(int i=0;i<8;i++)x=xor_(x,extract(r,i,i,8),1); return bnot(x); }
static V getZF(Flags&f){ if(f.k==F_POISON)throw Unsup{"undefined flags used"}; if(f.k==F_EXPL)return f.zf; if(f.k==F_SUB)return eq(f.a,f.b,f.w); return eq(f.r,V((u64)0),f.w); }
static V getSF(Flags&f){ if(f.k==F_POISON)throw Unsup{"undefined flags used"}; if(f.k==F_EXPL)return f.sf; return extract(f.r,f.w-1,f.w-1,f.w); }
static V getCF(Flags&f){ switch(f.k){ case F_POISON:throw Unsup{"undefined flags used"}; case F_EXPL:return f.cf; case F_SUB:return ult(f.a,f.b,f.w); case F_ADD:return ult(f.r,f.a,f.w); case F_LOGIC:return V((u64)0); default:return f.cf; } }
static V msb(V v,int w){return extract(v,w-1,w-1,w);} 
static V getOF(Flags&f){ int w=f.w; switch(f.k){ case F_POISON:throw Unsup{"undefined flags used"}; case F_EXPL:return f.of; case F_SUB:return msb(and_(xor_(f.a,f.b,w),xor_(f.a,f.r,w),w),w); case F_ADD:return msb(and_(not_(xor_(f.a,f.b,w),w),xor_(f.a,f.r,w),w),w); case F_LOGIC:return V((u64)0); case F_INC:return eq(f.r,V(1ull<<(w-1)),w); case F_DEC:return eq(f.r,V((1ull<<(w-1))-1),w); } return V(); }
static V getPF(Flags&f){ if(f.k==F_POISON)throw Unsup{"undefined flags used"}; if(f.k==F_EXPL)return f.pf; return parity(extract(f.r,7,0,f.w)); }
static V cond(Cpu&c,int cc){ Flags&f=c.f; V r; switch(cc>>1){
 case 0:r=getOF(f);break; case 1:r=getCF(f);break; case 2:r=getZF(f);break; case 3: r=f.k==F_SUB?ule(f.a,f.b,f.w):bor(getCF(f),getZF(f));break; case 4:r=getSF(f);break; case 5:r=getPF(f);break;
 case 6: r=f.k==F_SUB?slt(f.a,f.b,f.w):f.k==F_LOGIC?getSF(f):xor_(getSF(f),getOF(f),1);break; case 7: r=f.k==F_SUB?sle(f.a,f.b,f.w):bor(getZF(f),f.k==F_LOGIC?getSF(f):xor_(getSF(f),getOF(f),1));break; }
 return (cc&1)?bnot(r):r; }
// ------------------------------------------------------------------ registers / operands
static V rreg(Cpu&c,int r,int sz,bool hi=false){ V v=c.r[r]; if(sz==8)return v; if(hi)return extract(v,15,8,64); return extract(v,sz*8-1,0,64); }
static void wreg(Cpu&c,int r,int sz,V v,bool hi=false){ if(sz==8)c.r[r]=v; else if(sz==4)c.r[r]=zext(v,32,64); else if(sz==2)c.r[r]=concat(extract(c.r[r],63,16,64),48,v,16); else if(hi)c.r[r]=concat(concat(extract(c.r[r],63,16,64),48,v,8),56,extract(c.r[r],7,0,64),8); else c.r[r]=concat(extract(c.r[r],63,8,64),56,v,8); }
static V ea(State&s,const Opd&o){ V a=V((u64)o.disp); if(o.rip)return a; if(o.base>=0)a=add(a,s.c.r[(int)o.base],64); if(o.index>=0)a=add(a,mulc(s.c.r[(int)o.index],o.scale,64),64); if(o.fs)a=add(a,V(s.c.fsbase),64); return a; }
// path-refined unsigned upper/lower bounds
struct Rng{u64 lo,hi;};
static void pcranges(State&s,std::unordered_map<const Node*,Rng>&m){ std::vector<const Node*> cs; std::function<void(const Node*)> fl=[&](const Node*c){ if(c->op==AND&&c->w==1){for(int i=0;i<c->n;i++)fl(c->a[i]);} else cs.push_back(c); }; for(PCList*p=s.pc.get();p;p=p->prev.get())fl(p->c);
 auto up=[&](const Node*x,u64 lo,u64 hi){ auto it=m.find(x); if(it==m.end())m[x]=Rng{std::max(lo,x->umin),std::min(hi,x->umax)}; else {it->second.lo=std::max(it->second.lo,lo);it->second.hi=std::min(it->second.hi,hi);} };
 for(auto c:cs){ bool ng=false; const Node*x=c; if(x->op==XOR&&x->n==1&&x->imm==1){ng=true;x=x->a[0];} if(x->op==ULT){ const Node*a=x->a[0],*b=x->a[1]; if(!ng){ if(b->umax)up(a,0,b->umax-1); up(b,a->umin+1,~0ull); } else { up(a,b->umin,~0ull); up(b,0,a->umax); } } else if(x->op==EQ&&!ng){ if(x->a[0]->op==CONST)up(x->a[1],x->a[0]->imm,x->a[0]->imm); if(x->a[1]->op==CONST)up(x->a[0],x->a[1]->imm,x->a[1]->imm); }
  else if(x->op==SLT){ const Node*a=x->a[0],*b=x->a[1]; u64 sb=1ull<<(a->w-1); if(!ng&&(a->kz&sb)&&b->op==CONST&&!(b->imm&sb))up(a,0,b->imm-1);
    if(!ng&&b->op==CONST&&!(b->imm&sb)&&b->imm){ // need a>=0 from elsewhere
      for(auto c2:cs){ const Node*y=c2; if(y->op==XOR&&y->n==1&&y->imm==1&&y->a[0]->op==SLT&&y->a[0]->a[0]==a&&y->a[0]->a[1]->op==CONST&&y->a[0]->a[1]->imm<sb){ up(a,y->a[0]->a[1]->imm,b->imm-1);} if(y->op==XOR&&y->n==1&&y->imm==1&&y->a[0]->op==EXTRACT&&y->a[0]->a[0]==a&&y->a[0]->imm==(u64)a->w-1)up(a,0,b->imm-1); } } } } }
static Rng rng(const Node*e,std::unordered_map<const Node*,Rng>&m,int d=0){ Rng r{e->umin,e->umax}; auto it=m.find(e); if(it!=m.end()){r.lo=std::max(r.lo,it->second.lo);r.hi=std::min(r.hi,it->second.hi);} if(d>12)return r; u64 M=mask(e->w); Rng q=r; bool ok=false;
 switch(e->op){ case ADD:{ i128 lo=e->imm,hi=e->imm; bool big=false; for(int i=0;i<e->n;i++){ const Node*k=e->a[i]; u64 neg=(0-k->imm)&M; if(k->op==MULC&&k->imm>M/2&&neg<(1ull<<32)){ Rng t=rng(k->a[0],m,d+1); if(t.hi>>62)big=true; else { lo-=(i128)t.hi*neg; hi-=(i128)t.lo*neg; } } else { Rng t=rng(k,m,d+1);lo+=t.lo;hi+=t.hi; } } if(!big&&(lo>>e->w)==(hi>>e->w)){q={(u64)lo&M,(u64)hi&M};ok=true;} break;} case MULC:{Rng t=rng(e->a[0],m,d+1);u128 h=(u128)t.hi*e->imm; if(h<=M){q={t.lo*e->imm,(u64)h};ok=true;}break;}
 case CONCAT:{ u64 lo=0,hi=0; for(int i=0;i<e->n;i++){Rng t=rng(e->a[i],m,d+1); if(e->a[i]->w==64){lo=t.lo;hi=t.hi;} else {lo=(lo<<e->a[i]->w)|t.lo;hi=(hi<<e->a[i]->w)|t.hi;}} q={lo,hi};ok=true;break;} case EXTRACT: if(1){Rng t=rng(e->a[0],m,d+1); if(e->imm+e->w>=e->a[0]->w||(t.hi>>(e->imm+e->w))==0){q={t.lo>>e->imm,t.hi>>e->imm};ok=true;}}break; case ITE:{Rng a=rng(e->a[1],m,d+1),b=rng(e->a[2],m,d+1);q={std::min(a.lo,b.lo),std::max(a.hi,b.hi)};ok=true;break;} default:break; }
 if(ok){r.lo=std::max(r.lo,q.lo);r.hi=std::min(r.hi,q.hi);} if(r.lo>r.hi)return Rng{e->umin,e->umax}; return r; }
static bool iteleaves(const Node*e,std::set<u64>&o){ if(e->op==CONST){o.insert(e->imm);return o.size()<=64;} if(e->op==ITE)return iteleaves(e->a[1],o)&&iteleaves(e->a[2],o); 
 if(e->op==CONCAT&&e->n==2&&e->a[0]->op==CONST){ std::set<u64> t; if(!iteleaves(e->a[1],t))return false; for(u64 x:t)o.insert((e->a[0]->imm<<e->a[1]->w)|x); return o.size()<=64;} 
 if(e->op==ADD&&e->n==1){ std::set<u64> t; if(!iteleaves(e->a[0],t))return false; for(u64 x:t)o.insert((x+e->imm)&mask(e->w)); return o.size()<=64; } return false; }
struct Cands{ std::vector<u64> a; V addr; u64 lo=0; int step=0; bool arith=false; };
// candidate concrete addresses for a symbolic address; false: too many
static bool cands(State&s,V addr,Cands&c,u64 limit){ c.addr=addr; std::set<u64> l; if(iteleaves(addr.e,l)){ c.a.assign(l.begin(),l.end()); return c.a.size()<=limit; }
 std::unordered_map<const Node*,Rng> m; pcranges(s,m); Rng r=rng(addr.e,m); const Node*e=addr.e; u64 k=0; if(e->op==ADD)k=e->imm; V t=sub(addr,V(k),64); u64 kz=kz_of(t,64); int tz=~kz?__builtin_ctzll(~kz):63; if(tz>6)tz=6; 
 // align lo to k modulo 2^tz
 u64 st=1ull<<tz; u64 lo=r.lo; u64 d=(k-lo)&(st-1); lo+=d; if(lo>r.hi||((r.hi-lo)>>tz)>=limit)return false; u64 cnt=((r.hi-lo)>>tz)+1; if(cnt>limit)return false; c.lo=lo;c.step=tz;c.arith=true; for(u64 i=0;i<cnt;i++)c.a.push_back(lo+(i<<tz)); return true; }
static Res feasible(State&s,V cnd,ModelP&m){ Res r=check_sat(s.pc,cnd,s.model,m); return r; }
static void fault_if_possible(State&s,Cands&c,int n,bool w){ // addresses among candidates that are not mapped
 std::vector<u64> bad; std::vector<u64> good; for(u64 a:c.a){ Page*p=s.m.rd(a),*q=s.m.rd(a+n-1); if(!p||!q||(w&&(!p->w||!q->w)))bad.push_back(a); else good.push_back(a); }
 if(!bad.empty()){ V any=V((u64)0); // contiguous runs
   for(size_t i=0;i<bad.size();){ size_t j=i; while(j+1<bad.size()&&bad[j+1]-bad[j]==(1ull<<c.step)&&c.arith)j++; V t=j==i?eq(c.addr,V(bad[i]),64):band(ule(V(bad[i]),c.addr,64),ule(c.addr,V(bad[j]),64)); any=bor(any,t); i=j+1; }
   ModelP m; Res r=feasible(s,any,m); if(r==SAT){ u64 a=evalv(c.addr,*m); (void)a; V nz=any; violation(s,m,w?"memory-fault-write":"memory-fault-read",0); V ok=bnot(nz); ModelP m2; if(feasible(s,ok,m2)==SAT){ assume(s,ok); s.model=m2; } else { n_paths++; end_cnt["fault"]++; throw EndPath(); } } else if(r==UNKNOWN) inconclusive("unknown: address in range"); }
 c.a=good; if(good.empty())throw Fault{bad.empty()?0:bad[0],w}; }
static V muxr(const Cands&c,std::vector<V>&v,size_t i,size_t j,int w){ bool same=true; for(size_t k=i+1;k<j;k++)if(v[k].e!=v[i].e||v[k].c!=v[i].c){same=false;break;} if(same)return v[i]; size_t m=(i+j)/2; return ite(ult(c.addr,V(c.a[m]),64),muxr(c,v,i,m,w),muxr(c,v,m,j,w),w); }
static V bitmux(V idx,int k,std::vector<V>&v,size_t i,size_t j,int w){ // v[i..j) of size 2^k ; idx has >=k bits
 bool same=true; for(size_t t=i+1;t<j;t++)if(v[t].e!=v[i].e||v[t].c!=v[i].c){same=false;break;} if(same)return v[i]; V b=extract(idx,k-1,k-1,64); size_t m=i+(1ull<<(k-1)); if(m>=j)return bitmux(idx,k-1,v,i,j,w); return ite(b,bitmux(idx,k-1,v,m,j,w),bitmux(idx,k-1,v,i,m,w),w); }
static V loadv(State&s,V a,int n){ a=subst(s,a); if(!a.e)return s.m.load(a.c,n); Cands c; if(!cands(s,a,c,opt_mux))throw NeedFork{a.e}; 
 // refuse a mux that spans symbolic-heavy memory with too many entries
 fault_if_possible(s,c,n,false); std::vector<V> v; for(u64 x:c.a)v.push_back(s.m.load(x,n)); 
 if(c.arith&&c.a.size()>4){ bool contig=c.a.size()==((c.a.back()-c.a[0])>>c.step)+1; if(contig){ V idx=lshr(sub(a,V(c.a[0]),64),V((u64)c.step),64); int k=0; while((1ull<<k)<c.a.size())k++; return bitmux(idx,k,v,0,v.size(),n*8); } }
 return muxr(c,v,0,v.size(),n*8); }
static void storev(State&s,V a,V v,int n){ a=subst(s,a); if(!a.e){ s.m.store(a.c,v,n); return; } Cands c; if(!cands(s,a,c,s.merge?64:24))throw NeedFork{a.e}; fault_if_possible(s,c,n,true); for(u64 x:c.a){ V o=s.m.load(x,n); s.m.store(x,ite(eq(a,V(x),64),v,o,n*8),n); } }
static V rd(State&s,const Opd&o,int sz){ switch(o.k){ case K_REG:return rreg(s.c,o.reg,o.size,o.hi); case K_IMM:return V((u64)o.disp&mask(sz*8)); case K_MEM:return loadv(s,ea(s,o),sz); case K_XMM: return sz==4?extract(s.c.xl[o.reg],31,0,64):s.c.xl[o.reg]; default:throw Unsup{"operand"}; } }
static void wrt(State&s,const Opd&o,int sz,V v){ if(o.k==K_REG)wreg(s.c,o.reg,o.size,v,o.hi); else if(o.k==K_MEM)storev(s,ea(s,o),v,sz); else throw Unsup{"dst operand"}; }
static int osz(const Insn&in){ for(int i=0;i<in.no;i++)if(in.o[i].k==K_REG&&!(i==1&&in.no==2&&(in.m==M_shl||in.m==M_shr||in.m==M_sar||in.m==M_rol||in.m==M_ror)&&in.o[0].k==K_MEM))return in.o[i].size; for(int i=0;i<in.no;i++)if(in.o[i].k==K_MEM&&in.o[i].size)return in.o[i].size; return 8; }
static u64 concr(State&s,V v,int w=64){ v=subst(s,v); if(v.e)throw NeedFork{v.e}; return v.c; }
static void push(State&s,V v){ V sp=s.c.r[4]; if(sp.e)throw Unsup{"symbolic rsp"}; s.m.store(sp.c-8,v,8); s.c.r[4]=V(sp.c-8); }
static V pop(State&s){ V sp=s.c.r[4]; if(sp.e)throw Unsup{"symbolic rsp"}; V v=s.m.load(sp.c,8); s.c.r[4]=V(sp.c+8); return v; }
static void setf(Cpu&c,FK k,int w,V a,V b,V r){ c.f.k=k;c.f.w=w;c.f.a=a;c.f.b=b;c.f.r=r; }
static void setexpl(Cpu&c,V cf,V zf,V sf,V of,V pf){ c.f.k=F_EXPL;c.f.cf=cf;c.f.zf=zf;c.f.sf=sf;c.f.of=of;c.f.pf=pf; }
// ------------------------------------------------------------------ hooks
enum Hk{ H_NONE,H_U64,H_U32,H_U16,H_U8,H_BYTES,H_RANGE,H_PICK,H_ASSUME,H_CHECK,H_REACH,H_OUT,H_CONC,H_MERGE,H_EXPAB,H_KASE,H_EQMEM,H_DONE,H_SPAWN,H_YIELD,H_SHARED,H_ISSYM,H_ITE,H_JOIN,H_TID,H_NOPRE,H_DBG,H_CHOOSE };
static std::unordered_map<u64,Hk> hooks;
static V fresh(State&s,int w,const char*nm){ u32 idx; 
  V v=mkvar(std::string(nm)+std::to_string(var_names.size()),w,idx); return v; }
static size_t replay_pos=8; 
static void addin(State&s,V v,int w){ auto p=std::make_shared<In>(); p->v=v;p->w=w;p->prev=s.in;p->n=s.in?s.in->n+1:1; s.in=p; }
static V input(State&s,int w,const char*nm){ if(opt_isreplay){ int at=0; for(In*p=s.in.get();p;p=p->prev.get())at+=p->w/8; u64 x=0; for(int i=0;i<w/8;i++){ size_t q=8+at+i; if(q<opt_replay.size())x|=(u64)opt_replay[q]<<(8*i);} V v(x); addin(s,v,w); return v; } V v=fresh(s,w,nm); addin(s,v,w); return v; }
struct ForkVals{ V v; std::vector<u64> vals; };
struct SymBranch{ V c; u64 t,f; };
struct Sched{ }; 
static void do_check(State&s,int id,V c){ n_checks++; check_cnt[id]++; if(!c.e&&c.c){n_trivial++;return;}
  std::vector<const Node*> parts; std::function<void(const Node*)> fl=[&](const Node*x){ if(x->op==AND&&x->w==1)for(int i=0;i<x->n;i++)fl(x->a[i]); else parts.push_back(x); };
  if(!c.e){ violation(s,s.model,"check",id); n_paths++; end_cnt["check-failed"]++; throw EndPath(); }
  fl(c.e); bool bad=false;
  for(auto p:parts){ ModelP m; Res r=check_sat(s.pc,bnot(V(p)),s.model,m); if(r==SAT){ violation(s,m,"check",id); bad=true; break; } if(r==UNKNOWN){ inconclusive("unknown: check "+std::to_string(id)); } }
  if(bad){ ModelP m; if((c.e&&bigger({c.e},1500))||check_sat(s.pc,c,s.model,m)!=SAT){ n_paths++; end_cnt["check-failed"]++; throw EndPath(); } s.model=m; assume(s,c); } }
static void finish(State&s,const std::string&kind){ n_paths++; end_cnt[kind]++; reached_mask|=s.reach; if((int)wits.size()<opt_witness||(rand()%(n_paths+1))<(u64)opt_witness){ Wit w; w.input=stream_of(s,*s.model); w.outs=outs_of(s,*s.model); w.end=kind; w.sched=s.sched; if((int)wits.size()<opt_witness)wits.push_back(w); else wits[rand()%wits.size()]=w; } throw EndPath(); }
static void abnormal(State&s,const std::string&kind){ // process death: allowed only where expab holds
  V ex=s.expab; if(!ex.e&&ex.c)finish(s,"expected-abort"); ModelP m; Res r=check_sat(s.pc,bnot(ex),s.model,m); if(r==SAT)violation(s,m,kind,0); else if(r==UNKNOWN)inconclusive("unknown: abort condition"); if(ex.e){ ModelP m2; if(check_sat(s.pc,ex,s.model,m2)==SAT){ s.model=m2; assume(s,ex); finish(s,"expected-abort"); } } n_paths++; end_cnt["abort"]++; throw EndPath(); }
static void schedpoint(State&s){ s.justsched=false; throw Sched(); }
// returns true if handled (pc advanced via ret)
static void hook(State&s,Hk h){ Cpu&c=s.c; auto lo8=[&](V v){return bnot(eq(extract(v,7,0,64),V((u64)0),8));};
 switch(h){
 case H_U64: c.r[0]=input(s,64,"q"); break; case H_U32: c.r[0]=zext(input(s,32,"d"),32,64); break; case H_U16: c.r[0]=zext(input(s,16,"w"),16,64); break; case H_U8: c.r[0]=zext(input(s,8,"b"),8,64); break;
 case H_BYTES:{ u64 p=concr(s,c.r[7]),n=concr(s,c.r[6]); for(u64 i=0;i<n;i++)s.m.store(p+i,input(s,8,"b"),1); break; }
 case H_RANGE: case H_PICK: case H_CHOOSE:{ u64 lo=concr(s,c.r[7]),hi=concr(s,c.r[6]); if(opt_isreplay){ c.r[0]=input(s,64,"r"); break; } u64 d=hi-lo; if(h!=H_RANGE){ ForkVals f; int k=0; while(k<64&&(d>>k))k++; V v=k?fresh(s,k,"p"):V((u64)0); V full=add(V(lo),zext(v,k?k:64,64),64); addin(s,full,64); f.v=full; for(u64 x=lo;x<=hi;x++)f.vals.push_back(x); // return address handling done by caller
     V ra=pop(s); c.pc=concr(s,ra); throw f; }
   int k=0; while(k<64&&(d>>k))k++; if(k==0){ c.r[0]=V(lo); addin(s,V(lo),64); break; } V v=fresh(s,k,"r"); V full=add(V(lo),zext(v,k,64),64); addin(s,full,64); if(d!=mask(k)){ V ok=ule(v,V(d),k); ModelP m=std::make_shared<Model>(); if(s.model)m->val=s.model->val; m->val.resize(var_names.size(),0); s.model=m; assume(s,ok); } c.r[0]=full; break; }
 case H_ASSUME:{ V b=lo8(c.r[7]); if(!b.e){ if(!b.c){ end_cnt["assume"]++; throw EndPath(); } break; } ModelP m; Res r=check_sat(s.pc,b,s.model,m); if(r==UNSAT){ end_cnt["assume"]++; throw EndPath(); } if(r==UNKNOWN){ inconclusive("unknown: assume"); end_cnt["unknown"]++; throw EndPath(); } s.model=m; assume(s,b); break; }
 case H_CHECK: do_check(s,(int)concr(s,c.r[7]),lo8(c.r[6])); break;
 case H_REACH: s.reach|=1ull<<(concr(s,c.r[7])&63); break;
 case H_OUT:{ auto o=std::make_shared<Out>(); o->v=c.r[7]; o->prev=s.out; o->n=s.out?s.out->n+1:1; s.out=o; break; }
 case H_CONC: c.r[0]=V(concr(s,c.r[7])); break;
 case H_MERGE: s.merge=(concr(s,extract(c.r[7],7,0,64),8)&0xff)!=0; break;
 case H_EXPAB: s.expab=lo8(c.r[7]); break; case H_KASE: c.r[0]=V(opt_kase); break;
 case H_EQMEM:{ u64 p=concr(s,c.r[7]),q=concr(s,c.r[6]),n=concr(s,c.r[2]); V r((u64)1); for(u64 i=0;i<n;){ int k=n-i>=8?8:1; r=band(r,eq(s.m.load(p+i,k),s.m.load(q+i,k),k*8)); i+=k; } c.r[0]=zext(r,1,64); break; }
 case H_DONE: finish(s,"done"); break;
 case H_ISSYM: c.r[0]=V((u64)(c.r[7].e!=0)); break;
 case H_ITE: c.r[0]=ite(lo8(c.r[7]),c.r[6],c.r[2],64); break;
 case H_YIELD: if(!s.th.empty()){ V ra=pop(s); c.pc=concr(s,ra); s.c.st=0; throw Sched(); } break;
 case H_JOIN:{ // wait for all other threads
   for(size_t i=0;i<s.th.size();i++)if((int)i!=s.cur&&s.th[i].st!=2){ s.c.st=3; throw Sched(); } break; }
 case H_SHARED:{ auto v=s.shared?std::make_shared<std::vector<std::pair<u64,u64>>>(*s.shared):std::make_shared<std::vector<std::pair<u64,u64>>>(); v->push_back({concr(s,c.r[7]),concr(s,c.r[6])}); s.shared=v; break; }
 case H_TID: c.r[0]=V((u64)s.cur); break;
 case H_DBG: if(getenv("VSYM_DAG")&&c.r[7].e){ std::set<const Node*> seen; std::vector<const Node*> st{c.r[7].e}; while(!st.empty()){ auto x=st.back(); st.pop_back(); if(!seen.insert(x).second)continue; fprintf(stderr,"#%u = %s\n",x->id,show(x,1).c_str()); for(int i=0;i<x->n;i++)st.push_back(x->a[i]); } } else fprintf(stderr,"dbg: %s\n",c.r[7].e?show(c.r[7].e,8).c_str():std::to_string(c.r[7].c).c_str()); break;
 default: break; }
 V ra=pop(s); c.pc=concr(s,ra); }
// ------------------------------------------------------------------ syscalls
static void sys(State&s,const Insn&in){ Cpu&c=s.c; u64 n=concr(s,c.r[0]); auto A=[&](int i){ static const int rr[]={7,6,2,10,8,9}; return c.r[rr[i]]; }; V ret=V((u64)0);
 switch(n){
 case 9:{ u64 len=(concr(s,A(1))+4095)&~4095ull; u64 a=s.mmap_next; if(len>(256u<<20)){ ret=V((u64)-12); break;} s.m.map(a,len); s.mmap_next=a+len+4096; ret=V(a); break; }
 case 11:{ u64 a=concr(s,A(0)),l=concr(s,A(1)); s.m.unmap(a,l); break; }
 case 1:{ u64 fd=concr(s,A(0)),p=concr(s,A(1)),l=concr(s,A(2)); if(fd==1||fd==2)for(u64 i=0;i<l&&s.text.size()<2000;i++){ V b=s.m.load(p+i,1); s.text+=(char)(b.e?'?':b.c); } ret=V(l); break; }
 case 60: case 231:{ if(n==60&&!s.th.empty()&&s.cur!=0){ s.c.st=2; throw Sched(); } V code=subst(s,A(0)); u64 k=concr(s,code); k&=0xff; if(k==0)finish(s,"exit0"); abnormal(s,"exit-status-"+std::to_string(k)); break; }
 case 62: case 200: case 234: abnormal(s,"abort"); break;
 case 39: case 186: case 102: ret=V((u64)100+s.cur); break;
 case 158:{ u64 op=concr(s,A(0)); if(op==0x1002)c.fsbase=concr(s,A(1)); else if(op==0x1003)s.m.store(concr(s,A(1)),V(c.fsbase),8); break; }
 case 56:{ // clone of a thread
   u64 fl=concr(s,A(0)),sp=concr(s,A(1)),ct=concr(s,A(3)),tls=concr(s,A(4)); if((fl&0x50f00)!=0x50f00&&(fl&0x10100)!=0x10100)throw Unsup{"clone of a process"}; if(s.th.empty()){ s.th.push_back(Cpu()); s.c.stklo=0x3f000000; s.c.stkhi=0x40000000; }
   Cpu n=c; int id=s.th.size(); n.r[4]=V(sp); n.r[0]=V((u64)0); n.r[1]=n.r[11]=V((u64)0); n.pc=in.next; if(fl&0x80000)n.fsbase=tls; n.st=0; u64 lo=sp&~0xfffull; if(!s.m.rd(lo))lo-=4096; if(!s.m.rd(lo))throw Fault{lo,true}; while(s.m.rd(lo-4096))lo-=4096; n.stklo=lo; n.stkhi=sp; if(fl&0x1000000)s.m.store(ct,V((u64)(1000+id)),4); if(fl&0x100000)s.m.store(concr(s,A(2)),V((u64)(1000+id)),4); s.th.push_back(n); ret=V((u64)(1000+id)); break; }
 case 228: case 96:{ u64 p=concr(s,n==228?A(1):A(0)); if(p){ s.m.store(p,V((u64)1700000000),8); s.m.store(p+8,V((u64)0),8);} break; }
 case 13: case 14: case 10: case 28: case 24: case 35: case 131: break;
 case 202:{ // futex
   u64 a=concr(s,A(0)); u64 op=concr(s,A(1))&0x7f; if(op==0||op==9){ u64 tm=concr(s,A(3)); V v=s.m.load(a,4); V want=extract(A(2),31,0,64); V e=eq(v,want,32); if(e.e)throw NeedFork{v.e?v.e:want.e}; if(!e.c){ ret=V((u64)-11); s.freesw=true; break; } if(tm){ if(op==0)throw Unsup{"futex timeout"}; if(s.m.load(tm,8).e||s.m.load(tm,8).c>1700000000||(s.m.load(tm,8).c==1700000000&&s.m.load(tm+8,8).c>0))throw Unsup{"futex timeout"}; ret=V((u64)-110); s.freesw=true; break; } if(s.th.empty()){ abnormal(s,"deadlock"); } c.r[0]=V((u64)0); c.r[1]=V((u64)0);c.r[11]=V((u64)0); c.pc=in.next; c.st=1; c.faddr=a; c.wake=s.clock++; throw Sched(); }
   if(op==1||op==10){ u64 cnt=concr(s,A(2)); u64 w=0; cnt&=0xffffffff; if((int)cnt<0)cnt=0x7fffffff; 
      while(w<cnt){ int best=-1; for(size_t i=0;i<s.th.size();i++)if((int)i!=s.cur&&s.th[i].st==1&&s.th[i].faddr==a&&(best<0||s.th[i].wake<s.th[best].wake))best=i; if(best<0)break; s.th[best].st=0; w++; } ret=V(w); break; }
   if(op==3||op==4){ // requeue / cmp_requeue: uaddr, nr_wake, nr_requeue(val2), uaddr2, val3
      u64 nw=concr(s,A(2)),nr=concr(s,A(3)),a2=concr(s,A(4)); if(op==4){ V v=s.m.load(a,4); V e=eq(v,extract(A(5),31,0,64),32); if(e.e)throw NeedFork{v.e}; if(!e.c){ret=V((u64)-11);break;} } u64 w=0; nw&=0xffffffff;nr&=0xffffffff; for(;;){ int best=-1; for(size_t i=0;i<s.th.size();i++)if((int)i!=s.cur&&s.th[i].st==1&&s.th[i].faddr==a&&(best<0||s.th[i].wake<s.th[best].wake))best=i; if(best<0)break; if(w<nw){s.th[best].st=0;} else if(w<nw+nr){ s.th[best].faddr=a2; s.th[best].wake=s.clock++; } else break; w++; } ret=V(w); break; }
   throw Unsup{"futex op "+std::to_string(op)}; }
 case 2: case 257: ret=V((u64)-2); break; case 0: ret=V((u64)0); break; case 3: break; case 4: case 5: case 6: case 262: ret=V((u64)-2); break; case 318: throw Unsup{"getrandom"};
 default: throw Unsup{"syscall "+std::to_string(n)}; }
 c.r[0]=ret; c.r[1]=V((u64)0); c.r[11]=V((u64)0); c.pc=in.next; if(s.freesw&&s.th.size()>1)throw Sched(); s.freesw=false; }
// ------------------------------------------------------------------ one instruction
static V fcmp(Op o,int w,V a,V b){ V x[2]={a,b}; return fop(o,1,w,x,w,2); }
static V fbin(Op o,int w,V a,V b){ V x[2]={a,b}; return fop(o,w,0,x,w,2); }
static bool in_shared(State&s,u64 a,int n){ if(!s.shared)return false; for(auto&p:*s.shared)if(a<p.first+p.second&&p.first<a+n)return true; return false; }
static void maybe_sched(State&s,const Insn&in){ // scheduling point before an access to registered shared memory, a locked instruction or a futex call
 if(s.th.size()<2||s.justsched)return; bool sp=false; if(in.lock||in.m==M_xchg)sp=true; else if(in.m==M_syscall){ if(!s.c.r[0].e&&s.c.r[0].c==202)sp=true; }
 else if(in.m!=M_lea&&in.m!=M_nop){ for(int i=0;i<in.no;i++)if(in.o[i].k==K_MEM){ V a=ea(s,in.o[i]); if(!a.e&&in_shared(s,a.c,in.o[i].size?in.o[i].size:8))sp=true; } if((in.m==M_movs||in.m==M_stos)&&!s.c.r[7].e){ if(in_shared(s,s.c.r[7].c,8))sp=true; if(in.m==M_movs&&!s.c.r[6].e&&in_shared(s,s.c.r[6].c,8))sp=true; } }
 if(sp)throw Sched(); }
static void step(State&s,const Insn&in){ Cpu&c=s.c; int sz,w; V a,b,r; u64 nx=in.next;
 switch(in.m){
 case M_nop: break;
 case M_mov: sz=osz(in); wrt(s,in.o[0],sz,rd(s,in.o[1],sz)); break;
 case M_movzx:{ int ss=in.o[1].size; V v=rd(s,in.o[1],ss); wrt(s,in.o[0],in.o[0].size,zext(v,ss*8,in.o[0].size*8)); break; }
 case M_movsx:{ int ss=in.o[1].size; V v=rd(s,in.o[1],ss); wrt(s,in.o[0],in.o[0].size,sext(v,ss*8,in.o[0].size*8)); break; }
 case M_lea:{ V v=ea(s,in.o[1]); wrt(s,in.o[0],in.o[0].size,extract(v,in.o[0].size*8-1,0,64)); break; }
 case M_push:{ V v=in.o[0].k==K_IMM?V((u64)in.o[0].disp):rd(s,in.o[0],8); push(s,v); break; }
 case M_pop:{ V v=s.m.load(concr(s,c.r[4]),8); c.r[4]=V(c.r[4].c+8); wrt(s,in.o[0],8,v); break; }
 case M_call:{ u64 t=in.target; if(!t){ t=concr(s,rd(s,in.o[0],8)); } push(s,V(nx)); nx=t; if(!func_entry.count(t)){func_entry[t]=true; auto it=img.syms.find(t); if(it!=img.syms.end())funcs_seen.insert(it->second);} break; }
 case M_ret:{ V ra=s.m.load(concr(s,c.r[4]),8); u64 t=concr(s,ra); c.r[4]=V(c.r[4].c+8+(in.no?in.o[0].disp:0)); nx=t; break; }
 case M_jmp: nx=in.target?in.target:concr(s,rd(s,in.o[0],8)); break;
 case M_jcc:{ V k=cond(c,in.cc); if(!k.e){ nx=k.c?in.target:in.next; } else throw SymBranch{k,in.target,in.next}; break; }
 case M_setcc: wrt(s,in.o[0],1,zext(cond(c,in.cc),1,8)); break;
 case M_cmov: sz=in.o[0].size; a=rd(s,in.o[1],sz); r=ite(cond(c,in.cc),a,rd(s,in.o[0],sz),sz*8); wrt(s,in.o[0],sz,r); break;
 case M_add: sz=osz(in);w=sz*8; a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); r=add(a,b,w); wrt(s,in.o[0],sz,r); setf(c,F_ADD,w,a,b,r); break;
 case M_sub: sz=osz(in);w=sz*8; a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); r=sub(a,b,w); wrt(s,in.o[0],sz,r); setf(c,F_SUB,w,a,b,r); break;
 case M_cmp: sz=osz(in);w=sz*8; a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); setf(c,F_SUB,w,a,b,sub(a,b,w)); break;
 case M_adc: case M_sbb:{ sz=osz(in);w=sz*8; V cf=getCF(c.f); a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); V ci=zext(cf,1,w); V ncf,of; if(in.m==M_adc){ V t=add(a,b,w); r=add(t,ci,w); ncf=bor(ult(t,a,w),ult(r,t,w)); of=msb(and_(not_(xor_(a,b,w),w),xor_(a,r,w),w),w);} else { V t=sub(a,b,w); r=sub(t,ci,w); ncf=bor(ult(a,b,w),ult(t,ci,w)); of=msb(and_(xor_(a,b,w),xor_(a,r,w),w),w);} wrt(s,in.o[0],sz,r); setexpl(c,ncf,eq(r,V((u64)0),w),msb(r,w),of,parity(extract(r,7,0,w))); break; }
 case M_test: sz=osz(in);w=sz*8; r=and_(rd(s,in.o[0],sz),rd(s,in.o[1],sz),w); setf(c,F_LOGIC,w,V(),V(),r); break;
 case M_and: case M_or: case M_xor: sz=osz(in);w=sz*8; if(in.m==M_xor&&in.o[0].k==K_REG&&in.o[1].k==K_REG&&in.o[0].reg==in.o[1].reg&&in.o[0].hi==in.o[1].hi)r=V((u64)0); else { a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); r=in.m==M_and?and_(a,b,w):in.m==M_or?or_(a,b,w):xor_(a,b,w);} wrt(s,in.o[0],sz,r); setf(c,F_LOGIC,w,V(),V(),r); break;
 case M_not: sz=osz(in); wrt(s,in.o[0],sz,not_(rd(s,in.o[0],sz),sz*8)); break;
 case M_neg: sz=osz(in);w=sz*8; a=rd(s,in.o[0],sz); r=neg(a,w); wrt(s,in.o[0],sz,r); setf(c,F_SUB,w,V((u64)0),a,r); break;
 case M_inc: case M_dec:{ sz=osz(in);w=sz*8; V cf=c.f.k==F_POISON?V():V((u64)0); if(c.f.k!=F_POISON)cf=getCF(c.f); a=rd(s,in.o[0],sz); r=in.m==M_inc?add(a,V((u64)1),w):sub(a,V((u64)1),w); wrt(s,in.o[0],sz,r); setf(c,in.m==M_inc?F_INC:F_DEC,w,V(),V(),r); c.f.cf=cf; break; }
 case M_imul: if(in.no==1){ sz=osz(in);w=sz*8; a=rreg(c,0,sz); b=rd(s,in.o[0],sz); if(sz==8){ V h=smulh(a,b),l=mul(a,b,64); c.r[0]=l;c.r[2]=h; } else if(sz==1){ V p=mul(sext(a,8,16),sext(b,8,16),16); wreg(c,0,2,p); } else { V p=mul(sext(a,w,2*w),sext(b,w,2*w),2*w); wreg(c,0,sz,extract(p,w-1,0,2*w)); wreg(c,2,sz,extract(p,2*w-1,w,2*w)); } c.f.k=F_POISON; }
   else { sz=in.o[0].size;w=sz*8; if(in.no==2){a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz);} else {a=rd(s,in.o[1],sz);b=rd(s,in.o[2],sz);} wrt(s,in.o[0],sz,mul(a,b,w)); c.f.k=F_POISON; } break;
 case M_mul: sz=osz(in);w=sz*8; a=rreg(c,0,sz); b=rd(s,in.o[0],sz); if(sz==8){ V h=umulh(a,b),l=mul(a,b,64); c.r[0]=l;c.r[2]=h; V of=bnot(eq(h,V((u64)0),64)); setexpl(c,of,V((u64)0),V((u64)0),of,V((u64)0)); } else if(sz==1){ V p=mul(zext(a,8,16),zext(b,8,16),16); wreg(c,0,2,p); c.f.k=F_POISON;} else { V p=mul(zext(a,w,2*w),zext(b,w,2*w),2*w); wreg(c,0,sz,extract(p,w-1,0,2*w)); wreg(c,2,sz,extract(p,2*w-1,w,2*w)); V of=bnot(eq(extract(p,2*w-1,w,2*w),V((u64)0),w)); setexpl(c,of,V((u64)0),V((u64)0),of,V((u64)0)); } break;
 case M_div: case M_idiv:{ bool sg=in.m==M_idiv; sz=osz(in);w=sz*8; b=rd(s,in.o[0],sz); V z=eq(b,V((u64)0),w); 
   if(!z.e){ if(z.c)abnormal(s,"divide-error"); } else { ModelP m; Res q=check_sat(s.pc,z,s.model,m); if(q==SAT){ throw SymBranch{z,(u64)-1,c.pc}; } if(q==UNKNOWN)inconclusive("unknown: divisor"); assume(s,bnot(z)); }
   V q,rm; if(sz==8){ V lo=c.r[0],hi=c.r[2]; V sgn=ashr(lo,V((u64)63),64); if(!hi.e&&hi.c==0&&!sg){ q=udiv_(lo,b,64);rm=urem_(lo,b,64);} else if(sg&&hi.e==sgn.e&&hi.c==sgn.c){ V ov=band(eq(lo,V(1ull<<63),64),eq(b,V(~0ull),64)); if(ov.e||ov.c){ ModelP m; Res t=ov.e?check_sat(s.pc,ov,s.model,m):SAT; if(t==SAT){ if(!ov.e)abnormal(s,"divide-overflow"); throw SymBranch{ov,(u64)-2,c.pc}; } } q=sdiv_(lo,b,64);rm=srem_(lo,b,64);} 
       else if(!lo.e&&!hi.e&&!b.e){ if(!sg){ u128 n=((u128)hi.c<<64)|lo.c; u128 qq=n/b.c; if(qq>>64)abnormal(s,"divide-overflow"); q=V((u64)qq);rm=V((u64)(n%b.c)); } else { i128 n=(i128)(((u128)hi.c<<64)|lo.c); i128 qq=n/(i64)b.c; if(qq!=(i64)qq)abnormal(s,"divide-overflow"); q=V((u64)(i64)qq);rm=V((u64)(i64)(n%(i64)b.c)); } }
       else throw Unsup{"128-bit division"}; c.r[0]=q;c.r[2]=rm; }
   else { int w2=2*w; V n=sz==1?extract(c.r[0],15,0,64):concat(rreg(c,2,sz),w,rreg(c,0,sz),w); V bb=sg?sext(b,w,w2):zext(b,w,w2); V lo=sz==1?extract(n,7,0,16):rreg(c,0,sz); 
      // narrow form when the dividend is a plain extension
      V se=sg?sext(lo,w,w2):zext(lo,w,w2); V ov; 
      bool plain=se.e==n.e&&se.c==n.c; if(!plain&&sg&&sz>1){ V hs=ashr(lo,V((u64)(w-1)),w),hi=rreg(c,2,sz); plain=hs.e==hi.e&&hs.c==hi.c; }
      if(plain){ ov=sg?band(eq(lo,V(1ull<<(w-1)),w),eq(b,V(mask(w)),w)):V((u64)0); if(ov.e||ov.c){ ModelP m; Res t=ov.e?check_sat(s.pc,ov,s.model,m):SAT; if(t==SAT){ if(!ov.e)abnormal(s,"divide-overflow"); throw SymBranch{ov,(u64)-2,c.pc}; } } q=sg?sdiv_(lo,b,w):udiv_(lo,b,w); rm=sg?srem_(lo,b,w):urem_(lo,b,w); }
      else { V Q=sg?sdiv_(n,bb,w2):udiv_(n,bb,w2),R=sg?srem_(n,bb,w2):urem_(n,bb,w2); V back=sg?sext(extract(Q,w-1,0,w2),w,w2):zext(extract(Q,w-1,0,w2),w,w2); ov=bnot(eq(back,Q,w2)); if(ov.e||ov.c){ ModelP m; Res t=ov.e?check_sat(s.pc,ov,s.model,m):SAT; if(t==SAT){ if(!ov.e)abnormal(s,"divide-overflow"); throw SymBranch{ov,(u64)-2,c.pc}; } } q=extract(Q,w-1,0,w2);rm=extract(R,w-1,0,w2); }
      if(sz==1){ wreg(c,0,2,concat(rm,8,q,8)); } else { wreg(c,0,sz,q); wreg(c,2,sz,rm); } }
   c.f.k=F_POISON; break; }
 case M_cqo: c.r[2]=ashr(c.r[0],V((u64)63),64); break; case M_cdq: wreg(c,2,4,ashr(rreg(c,0,4),V((u64)31),32)); break; case M_cwd: wreg(c,2,2,ashr(rreg(c,0,2),V((u64)15),16)); break;
 case M_cdqe: c.r[0]=sext(rreg(c,0,4),32,64); break; case M_cwde: wreg(c,0,4,sext(rreg(c,0,2),16,32)); break; case M_cbw: wreg(c,0,2,sext(rreg(c,0,1),8,16)); break;
 case M_shl: case M_shr: case M_sar: case M_rol: case M_ror:{ sz=in.o[0].k==K_REG?in.o[0].size:in.o[0].size;w=sz*8; a=rd(s,in.o[0],sz); V cnt=in.no<2?V((u64)1):in.o[1].k==K_IMM?V((u64)in.o[1].disp&0xff):extract(rd(s,in.o[1],in.o[1].size),7,0,in.o[1].size*8); V m8=and_(cnt,V((u64)(sz==8?63:31)),8); V mw=w>=8?zext(m8,8,w):m8; if(!m8.e&&m8.c==0){ if(sz==4&&in.o[0].k==K_REG)wrt(s,in.o[0],sz,a); break; }
   if(in.m==M_rol||in.m==M_ror){ if(m8.e){ V k=urem_(mw,V((u64)w),w); if(in.m==M_ror)k=urem_(sub(V((u64)w),k,w),V((u64)w),w); r=or_(shl(a,k,w),lshr(a,urem_(sub(V((u64)w),k,w),V((u64)w),w),w),w); r=ite(eq(k,V((u64)0),w),a,r,w);} else { int k=m8.c%w; if(in.m==M_ror)k=(w-k)%w; r=k?concat(extract(a,w-k-1,0,w),w-k,extract(a,w-1,w-k,w),k):a; } wrt(s,in.o[0],sz,r); c.f.k=F_POISON; break; }
   if(sz<4){ // counts up to 31 may exceed the width
     r=in.m==M_shl?shl(a,mw,w):in.m==M_shr?lshr(a,mw,w):ashr(a,mw,w); } else r=in.m==M_shl?shl(a,mw,w):in.m==M_shr?lshr(a,mw,w):ashr(a,mw,w);
   wrt(s,in.o[0],sz,r); if(m8.e)c.f.k=F_POISON; else { u64 k=m8.c; V cf; if(k<=(u64)w)cf=in.m==M_shl?extract(a,w-k,w-k,w):extract(a,k-1,k-1,w); else cf=in.m==M_sar?msb(a,w):V((u64)0); setexpl(c,cf,eq(r,V((u64)0),w),msb(r,w),k==1?(in.m==M_shl?xor_(msb(r,w),cf,1):in.m==M_shr?msb(a,w):V((u64)0)):V((u64)0),parity(extract(r,7,0,w))); } break; }
 case M_shld: case M_shrd:{ sz=in.o[0].size;w=sz*8; a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); V k=in.o[2].k==K_IMM?V((u64)in.o[2].disp&0xff):rreg(c,1,1); k=zext(and_(k,V((u64)(sz==8?63:31)),8),8,w); V z=eq(k,V((u64)0),w); V ik=sub(V((u64)w),k,w); r=in.m==M_shld?or_(shl(a,k,w),lshr(b,ik,w),w):or_(lshr(a,k,w),shl(b,ik,w),w); r=ite(z,a,r,w); wrt(s,in.o[0],sz,r); c.f.k=F_POISON; break; }
 case M_bt: case M_bts: case M_btr: case M_btc:{ if(in.o[0].k!=K_REG)throw Unsup{"bt mem"}; sz=in.o[0].size;w=sz*8; a=rd(s,in.o[0],sz); b=and_(rd(s,in.o[1],sz),V((u64)w-1),w); V bit=extract(lshr(a,b,w),0,0,w); if(in.m!=M_bt){ V mm=shl(V((u64)1),b,w); wrt(s,in.o[0],sz,in.m==M_bts?or_(a,mm,w):in.m==M_btc?xor_(a,mm,w):and_(a,not_(mm,w),w)); } setexpl(c,bit,V((u64)0),V((u64)0),V((u64)0),V((u64)0)); break; }
 case M_bsr: case M_bsf: case M_tzcnt: case M_lzcnt:{ sz=in.o[0].size;w=sz*8; a=rd(s,in.o[1],sz); r=rd(s,in.o[0],sz); if(in.m==M_tzcnt||in.m==M_lzcnt)r=V((u64)w); if(in.m==M_bsr||in.m==M_lzcnt){ for(int i=0;i<w;i++)r=ite(extract(a,i,i,w),V((u64)(in.m==M_bsr?i:w-1-i)),r,w);} else for(int i=w-1;i>=0;i--)r=ite(extract(a,i,i,w),V((u64)i),r,w); wrt(s,in.o[0],sz,r); V z=eq(a,V((u64)0),w); setexpl(c,z,z,V((u64)0),V((u64)0),V((u64)0)); break; }
 case M_popcnt:{ sz=in.o[0].size;w=sz*8; a=rd(s,in.o[1],sz); r=V((u64)0); for(int i=0;i<w;i++)r=add(r,zext(extract(a,i,i,w),1,w),w); wrt(s,in.o[0],sz,r); setf(c,F_LOGIC,w,V(),V(),a); break; }
 case M_xchg: sz=osz(in); a=rd(s,in.o[0],sz); b=rd(s,in.o[1],sz); if(in.o[0].k==K_MEM){wrt(s,in.o[0],sz,b);wrt(s,in.o[1],sz,a);} else {wrt(s,in.o[1],sz,a);wrt(s,in.o[0],sz,b);} break;
 case M_xadd: sz=osz(in);w=sz*8; a=rd(s,in.o[0],sz);b=rd(s,in.o[1],sz); r=add(a,b,w); wrt(s,in.o[0],sz,r); wrt(s,in.o[1],sz,a); setf(c,F_ADD,w,a,b,r); break;
 case M_cmpxchg:{ sz=osz(in);w=sz*8; a=rreg(c,0,sz); b=rd(s,in.o[0],sz); V e=eq(a,b,w); V nv=rd(s,in.o[1],sz); wrt(s,in.o[0],sz,ite(e,nv,b,w)); if(e.e)wreg(c,0,sz,ite(e,a,b,w)); else if(!e.c)wreg(c,0,sz,b); setf(c,F_SUB,w,a,b,sub(a,b,w)); break; }
 case M_bswap:{ sz=in.o[0].size;w=sz*8; a=rd(s,in.o[0],sz); V o=extract(a,7,0,w); int ow=8; for(int i=1;i<sz;i++){ o=concat(o,ow,extract(a,i*8+7,i*8,w),8); ow+=8; } wrt(s,in.o[0],sz,o); break; }
 case M_leave: { u64 bp=concr(s,c.r[5]); V v=s.m.load(bp,8); c.r[4]=V(bp+8); c.r[5]=v; break; }
 case M_cld: c.df=false; break; case M_std: c.df=true; break; case M_stc: case M_clc:{ V cf((u64)(in.m==M_stc)); V z,sf,of,pf; if(c.f.k!=F_POISON){z=getZF(c.f);sf=getSF(c.f);of=getOF(c.f);pf=getPF(c.f);} setexpl(c,cf,z,sf,of,pf); break; }
 case M_movs: case M_stos:{ sz=in.o[0].size; u64 n=in.rep?concr(s,c.r[1]):1; u64 di=concr(s,c.r[7]),si=in.m==M_movs?concr(s,c.r[6]):0; i64 d=c.df?-sz:sz; V v=rreg(c,0,sz); if(n>(1u<<26))throw Fault{di,true}; s.ni+=n; 
   for(u64 i=0;i<n;i++){ s.m.store(di,in.m==M_movs?s.m.load(si,sz):v,sz); di+=d; si+=d; } c.r[7]=V(di); if(in.m==M_movs)c.r[6]=V(si); if(in.rep)c.r[1]=V((u64)0); break; }
 case M_hlt: case M_ud2: case M_int3: abnormal(s,"trap"); break;
 case M_syscall: sys(s,in); return;
 case M_cpuid:{ u64 l=concr(s,c.r[0]); (void)l; c.r[0]=V((u64)0);c.r[3]=V((u64)0);c.r[1]=V((u64)0);c.r[2]=V((u64)0); break; }
 case M_ldmxcsr: case M_fldcw: break; case M_stmxcsr: wrt(s,in.o[0],4,V((u64)0x1f80)); break; case M_fnstcw: wrt(s,in.o[0],2,V((u64)0x37f)); break;
 // ---- sse
 case M_movss: case M_movsdx:{ int fw=in.fw; if(in.o[0].k==K_XMM){ if(in.o[1].k==K_XMM){ V v=s.c.xl[in.o[1].reg]; V&d=c.xl[in.o[0].reg]; d=fw==64?v:concat(extract(d,63,32,64),32,extract(v,31,0,64),32);} else { V v=rd(s,in.o[1],fw/8); c.xl[in.o[0].reg]=zext(v,fw,64); c.xh[in.o[0].reg]=V((u64)0);} } else storev(s,ea(s,in.o[0]),fw==64?c.xl[in.o[1].reg]:extract(c.xl[in.o[1].reg],31,0,64),fw/8); break; }
 case M_movaps:{ V l,h; if(in.o[1].k==K_XMM){l=c.xl[in.o[1].reg];h=c.xh[in.o[1].reg];} else { V ad=ea(s,in.o[1]); l=loadv(s,ad,8);h=loadv(s,add(ad,V((u64)8),64),8);} if(in.o[0].k==K_XMM){c.xl[in.o[0].reg]=l;c.xh[in.o[0].reg]=h;} else { V ad=ea(s,in.o[0]); storev(s,ad,l,8); storev(s,add(ad,V((u64)8),64),h,8);} break; }
 case M_movd: case M_movq:{ int n=in.m==M_movd?4:8; if(in.o[0].k==K_XMM){ int k=n; if(in.o[1].k==K_REG)k=in.o[1].size; V v=rd(s,in.o[1],k); if(in.o[1].k==K_XMM)v=c.xl[in.o[1].reg],k=8; c.xl[in.o[0].reg]=zext(v,k*8,64); c.xh[in.o[0].reg]=V((u64)0);} else { int k=in.o[0].k==K_REG?in.o[0].size:n; V v=c.xl[in.o[1].reg]; wrt(s,in.o[0],k,extract(v,k*8-1,0,64)); } break; }
 case M_movlps: if(in.o[0].k==K_XMM)c.xl[in.o[0].reg]=loadv(s,ea(s,in.o[1]),8); else storev(s,ea(s,in.o[0]),c.xl[in.o[1].reg],8); break;
 case M_movhps: if(in.o[0].k==K_XMM)c.xh[in.o[0].reg]=loadv(s,ea(s,in.o[1]),8); else storev(s,ea(s,in.o[0]),c.xh[in.o[1].reg],8); break;
 case M_movhlps: c.xl[in.o[0].reg]=c.xh[in.o[1].reg]; break; case M_movlhps: c.xh[in.o[0].reg]=c.xl[in.o[1].reg]; break; case M_punpcklqdq: { V v=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:loadv(s,ea(s,in.o[1]),8); c.xh[in.o[0].reg]=v; break; }
 case M_unpcklps: case M_punpckldq:{ V l=c.xl[in.o[0].reg]; V o=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:loadv(s,ea(s,in.o[1]),8); c.xl[in.o[0].reg]=concat(extract(o,31,0,64),32,extract(l,31,0,64),32); c.xh[in.o[0].reg]=concat(extract(o,63,32,64),32,extract(l,63,32,64),32); break; }
 case M_pshufd:{ V l=c.xl[in.o[1].reg],h=c.xh[in.o[1].reg]; int k=in.o[2].disp; auto g=[&](int i){ i&=3; V q=i<2?l:h; return (i&1)?extract(q,63,32,64):extract(q,31,0,64); }; c.xl[in.o[0].reg]=concat(g(k>>2),32,g(k),32); c.xh[in.o[0].reg]=concat(g(k>>6),32,g(k>>4),32); break; }
 case M_pxor: case M_pand: case M_pandn: case M_por:{ V l,h; if(in.o[1].k==K_XMM){l=c.xl[in.o[1].reg];h=c.xh[in.o[1].reg];} else { V ad=ea(s,in.o[1]); l=loadv(s,ad,8);h=loadv(s,add(ad,V((u64)8),64),8);} V&x=c.xl[in.o[0].reg];V&y=c.xh[in.o[0].reg]; if(in.m==M_pxor){ if(in.o[1].k==K_XMM&&in.o[1].reg==in.o[0].reg){x=V((u64)0);y=V((u64)0);} else {x=xor_(x,l,64);y=xor_(y,h,64);} } else if(in.m==M_pand){x=and_(x,l,64);y=and_(y,h,64);} else if(in.m==M_por){x=or_(x,l,64);y=or_(y,h,64);} else {x=and_(not_(x,64),l,64);y=and_(not_(y,64),h,64);} break; }
 case M_addf: case M_subf: case M_mulf: case M_divf: case M_sqrtf: case M_minf: case M_maxf:{ int fw=in.fw; V x=c.xl[in.o[0].reg]; V y=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:rd(s,in.o[1],fw/8); if(in.o[1].k==K_XMM&&fw==32)y=extract(y,31,0,64); V xx=fw==64?x:extract(x,31,0,64); V q; if(in.m==M_sqrtf){ V t[1]={y}; q=fop(FSQRT,fw,0,t,fw,1);} else if(in.m==M_minf){ q=ite(fcmp(FLT,fw,xx,y),xx,y,fw);} else if(in.m==M_maxf){ q=ite(fcmp(FLT,fw,y,xx),xx,y,fw);} else q=fbin(in.m==M_addf?FADD:in.m==M_subf?FSUB:in.m==M_mulf?FMUL:FDIV,fw,xx,y); c.xl[in.o[0].reg]=fw==64?q:concat(extract(x,63,32,64),32,q,32); break; }
 case M_cvtsi2f:{ int fw=in.fw; int ss=in.o[1].size; V v=rd(s,in.o[1],ss); V t[1]={v}; V q=fop(SI2F,fw,ss*8,t,ss*8,1); V x=c.xl[in.o[0].reg]; c.xl[in.o[0].reg]=fw==64?q:concat(extract(x,63,32,64),32,q,32); break; }
 case M_cvttf2si: case M_cvtf2si:{ int fw=in.fw; V y=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:rd(s,in.o[1],fw/8); if(in.o[1].k==K_XMM&&fw==32)y=extract(y,31,0,64); V t[1]={y}; int dw=in.o[0].size*8; wrt(s,in.o[0],in.o[0].size,fop(in.m==M_cvttf2si?F2SI:F2SIR,dw,fw,t,fw,1)); break; }
 case M_cvtf2f:{ int dw=in.fw,sw=dw==64?32:64; V y=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:rd(s,in.o[1],sw/8); if(in.o[1].k==K_XMM&&sw==32)y=extract(y,31,0,64); V t[1]={y}; V q=fop(F2F,dw,0,t,sw,1); V x=c.xl[in.o[0].reg]; c.xl[in.o[0].reg]=dw==64?q:concat(extract(x,63,32,64),32,q,32); break; }
 case M_ucomi:{ int fw=in.fw; V x=c.xl[in.o[0].reg]; if(fw==32)x=extract(x,31,0,64); V y=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:rd(s,in.o[1],fw/8); if(in.o[1].k==K_XMM&&fw==32)y=extract(y,31,0,64); V un=fcmp(FUNORD,fw,x,y); V e=fcmp(FEQ,fw,x,y),l=fcmp(FLT,fw,x,y); setexpl(c,bor(un,l),bor(un,e),V((u64)0),V((u64)0),un); break; }
 case M_round:{ int fw=in.fw; V y=in.o[1].k==K_XMM?c.xl[in.o[1].reg]:rd(s,in.o[1],fw/8); if(in.o[1].k==K_XMM&&fw==32)y=extract(y,31,0,64); V t[1]={y}; int md=in.o[2].disp; if(md&4)md=0; V q=fop(FROUND,fw,md&3,t,fw,1); V x=c.xl[in.o[0].reg]; c.xl[in.o[0].reg]=fw==64?q:concat(extract(x,63,32,64),32,q,32); break; }
 case M_vfmadd132: case M_vfmadd213: case M_vfmadd231:{ int fw=in.fw; auto g=[&](int i){ V y=in.o[i].k==K_XMM?c.xl[in.o[i].reg]:rd(s,in.o[i],fw/8); if(in.o[i].k==K_XMM&&fw==32)y=extract(y,31,0,64); return y; }; V o1=g(0),o2=g(1),o3=g(2); V t[3]; if(in.m==M_vfmadd132){t[0]=o1;t[1]=o3;t[2]=o2;} else if(in.m==M_vfmadd213){t[0]=o2;t[1]=o1;t[2]=o3;} else {t[0]=o2;t[1]=o3;t[2]=o1;} V q=fop(FMA,fw,0,t,fw,3); V x=c.xl[in.o[0].reg]; c.xl[in.o[0].reg]=fw==64?q:concat(extract(x,63,32,64),32,q,32); break; }
 default: throw Unsup{"instruction: "+in.text}; }
 c.pc=nx; }
// ------------------------------------------------------------------ merging
static bool ptrlike(u64 v){ return v>=0x400000&&v<0x40000000; }
static bool mergeable_word(V a,V b){ if(!a.e&&!b.e&&a.c!=b.c&&(ptrlike(a.c)||ptrlike(b.c)))return false; if(!a.e&&b.e&&ptrlike(a.c))return false; if(!b.e&&a.e&&ptrlike(b.c))return false; return true; }
static bool try_merge(State&A,State&B){ if(A.in!=B.in||A.th.size()||B.th.size()||A.mmap_next!=B.mmap_next||A.c.fsbase!=B.c.fsbase||A.c.df!=B.c.df||A.merge!=B.merge)return false; if((A.out?A.out->n:0)!=(B.out?B.out->n:0))return false; if(A.fixed!=B.fixed){ if(!A.fixed||!B.fixed||*A.fixed!=*B.fixed)return false; }
 // path-condition suffixes
 PCList*p=A.pc.get(),*q=B.pc.get(); std::vector<const Node*> sa,sb; while(p!=q){ int np=p?p->n:0,nq=q?q->n:0; if(np>=nq){sa.push_back(p->c);p=p->prev.get();} else {sb.push_back(q->c);q=q->prev.get();} }
 V ca((u64)1),cb((u64)1); for(auto x:sa)ca=band(ca,V(x)); for(auto x:sb)cb=band(cb,V(x)); if(!ca.e||!cb.e)return false;
 for(int i=0;i<16;i++){ if(i!=4&&!mergeable_word(A.c.r[i],B.c.r[i]))return false; }
 struct D{u64 a;int n;V x,y;}; std::vector<D> ds; u64 sp=A.c.r[4].c-128; 
 for(int i=0;i<512;i++){ Chunk*x=A.m.c[i],*y=B.m.c[i]; if(x==y)continue; if(!x||!y)return false; for(int j=0;j<512;j++){ Page*u=x->p[j],*v=y->p[j]; if(u==v)continue; if(!u||!v)return false; u64 base=((u64)i<<21)|((u64)j<<12); if(!u->s&&!v->s&&!memcmp(u->d,v->d,4096))continue;
   for(int o=0;o<4096;o+=8){ bool df=false; for(int k=0;k<8;k++)if(!Mem::bsame(u,v,o+k)){df=true;break;} if(!df)continue; u64 ad=base+o; if(ad+8<=sp&&ad>=sp-0x80000)continue; // dead stack below rsp
     V a=A.m.load(ad,8),b=B.m.load(ad,8); if(!mergeable_word(a,b))return false; bool whole=(!a.e||a.e->op!=CONCAT)&&(!b.e||b.e->op!=CONCAT); if(whole)ds.push_back({ad,8,a,b}); else for(int k=0;k<8;k++)if(!Mem::bsame(u,v,o+k))ds.push_back({ad+k,1,A.m.load(ad+k,1),B.m.load(ad+k,1)}); if(ds.size()>4000)return false; } } }
 // commit into A
 for(int i=0;i<16;i++)A.c.r[i]=ite(ca,A.c.r[i],B.c.r[i],64); for(int i=0;i<16;i++){A.c.xl[i]=ite(ca,A.c.xl[i],B.c.xl[i],64);A.c.xh[i]=ite(ca,A.c.xh[i],B.c.xh[i],64);} A.c.f.k=F_POISON;
 for(auto&d:ds)A.m.store(d.a,ite(ca,d.x,d.y,d.n*8),d.n);
 if(A.out!=B.out){ std::vector<V> oa,ob; Out*x=A.out.get(),*y=B.out.get(); while(x!=y){oa.push_back(x->v);ob.push_back(y->v);x=x->prev.get();y=y->prev.get();} std::shared_ptr<Out> t=A.out; for(size_t i=0;i<oa.size();i++)t=t->prev; for(int i=(int)oa.size()-1;i>=0;i--){ auto o=std::make_shared<Out>(); o->v=ite(ca,oa[i],ob[i],64); o->prev=t; o->n=t?t->n+1:1; t=o; } A.out=t; }
 A.expab=ite(ca,A.expab,B.expab,1); std::shared_ptr<PCList> base=A.pc; for(size_t i=0;i<sa.size();i++)base=base->prev; A.pc=base; V disj=bor(ca,cb); assume(A,disj); A.ni=std::max(A.ni,B.ni); A.reach|=B.reach; n_merges++; return true; }
// ------------------------------------------------------------------ driver
static bool out_of_budget(){ if(opt_done)return true; if(now()-t_start>opt_time){ inconclusive("time limit"); opt_done=true; return true; } if(n_paths>opt_maxpaths){ inconclusive("path limit"); opt_done=true; return true; } if(n_instr>opt_maxinstr){ inconclusive("instruction limit"); opt_done=true; return true; } return false; }
static int depth=0;
typedef std::vector<std::pair<SP,int>> Arr;
static void split(State&s,V c,SP&t,SP&f){ // feasibility of c and !c; s.model satisfies pc
 bool v=evalv(c,*s.model); ModelP m; Res r=check_sat(s.pc,v?bnot(c):c,s.model,m); if(r==UNKNOWN)inconclusive("unknown: branch at "+img.where(s.c.pc)); bool other=r==SAT; if(other||r==UNKNOWN)n_forks++; SP o; if(other){ o.reset(new State(s)); o->model=m; assume(*o,v?bnot(c):c); o->forks++; } SP me(new State(s)); assume(*me,v?c:bnot(c)); // implied when the other side is infeasible, harmless
 if(!other&&r==UNSAT)me->pc=s.pc; if(v){t=std::move(me);f=std::move(o);} else {f=std::move(me);t=std::move(o);} }
static void run(SP init,Stop*stop,Arr&arr);
static void thread_fork(SP&s,std::vector<SP>&wl);
static std::unordered_map<u64,int> visited;
static u64 state_hash(State&s){ u64 h=1469598103934665603ull; auto mx=[&](u64 x){ h^=x; h*=1099511628211ull; h^=h>>29; }; auto mv=[&](V v){ mx(v.c); mx((u64)v.e); }; for(size_t t=0;t<s.th.size();t++){ Cpu&c=s.th[t]; mx(c.pc); mx(c.st); mx(c.faddr); if(c.st==1){ int rank=0; for(auto&o:s.th)if(o.st==1&&o.faddr==c.faddr&&o.wake<c.wake)rank++; mx(rank);} for(auto&v:c.r)mv(v); for(auto&v:c.xl)mv(v); for(auto&v:c.xh)mv(v); mx(c.f.k); mx(c.f.w); mv(c.f.a); mv(c.f.b); mv(c.f.r); mv(c.f.cf); mv(c.f.zf); mv(c.f.sf); mv(c.f.of); mv(c.f.pf); } mx(s.cur); for(PCList*p=s.pc.get();p;p=p->prev.get())mx((u64)p->c);
 for(int i=0;i<512;i++)if(s.m.c[i])for(int j=0;j<512;j++){ Page*p=s.m.c[i]->p[j]; if(!p||!p->w||p==Mem::zero(true))continue; u64 pa=((u64)i<<21)|((u64)j<<12); u64 hh; bool skip=false,stk=false; for(auto&t:s.th)if(pa+4096>t.stklo&&pa<t.stkhi){ stk=true; if(t.st==2||pa+4096<=t.r[4].c)skip=true; } if(skip)continue; // dead stack
   if(!stk&&p->hv)hh=p->h; else { u64*d=(u64*)p->d; hh=0; for(int k=0;k<512;k++){ if(stk){ u64 ad=pa+k*8; bool dead=false; for(auto&t:s.th)if(ad>=t.stklo&&ad<t.stkhi&&(t.st==2||ad+8<=t.r[4].c)){dead=true;break;} if(dead)continue; }
     u64 w=d[k]; bool sy=false; if(p->s)for(int b=0;b<8;b++)if(p->s[k*8+b].e){ sy=true; hh=(hh^(u64)p->s[k*8+b].e^((u64)p->s[k*8+b].i<<56)^(b+k*8+1))*1099511628211ull; hh^=hh>>31; w&=~(0xffull<<(8*b)); } if(w){ hh=(hh^(w+k*0x9e3779b97f4a7c15ull))*1099511628211ull; hh^=hh>>31; } } if(!stk){ p->h=hh; p->hv=true; } }
   if(hh){ mx(pa); mx(hh); } }
 return h; }
// choose the next thread: fork one state per runnable thread
static void thread_fork(SP&s,std::vector<SP>&wl){ n_sched_states++; s->sched.push_back((int)s->segn); s->segn=0; s->th[s->cur]=s->c; bool curok=s->th[s->cur].st==0&&!s->freesw; s->freesw=false; std::vector<int> run_; for(size_t i=0;i<s->th.size();i++){ Cpu&c=s->th[i]; if(c.st==3){ bool all=true; for(size_t j=0;j<s->th.size();j++)if(j!=i&&s->th[j].st!=2)all=false; if(all)run_.push_back(i);} else if(c.st==0)run_.push_back(i); }
 u64 h=state_hash(*s); auto vi=visited.insert({h,s->preempts}); if(!vi.second){ if(vi.first->second<=s->preempts){ end_cnt["revisited"]++; return; } vi.first->second=s->preempts; }
 if(run_.empty()){ try { abnormal(*s,"deadlock"); } catch(EndPath&){} return; }
 for(size_t k=0;k<run_.size();k++){ int t=run_[k]; bool pre=curok&&t!=s->cur; if(pre&&s->preempts>=opt_preempt)continue; SP n(new State(*s)); if(pre)n->preempts++; n->cur=t; n->c=n->th[t]; if(n->c.st==3)n->c.st=0; n->justsched=true; n->sched.push_back(t); wl.push_back(std::move(n)); } }
static void enumerate(SP&s,const Node*e,std::vector<SP>&wl){ // fork over all feasible values of e
 u64 cnt=0; PC base=s->pc; ModelP cur=s->model; std::vector<std::pair<u64,ModelP>> vals; PC pc=s->pc; for(;;){ u64 v=eval(e,*cur); vals.push_back({v,cur}); if(++cnt>opt_maxenum){ inconclusive("more than "+std::to_string(opt_maxenum)+" values for a symbolic address/size at "+img.where(s->c.pc)); return; } V ne=bnot(eq(V(e),V(v),e->w)); if(!ne.e)break; pc=std::make_shared<PCList>(ne.e,pc); ModelP m; PC pp=pc->prev; Res r=check_sat(pp,ne,cur,m); if(r==UNSAT)break; if(r==UNKNOWN){inconclusive("unknown: enumerating values");break;} cur=m; if(now()-t_start>opt_time)break; }
 for(auto&p:vals){ SP n(new State(*s)); n->model=p.second; assume(*n,eq(V(e),V(p.first),e->w)); auto fx=n->fixed?std::make_shared<std::map<const Node*,u64>>(*n->fixed):std::make_shared<std::map<const Node*,u64>>(); (*fx)[e]=p.first; n->fixed=fx; for(auto&r:n->c.r)if(r.e==e)r=V(p.first); n_forks++; wl.push_back(std::move(n)); } }
static void run(SP init,Stop*stop,Arr&arr){ std::vector<SP> wl; wl.push_back(std::move(init)); depth++;
 while(!wl.empty()){ if(out_of_budget())break; SP s=std::move(wl.back()); wl.pop_back(); u64 cnt=0; bool fresh_stop=true; (void)fresh_stop;
  for(;;){ State&S=*s;
   if((++cnt&0x3ff)==0&&out_of_budget()){ break; }
   if(stop&&cnt>1){ bool hit=false; for(Stop*q=stop;q;q=q->up)if(q->pc==S.c.pc&&!S.c.r[4].e&&q->rsp==S.c.r[4].c){ arr.push_back({std::move(s),q->level}); hit=true; break; } if(hit)break; }
   const Insn*in=img.at(S.c.pc); 
   try { if(!in){ throw Fault{S.c.pc,false}; }
     auto hk=hooks.find(S.c.pc); n_instr++; S.ni++; if(S.ni>opt_pathinstr){ inconclusive("per-path instruction limit"); violation(S,S.model,"no-termination",0); end_cnt["path-limit"]++; break; }
     if(opt_trace)fprintf(stderr,"%llx %s  [%s]\n",(unsigned long long)S.c.pc,in->text.c_str(),img.func(S.c.pc).c_str());
     if(hk!=hooks.end()){ hook(S,hk->second); continue; }
     if(!S.th.empty()){ maybe_sched(S,*in); S.justsched=false; S.segn++; }
     step(S,*in); }
   catch(EndPath&){ break; }
   catch(Sched&){ if(S.th.empty()){inconclusive("scheduler without threads");break;} thread_fork(s,wl); break; }
   catch(Fault&f){ try { abnormal(S,f.w?"memory-fault-write":"memory-fault-read"); } catch(EndPath&){} break; }
   catch(Unsup&u){ inconclusive("unsupported: "+u.s+" at "+img.where(S.c.pc)); end_cnt["unsupported"]++; break; }
   catch(NeedFork&nf){ if(S.segn)S.segn--; enumerate(s,nf.e,wl); break; }
   catch(ForkVals&fv){ for(u64 v:fv.vals){ SP n(new State(S)); if(fv.v.e){ auto m=std::make_shared<Model>(); m->val=S.model->val; m->val.resize(var_names.size(),0); 
        // the variable is fresh: value v-lo
        n->c.r[0]=V(v); V e=eq(fv.v,V(v),64); u32 vi=var_names.size()-1; const Node*x=var_nodes[vi]; u64 lo=fv.vals[0]; m->val[vi]=(v-lo)&mask(x->w); n->model=m; assume(*n,e); } else n->c.r[0]=V(v); wl.push_back(std::move(n)); } break; }
   catch(SymBranch&b){ SP t,f; u64 pc=S.c.pc; u64 rsp=S.c.r[4].c; split(S,b.c,t,f); 
     if(b.t==(u64)-1||b.t==(u64)-2){ if(t){ try{ abnormal(*t,b.t==(u64)-1?"divide-error":"divide-overflow"); }catch(EndPath&){} } if(!f)break; s=std::move(f); if(s->segn)s->segn--; continue; }
     if(t)t->c.pc=b.t; if(f)f->c.pc=b.f; if(!t||!f){ s=std::move(t?t:f); continue; }
     if(S.merge&&S.th.empty()&&depth<2000){ u64 ip=ipdom_of(img,pc); if(ip){ Stop ns{ip,rsp,(stop?stop->level:0)+1,stop}; Arr a; 
         if(b.t==ip&&b.f==ip){ wl.push_back(std::move(t)); wl.push_back(std::move(f)); break; }
         s.reset(); if(t->c.pc==ip)a.push_back({std::move(t),ns.level}); else run(std::move(t),&ns,a); if(f->c.pc==ip)a.push_back({std::move(f),ns.level}); else run(std::move(f),&ns,a);
         std::vector<SP> here; for(auto&x:a){ if(x.second==ns.level){ bool m=false; for(auto&h:here){ if(try_merge(*h,*x.first)){m=true;break;} else n_mergefail++; } if(!m)here.push_back(std::move(x.first)); } else arr.push_back(std::move(x)); }
         for(auto&h:here){ // an outer stop may coincide with this point
            bool hit=false; for(Stop*q=stop;q;q=q->up)if(q->pc==h->c.pc&&q->rsp==h->c.r[4].c){ arr.push_back({std::move(h),q->level}); hit=true; break; } if(!hit)wl.push_back(std::move(h)); }
         break; } }
     wl.push_back(std::move(f)); s=std::move(t); cnt=0; continue; }
  } }
 if(!wl.empty()&&!opt_done)inconclusive("unexplored paths"); depth--; }
static std::string jstr(const std::string&s){ std::string o="\""; for(char ch:s){ unsigned char c=ch; if(c=='"'||c=='\\'){o+='\\';o+=ch;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=ch; } return o+"\""; }
static std::string hex(const std::vector<u8>&v){ std::string o; char b[4]; for(u8 x:v){snprintf(b,4,"%02x",x);o+=b;} return o; }
static std::string jouts(const std::vector<u64>&v){ std::string o="["; for(size_t i=0;i<v.size();i++){ if(i)o+=","; o+="\""+std::to_string(v[i])+"\""; } return o+"]"; }
int main(int argc,char**argv){ const char*elf=0; std::vector<std::string> stubs; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return argv[++i]; }; if(a=="--case")opt_kase=strtoull(nx(),0,0); else if(a=="--time")opt_time=atof(nx()); else if(a=="--maxpaths")opt_maxpaths=atoll(nx()); else if(a=="--maxinstr")opt_maxinstr=atoll(nx()); else if(a=="--pathinstr")opt_pathinstr=atoll(nx()); else if(a=="--solver-ms")solver_timeout_ms=atoi(nx()); else if(a=="--witness")opt_witness=atoi(nx()); else if(a=="--trace")opt_trace=true; else if(a=="-v")opt_verbose=true; else if(a=="--preempt")opt_preempt=atoi(nx()); else if(a=="--maxviol")opt_maxviol=atoi(nx()); else if(a=="--maxenum")opt_maxenum=atoll(nx()); else if(a=="--mem")opt_mem=strtoull(nx(),0,0); else if(a=="--mux")opt_mux=atoll(nx()); else if(a=="--stub")stubs.push_back(nx()); else if(a=="--seed")srand(atoi(nx())); else if(a=="--replay"){ FILE*f=fopen(nx(),"rb"); if(!f)return 3; int c; while((c=fgetc(f))!=EOF)opt_replay.push_back(c); fclose(f); opt_isreplay=true; for(int k=0;k<8&&k<(int)opt_replay.size();k++)opt_kase|=(u64)opt_replay[k]<<(8*k); } else elf=argv[i]; }
 if(!elf)return 3; struct rlimit rl={opt_mem<<20,opt_mem<<20}; setrlimit(RLIMIT_AS,&rl); 
 t_start=now(); if(!load_image(elf,img)){ fprintf(stderr,"cannot load %s\n",elf); return 3; }
 static const std::pair<const char*,Hk> hs[]={{"u64",H_U64},{"u32",H_U32},{"u16",H_U16},{"u8",H_U8},{"bytes",H_BYTES},{"range",H_RANGE},{"pick",H_PICK},{"assume",H_ASSUME},{"check",H_CHECK},{"reach",H_REACH},{"out",H_OUT},{"conc",H_CONC},{"merge",H_MERGE},{"expabort",H_EXPAB},{"kase",H_KASE},{"eqmem",H_EQMEM},{"done",H_DONE},{"yield",H_YIELD},{"shared",H_SHARED},{"issym",H_ISSYM},{"ite",H_ITE},{"join",H_JOIN},{"tid",H_TID},{"dbg",H_DBG}};
 for(auto&h:hs){ auto it=img.byname.find(std::string("vsym$")+h.first); if(it!=img.byname.end())hooks[it->second]=h.second; }
 SP s(new State); for(auto&g:img.segs){ u64 b=g.va&~0xfffull,e=(g.va+g.d.size()+0xfff)&~0xfffull; for(u64 x=b;x<e;x+=4096)if(!s->m.rd(x))s->m.map(x,4096); for(size_t i=0;i<g.d.size();i++){ s->m.wr(g.va+i)->d[(g.va+i)&4095]=g.d[i]; } if(!g.w)for(u64 x=b;x<e;x+=4096){ Page*p=s->m.wr(x); p->w=false; } } for(auto&g:img.segs)if(g.w)for(u64 x=g.va&~0xfffull;x<g.va+g.d.size();x+=4096)s->m.wr(x)->w=true;
 // stack: argc=1, argv[0]="h", envp empty, auxv end
 u64 top=0x3ffff000; s->m.map(top-0x800000,0x800000); u64 sp=top-256; s->m.store(top-64,V((u64)'h'),2); s->m.store(sp,V((u64)1),8); s->m.store(sp+8,V(top-64),8); for(int i=2;i<10;i++)s->m.store(sp+8*i,V((u64)0),8); s->c.r[4]=V(sp); for(int i=0;i<16;i++)if(i!=4)s->c.r[i]=V((u64)0); s->c.pc=img.entry; s->model=std::make_shared<Model>(); s->expab=V((u64)0);
 Arr arr; run(std::move(s),0,arr);
 double el=now()-t_start; struct rusage ru; getrusage(RUSAGE_SELF,&ru);
 printf("{\"paths\":%llu,\"instrs\":%llu,\"forks\":%llu,\"merges\":%llu,\"mergefail\":%llu,\"checks\":%llu,\"checks_trivial\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"table_queries\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"nodes\":%llu,\"vars\":%zu,\"max_pc\":%d,\"rss_mb\":%ld,\"sched_points\":%llu,\"reached\":%llu,",(unsigned long long)n_paths,(unsigned long long)n_instr,(unsigned long long)n_forks,(unsigned long long)n_merges,(unsigned long long)n_mergefail,(unsigned long long)n_checks,(unsigned long long)n_trivial,(unsigned long long)n_queries,(unsigned long long)n_cache,(unsigned long long)n_table,(unsigned long long)n_unknown,solver_time,max_query_s,el,(unsigned long long)node_count(),var_names.size(),max_pc,ru.ru_maxrss/1024,(unsigned long long)n_sched_states,(unsigned long long)reached_mask);
 printf("\"check_ids\":{"); bool first=true; for(auto&p:check_cnt){printf("%s\"%d\":%llu",first?"":",",p.first,(unsigned long long)p.second);first=false;} printf("},\"ends\":{"); first=true; for(auto&p:end_cnt){printf("%s%s:%llu",first?"":",",jstr(p.first).c_str(),(unsigned long long)p.second);first=false;}
 printf("},\"inconclusive\":{"); first=true; for(auto&p:incon){printf("%s%s:%d",first?"":",",jstr(p.first).c_str(),p.second);first=false;} printf("},\"violations\":["); first=true; for(auto&v:viols){ std::string sc="["; for(size_t i=0;i<v.sched.size();i++){ if(i)sc+=","; sc+=std::to_string(v.sched[i]); } sc+="]"; printf("%s{\"kind\":%s,\"id\":%d,\"where\":%s,\"input\":\"%s\",\"outs\":%s,\"text\":%s,\"sched\":%s}",first?"":",",jstr(v.kind).c_str(),v.id,jstr(v.where).c_str(),hex(v.input).c_str(),jouts(v.outs).c_str(),jstr(v.text).c_str(),sc.c_str());first=false;}
 printf("],\"witnesses\":["); first=true; for(auto&w:wits){ std::string sc="["; for(size_t i=0;i<w.sched.size();i++){ if(i)sc+=","; sc+=std::to_string(w.sched[i]); } sc+="]"; printf("%s{\"input\":\"%s\",\"outs\":%s,\"end\":%s,\"sched\":%s}",first?"":",",hex(w.input).c_str(),jouts(w.outs).c_str(),jstr(w.end).c_str(),sc.c_str());first=false;} printf("],\"functions\":["); first=true; for(auto&f:funcs_seen){ if(f.compare(0,5,"vsym$")==0||f.compare(0,6,"_vsym$")==0)continue; printf("%s%s",first?"":",",jstr(f).c_str());first=false;} printf("]}\n"); fflush(stdout); _exit(0); }
