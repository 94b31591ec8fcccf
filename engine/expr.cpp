#include "expr.h"
#include <cmath>
#include <cfenv>
const char*opname[]={"const","var","add","mulc","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","concat","extract","sext","ite","eq","ult","slt","umulh","smulh","fadd","fsub","fmul","fdiv","fsqrt","feq","flt","funord","fma","si2f","f2si","f2sir","f2f","fround"};
std::vector<std::string> var_names; std::vector<const Node*> var_nodes; std::vector<std::vector<u32>> vsets(1);
static std::map<std::vector<u32>,u32> vset_ids={{std::vector<u32>(),0}}; static std::unordered_map<u64,u32> vunion;
static u32 nid=0;
static std::vector<const Node*> table(1<<16,nullptr); static size_t tcount=0;
u64 node_count(){return nid;}
static inline u64 hmix(u64 h,u64 x){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }
static u64 hnode(Op op,int w,u64 imm,const Node*const*a,int n){ u64 h=hmix(op*67+w,imm); for(int i=0;i<n;i++)h=hmix(h,a[i]->id+1); return h; }
static u32 vs_intern(std::vector<u32>&&v){ auto it=vset_ids.find(v); if(it!=vset_ids.end())return it->second; u32 id=vsets.size(); vsets.push_back(v); vset_ids[v]=id; return id; }
static u32 vs_union(u32 a,u32 b){ if(a==b||!b)return a; if(!a)return b; if(a>b)std::swap(a,b); u64 k=((u64)a<<32)|b; auto it=vunion.find(k); if(it!=vunion.end())return it->second;
  std::vector<u32> r; std::set_union(vsets[a].begin(),vsets[a].end(),vsets[b].begin(),vsets[b].end(),std::back_inserter(r)); u32 id=vs_intern(std::move(r)); vunion[k]=id; return id; }
static char*arena=0; static size_t aleft=0;
static void*aalloc(size_t n){ n=(n+15)&~15ull; if(aleft<n){ size_t sz=1<<20; if(n>sz)sz=n; arena=(char*)malloc(sz); if(!arena){fprintf(stderr,"oom\n");exit(3);} aleft=sz; } void*p=arena; arena+=n; aleft-=n; return p; }
static int topbit(u64 x){ return x?63-__builtin_clzll(x):-1; }
static void facts(Node*e){ u64 m=mask(e->w); u64 kz=0,ko=0,lo=0,hi=m; auto A=[&](int i){return e->a[i];};
  switch(e->op){
  case CONST: kz=~e->imm&m; ko=e->imm; lo=hi=e->imm; break;
  case VAR: break;
  case ADD:{ u128 sl=e->imm,sh=e->imm; int tz=e->imm?__builtin_ctzll(e->imm):64; for(int i=0;i<e->n;i++){sl+=A(i)->umin; sh+=A(i)->umax; u64 k=A(i)->kz; int t=(~k)?__builtin_ctzll(~k):64; if(t>A(i)->w)t=A(i)->w; if(t<tz)tz=t;}
     if(sh<=m){lo=sl;hi=sh;} else if((sl>>e->w)==(sh>>e->w)){lo=(u64)sl&m;hi=(u64)sh&m;} if(tz>e->w)tz=e->w; kz=mask(tz)&m; break; }
  case MULC:{ u128 sh=(u128)A(0)->umax*e->imm; if(sh<=m){lo=A(0)->umin*e->imm;hi=sh;} u64 k=A(0)->kz; int t=(~k)?__builtin_ctzll(~k):64; t+=e->imm?__builtin_ctzll(e->imm):0; if(t>e->w)t=e->w; kz=mask(t)&m; break;}
  case MUL:{ u128 sh=(u128)A(0)->umax*A(1)->umax; if(sh<=m){lo=A(0)->umin*A(1)->umin;hi=sh;} int t=0; for(int i=0;i<2;i++){u64 k=A(i)->kz; t+=(~k)?__builtin_ctzll(~k):64;} if(t>e->w)t=e->w; kz=mask(t)&m; break;}
  case UDIV: if(A(1)->umin){ hi=A(0)->umax/A(1)->umin; lo=A(0)->umin/A(1)->umax; } break;
  case UREM: if(A(1)->umin) hi=std::min(A(0)->umax,A(1)->umax-1); break;
  case AND: kz=0;ko=m; for(int i=0;i<e->n;i++){kz|=A(i)->kz;ko&=A(i)->ko;} kz|=~e->imm&m; ko&=e->imm; hi=e->imm; for(int i=0;i<e->n;i++)hi=std::min(hi,A(i)->umax); break;
  case OR: kz=m;ko=0; for(int i=0;i<e->n;i++){kz&=A(i)->kz;ko|=A(i)->ko; lo=std::max(lo,A(i)->umin);} kz&=~e->imm; ko|=e->imm; lo=std::max(lo,e->imm); break;
  case XOR:{ kz=~e->imm&m; ko=e->imm; for(int i=0;i<e->n;i++){ u64 k=(A(i)->kz|A(i)->ko)&(kz|ko); u64 v=(A(i)->ko^ko)&k; ko=v; kz=k&~v; } break;}
  case SHL: break; 
  case LSHR: hi=A(0)->umax; { int t=topbit(~A(0)->kz&m); if(t<63) kz=m&~mask(t+1);} break;
  case ASHR: if(A(0)->kz>>(e->w-1)&1){ hi=A(0)->umax; int t=topbit(~A(0)->kz&m); if(t<63)kz=m&~mask(t+1);} break;
  case CONCAT:{ lo=hi=0; for(int i=0;i<e->n;i++){ const Node*x=A(i); if(x->w==64){kz=x->kz;ko=x->ko;lo=x->umin;hi=x->umax;} else {kz=(kz<<x->w)|x->kz; ko=(ko<<x->w)|x->ko; lo=(lo<<x->w)|x->umin; hi=(hi<<x->w)|x->umax;} } break;}
  case EXTRACT: kz=(A(0)->kz>>e->imm)&m; ko=(A(0)->ko>>e->imm)&m; { if(e->imm+e->w>=A(0)->w || (A(0)->umax>>(e->imm+e->w))==0){ lo=A(0)->umin>>e->imm; hi=A(0)->umax>>e->imm; } } break;
  case SEXT:{ int w0=A(0)->w; u64 sb=1ull<<(w0-1); kz=A(0)->kz; ko=A(0)->ko; if(kz&sb){kz|=m&~mask(w0);} else kz&=~sb; if(ko&sb)ko|=m&~mask(w0); else ko&=~sb; if(kz&sb){lo=A(0)->umin;hi=A(0)->umax;} break;}
  case ITE: kz=A(1)->kz&A(2)->kz; ko=A(1)->ko&A(2)->ko; lo=std::min(A(1)->umin,A(2)->umin); hi=std::max(A(1)->umax,A(2)->umax); break;
  case UMULH: { u128 sh=(u128)A(0)->umax*A(1)->umax; hi=sh>>64; lo=((u128)A(0)->umin*A(1)->umin)>>64; break; }
  default: break; }
  // combine
  if(lo<ko)lo=ko; if(hi>(m&~kz))hi=m&~kz;
  if(lo>hi){ lo=ko; hi=m&~kz; if(lo>hi){lo=0;hi=m;} }
  // common high bits of lo/hi are known
  u64 d=lo^hi; int t=topbit(d); u64 known = t>=63?0:(m&~mask(t+1)); kz|=known&~lo; ko|=known&lo;
  e->kz=kz&m; e->ko=ko&m; e->umin=lo; e->umax=hi; }
const Node*mknode(Op op,int w,u64 imm,const Node*const*a,int n){
  u64 h=hnode(op,w,imm,a,n); size_t m=table.size()-1; size_t i=h&m;
  while(table[i]){ const Node*e=table[i]; if(e->op==op&&e->w==w&&e->imm==imm&&e->n==n&&!memcmp(e->a,a,n*sizeof(Node*)))return e; i=(i+1)&m; }
  Node*e=(Node*)aalloc(sizeof(Node)+n*sizeof(Node*)); e->op=op;e->w=w;e->n=n;e->d=0;e->id=nid++; { int d=0; for(int k=0;k<n;k++)d=std::max(d,(int)a[k]->d); if(d<255&&(op==ADD||op==XOR||op==MUL||op==MULC||op==AND||op==OR)&&(n>1||op==MULC))d++; e->d=d; }e->imm=imm; memcpy((void*)e->a,a,n*sizeof(Node*));
  u32 vs=0; for(int k=0;k<n;k++)vs=vs_union(vs,a[k]->vset); if(op==VAR)vs=vs_intern({(u32)imm}); e->vset=vs;
  facts(e);
  if(op!=CONST && op!=VAR && (e->kz|e->ko)==mask(w)){ // fully known: a constant in disguise
    const Node*c=mknode(CONST,w,e->ko,0,0); return c; }
  table[i]=e; tcount++;
  if(tcount*2>table.size()){ std::vector<const Node*> o; o.swap(table); table.assign(o.size()*2,nullptr); size_t mm=table.size()-1; for(auto x:o)if(x){ size_t j=hnode(x->op,x->w,x->imm,x->a,x->n)&mm; while(table[j])j=(j+1)&mm; table[j]=x; } }
  return e; }
const Node*N(V v,int w){ if(v.e){ if(v.e->w!=w){fprintf(stderr,"width mismatch: have %d want %d: %s\n",v.e->w,w,show(v.e).c_str());abort();} return v.e; } return mknode(CONST,w,v.c&mask(w),0,0); }
V mkvar(const std::string&name,int w,u32&idx){ idx=var_names.size(); var_names.push_back(name); const Node*n=mknode(VAR,w,idx,0,0); var_nodes.push_back(n); return V(n); }
u64 kz_of(V v,int w){ return v.e?v.e->kz:(~v.c&mask(w)); }
static u64 ko_of(V v,int w){ return v.e?v.e->ko:v.c; }
void range_of(V v,int w,u64&lo,u64&hi){ if(v.e){lo=v.e->umin;hi=v.e->umax;} else lo=hi=v.c; }
std::string show(const Node*e,int d){ char b[64]; if(e->op==CONST){snprintf(b,64,"0x%llx",(unsigned long long)e->imm);return b;} if(e->op==VAR)return var_names[e->imm]; if(d<=0){snprintf(b,64,"#%u",e->id);return b;}
  std::string s="("; s+=opname[e->op]; snprintf(b,64,":%d",e->w); s+=b; if(e->imm){snprintf(b,64,"{0x%llx}",(unsigned long long)e->imm);s+=b;} for(int i=0;i<e->n;i++)s+=" "+show(e->a[i],d-1); return s+")"; }
// ---------- linear combinations
struct Lin { std::vector<std::pair<const Node*,u64>> t; u64 k=0; };
static void lin_add1(Lin&l,const Node*x,u64 c,int w){ for(auto&p:l.t)if(p.first==x){p.second=(p.second+c)&mask(w);return;} l.t.push_back({x,c&mask(w)}); }
static bool asShl(const Node*e,const Node*&x,int&k){ // e == x << k
  if(e->op!=CONCAT)return false; const Node*z=e->a[e->n-1]; if(z->op!=CONST||z->imm!=0)return false; k=z->w; int w=e->w;
  if(e->n==2){ const Node*h=e->a[0]; if(h->op==EXTRACT&&h->imm==0&&h->a[0]->w==w){x=h->a[0];return true;} 
     if(h->op==EXTRACT&&h->imm==0){return false;} return false; }
  if(e->n==3 && e->a[0]->op==CONST && e->a[0]->imm==0){ const Node*y=e->a[1]; V zx=zext(V(y),y->w,w); if(!zx.e)return false; x=zx.e; return true; }
  return false; }
static void lin_collect(Lin&l,V v,u64 c,int w){ if(!v.e){l.k=(l.k+v.c*c)&mask(w);return;} const Node*e=v.e; const Node*x;int k;
  if(e->op==ADD && (int)e->n<=16){ l.k=(l.k+e->imm*c)&mask(w); for(int i=0;i<e->n;i++)lin_collect(l,V(e->a[i]),c,w); return; }
  if(e->op==MULC){ lin_collect(l,V(e->a[0]),c*e->imm,w); return; }
  if(e->op==XOR && e->n==1 && e->imm==mask(w) && w>1){ l.k=(l.k-c)&mask(w); lin_collect(l,V(e->a[0]),(u64)0-c,w); return; } // ~x = -x-1
  if(w>1 && asShl(e,x,k)){ lin_add1(l,x,c<<k,w); return; }
  lin_add1(l,e,c,w); }
static V shlc(V a,int k,int w);
static V lin_build(Lin&l,int w){ std::vector<const Node*> a; for(auto&p:l.t){ u64 c=p.second&mask(w); if(!c)continue; V t; if(c==1)t=V(p.first); else if((c&(c-1))==0) t=shlc(V(p.first),__builtin_ctzll(c),w); else { const Node*x=p.first; t=V(mknode(MULC,w,c,&x,1)); }
    if(!t.e){ l.k=(l.k+t.c)&mask(w); } else a.push_back(t.e); }
  u64 k=l.k&mask(w); if(a.empty())return V(k); if(a.size()==1&&k==0)return V(a[0]);
  if(a.size()==1 && k==mask(w)){ const Node*x=a[0]; if(x->op==MULC && x->imm==mask(w)) return not_(V(x->a[0]),w); } // -x-1 = ~x
  std::sort(a.begin(),a.end(),[](const Node*x,const Node*y){return x->id<y->id;});
  return V(mknode(ADD,w,k,a.data(),a.size())); }
V add(V a,V b,int w){ if(!a.e&&!b.e)return V((a.c+b.c)&mask(w)); if(!a.e&&a.c==0)return b; if(!b.e&&b.c==0)return a; if(w==1)return xor_(a,b,1);
  if(a.e&&b.e&&a.e->op!=ADD&&a.e->op!=MULC&&b.e->op!=ADD&&b.e->op!=MULC){ // common selectors
    if(a.e->op==ITE&&b.e->op==ITE&&a.e->a[0]==b.e->a[0]) return ite(V(a.e->a[0]),add(V(a.e->a[1]),V(b.e->a[1]),w),add(V(a.e->a[2]),V(b.e->a[2]),w),w); }
  if(!b.e && a.e->op==ITE && (a.e->a[1]->op==CONST||a.e->a[2]->op==CONST)) return ite(V(a.e->a[0]),add(V(a.e->a[1]),b,w),add(V(a.e->a[2]),b,w),w);
  if(!a.e && b.e->op==ITE && (b.e->a[1]->op==CONST||b.e->a[2]->op==CONST)) return ite(V(b.e->a[0]),add(a,V(b.e->a[1]),w),add(a,V(b.e->a[2]),w),w);
  Lin l; lin_collect(l,a,1,w); lin_collect(l,b,1,w); return lin_build(l,w); }
V sub(V a,V b,int w){ if(!a.e&&!b.e)return V((a.c-b.c)&mask(w)); if(w==1)return xor_(a,b,1); if(!b.e)return add(a,V((0-b.c)&mask(w)),w); Lin l; lin_collect(l,a,1,w); lin_collect(l,b,mask(w),w); return lin_build(l,w); }
V neg(V a,int w){ return sub(V((u64)0),a,w); }
V mulc(V a,u64 c,int w){ c&=mask(w); if(!a.e)return V((a.c*c)&mask(w)); if(c==0)return V((u64)0); if(c==1)return a; if(a.e->op==ITE&&a.e->a[1]->op==CONST&&a.e->a[2]->op==CONST)return ite(V(a.e->a[0]),V((a.e->a[1]->imm*c)&mask(w)),V((a.e->a[2]->imm*c)&mask(w)),w); Lin l; lin_collect(l,a,c,w); return lin_build(l,w); }
V mul(V a,V b,int w){ if(!a.e)return mulc(b,a.c,w); if(!b.e)return mulc(a,b.c,w); if(w==1)return and_(a,b,1);
  // pull constant multipliers out
  u64 c=1; const Node*x=a.e,*y=b.e; const Node*t; int k;
  if(x->op==MULC){c*=x->imm;x=x->a[0];} else if(asShl(x,t,k)){c<<=k;x=t;} if(y->op==MULC){c*=y->imm;y=y->a[0];} else if(asShl(y,t,k)){c<<=k;y=t;}
  if(x->id>y->id)std::swap(x,y); const Node*aa[2]={x,y}; V r(mknode(MUL,w,0,aa,2)); return c==1?r:mulc(r,c,w); }
// ---------- concat / extract
static const int DEEP=6; // arithmetic nested deeper than this is cut and spliced opaquely
static V glue(const Node*l,const Node*x,int depth){ // l:x as one term over the same base, or nothing
  if(l->w+x->w>64)return V((u64)0);
  const Node*lb=l,*xb=x; int llo=0,xlo=0; if(l->op==EXTRACT){lb=l->a[0];llo=l->imm;} if(x->op==EXTRACT){xb=x->a[0];xlo=x->imm;}
  if(lb==xb&&llo==xlo+x->w)return extract(V(lb),llo+l->w-1,xlo,lb->w);
  if(l->op==EXTRACT&&llo==x->w&&x->d&&lb->op==ADD&&lb->d==x->d){ V y=extract(V(lb),x->w-1,0,lb->w); if(y.e==x)return extract(V(lb),llo+l->w-1,0,lb->w); }
  if(depth<2&&(l->op==XOR||x->op==XOR)){ const Node*la[1]={l},*xa[1]={x}; const Node*const*lp=la,*const*xp=xa; int ln=1,xn=1; u64 li=0,xi=0;
    if(l->op==XOR){lp=l->a;ln=l->n;li=l->imm;} if(x->op==XOR){xp=x->a;xn=x->n;xi=x->imm;} if(ln!=xn||ln>12)return V((u64)0);
    V r((li<<x->w)|xi); bool used[16]={}; std::vector<V> m; for(int i=0;i<ln;i++){ bool ok=false; for(int j=0;j<xn&&!ok;j++)if(!used[j]){ V g=glue(lp[i],xp[j],depth+1); if(g.e){used[j]=true;ok=true;m.push_back(g);} } if(!ok)return V((u64)0); }
    for(auto&g:m)r=xor_(r,g,l->w+x->w); return r; }
  return V((u64)0); }
static void cc_push(std::vector<const Node*>&p,const Node*x){ // append piece (towards LSB) with merging
  if(x->op==CONCAT){ for(int i=0;i<x->n;i++)cc_push(p,x->a[i]); return; }
  if(!p.empty()){ const Node*l=p.back(); if(l->w+x->w<=64){
     if(l->op==CONST&&x->op==CONST){ p.back()=mknode(CONST,l->w+x->w,(l->imm<<x->w)|x->imm,0,0); return; }
     { V g=glue(l,x,0); if(g.e){ int w=l->w+x->w; p.pop_back(); cc_push(p,N(g,w)); return; } }
     // merge of pushed-in extracts: sign bits
     } }
  p.push_back(x); }
static V cc_build(std::vector<const Node*>&p){ int w=0; for(auto x:p)w+=x->w; if(p.size()==1)return V(p[0]); return V(mknode(CONCAT,w,0,p.data(),p.size())); }
V concat(V hi,int wh,V lo,int wl){ if(!hi.e&&!lo.e)return V((hi.c<<wl)|lo.c); std::vector<const Node*> p; cc_push(p,N(hi,wh)); cc_push(p,N(lo,wl)); return cc_build(p); }
V zext(V a,int from,int to){ if(!a.e||from==to)return a; return concat(V((u64)0),to-from,a,from); }
V sext(V a,int from,int to){ if(from==to)return a; if(!a.e)return V((u64)sx(a.c,from)&mask(to)); u64 sb=1ull<<(from-1); if(a.e->kz&sb)return zext(a,from,to);
  if(a.e->op==SEXT){const Node*x=a.e->a[0];return V(mknode(SEXT,to,0,&x,1));}
  if(a.e->op==ITE&&(a.e->a[1]->op==CONST&&a.e->a[2]->op==CONST))return ite(V(a.e->a[0]),sext(V(a.e->a[1]),from,to),sext(V(a.e->a[2]),from,to),to);
  const Node*x=a.e; return V(mknode(SEXT,to,0,&x,1)); }
// every operand splits at bit k without cutting arithmetic
static bool lowcut(const Node*e,int k){ for(int i=0;i<e->n;i++){ const Node*x=e->a[i]; if(x->op==CONST||x->op==VAR)continue; if(x->op!=CONCAT)return false; int b=0,j=x->n-1; while(b<k)b+=x->a[j--]->w; if(b!=k)return false; } return true; }
V extract(V a,int hi,int lo,int w){ int nw=hi-lo+1; if(!a.e)return V((a.c>>lo)&mask(nw)); const Node*e=a.e; if(nw==w)return a;
  { u64 m=mask(nw); if((((e->kz|e->ko)>>lo)&m)==m) return V((e->ko>>lo)&m); }
  switch(e->op){
  case EXTRACT: return extract(V(e->a[0]),hi+e->imm,lo+e->imm,e->a[0]->w);
  case CONCAT:{ std::vector<const Node*> p; int pos=w; for(int i=0;i<e->n;i++){ const Node*x=e->a[i]; int top=pos-1,bot=pos-x->w; pos=bot; int h=std::min(top,hi),l=std::max(bot,lo); if(h<l)continue; cc_push(p,N(extract(V(x),h-bot,l-bot,x->w),h-l+1)); } return cc_build(p); }
  case SEXT:{ const Node*x=e->a[0]; if(hi<x->w)return extract(V(x),hi,lo,x->w); if(lo<x->w){ V y=extract(V(x),x->w-1,lo,x->w); return sext(y,x->w-lo,nw);} V s=extract(V(x),x->w-1,x->w-1,x->w); return sext(s,1,nw); }
  case ITE: if(e->a[1]->op==CONST||e->a[2]->op==CONST||e->a[1]->op==CONCAT||e->a[2]->op==CONCAT||nw==1||lo==0) return ite(V(e->a[0]),extract(V(e->a[1]),hi,lo,w),extract(V(e->a[2]),hi,lo,w),nw); break;
  case AND: case OR: case XOR: { bool go=lo==0||e->op==XOR||e->imm!=0&&e->op!=AND||(e->op==AND&&e->imm!=mask(w)); for(int i=0;i<e->n;i++)if(e->a[i]->op==CONCAT||e->a[i]->op==SEXT)go=true; if(!go||e->d>DEEP&&(lo||e->op==XOR))break; 
     V r=e->op==AND?V((e->imm>>lo)&mask(nw)):V((e->imm>>lo)&mask(nw)); for(int i=0;i<e->n;i++){ V x=extract(V(e->a[i]),hi,lo,w); r=e->op==AND?and_(r,x,nw):e->op==OR?or_(r,x,nw):xor_(r,x,nw);} return r; }
  case ADD: if(lo==0&&(e->d<=DEEP||lowcut(e,nw))){ Lin l; l.k=e->imm&mask(nw); for(int i=0;i<e->n;i++)lin_collect(l,extract(V(e->a[i]),hi,0,w),1,nw); return lin_build(l,nw);} break;
  case MULC: if(lo==0) return mulc(extract(V(e->a[0]),hi,0,w),e->imm,nw); break;
  case MUL: if(lo==0) return mul(extract(V(e->a[0]),hi,0,w),extract(V(e->a[1]),hi,0,w),nw); break;
  case SHL: if(lo==0 && (e->a[1]->umax<(u64)nw)) return shl(extract(V(e->a[0]),hi,0,w),extract(V(e->a[1]),hi,0,w),nw); break;
  case UDIV: case UREM: if(lo==0){ // narrow when operands fit
      u64 m=mask(nw); if(e->a[0]->umax<=m&&e->a[1]->umax<=m){ V x=extract(V(e->a[0]),hi,0,w),y=extract(V(e->a[1]),hi,0,w); return e->op==UDIV?udiv_(x,y,nw):urem_(x,y,nw);} } break;
  default: break; }
  const Node*x=e; return V(mknode(EXTRACT,nw,lo,&x,1)); }
// ---------- piecewise helper for bitwise ops
static bool cutpoints(const Node*a,const Node*b,std::vector<int>&cuts,bool&useful){ // from 0..w ; cut positions ascending
  std::set<int> s; int w=a->w; s.insert(0); s.insert(w); auto go=[&](const Node*e){ if(e->op==CONCAT){int pos=w; for(int i=0;i<e->n;i++){pos-=e->a[i]->w; s.insert(pos); if(e->a[i]->op==CONST)useful=true;}} else if(e->op==SEXT&&0)s.insert(e->a[0]->w); };
  go(a); go(b); cuts.assign(s.begin(),s.end()); return cuts.size()>2; }
static V piecewise(Op op,const Node*a,const Node*b){ std::vector<int> cuts; bool useful=false; cutpoints(a,b,cuts,useful); int w=a->w; std::vector<const Node*> p;
  for(int i=cuts.size()-2;i>=0;i--){ int lo=cuts[i],hi=cuts[i+1]-1,nw=hi-lo+1; V x=extract(V(a),hi,lo,w),y=extract(V(b),hi,lo,w); V r=op==AND?and_(x,y,nw):op==OR?or_(x,y,nw):xor_(x,y,nw); cc_push(p,N(r,nw)); } return cc_build(p); }
static int runs(u64 m,int w){ int r=0; int prev=-1; for(int i=0;i<w;i++){int b=m>>i&1; if(b!=prev){r++;prev=b;}} return r; }
static V nary(Op op,int w,u64 imm,std::vector<const Node*>&a){ u64 M=mask(w);
  std::sort(a.begin(),a.end(),[](const Node*x,const Node*y){return x->id<y->id;});
  if(op==XOR){ std::vector<const Node*> r; for(size_t i=0;i<a.size();){ if(i+1<a.size()&&a[i]==a[i+1])i+=2; else r.push_back(a[i++]); } a=r; if(a.empty())return V(imm); if(a.size()==1&&imm==0)return V(a[0]); }
  else { a.erase(std::unique(a.begin(),a.end()),a.end()); u64 ident=op==AND?M:0; u64 absorb=op==AND?0:M; if(imm==absorb)return V(absorb); if(a.empty())return V(imm); if(a.size()==1&&imm==ident)return V(a[0]);
    for(auto x:a) if(x->op==XOR&&x->imm==M&&x->n==1){ if(std::binary_search(a.begin(),a.end(),x->a[0],[](const Node*p,const Node*q){return p->id<q->id;}))return V(absorb); } }
  return V(mknode(op,w,imm,a.data(),a.size())); }
static void flat(Op op,V v,u64&imm,std::vector<const Node*>&a){ if(!v.e){ if(op==AND)imm&=v.c; else if(op==OR)imm|=v.c; else imm^=v.c; return; } if(v.e->op==op&&v.e->n<=12){ flat(op,V(v.e->imm),imm,a); for(int i=0;i<v.e->n;i++)a.push_back(v.e->a[i]); } else a.push_back(v.e); }
static V bo(Op op,V a,V b,int w){ return op==AND?and_(a,b,w):op==OR?or_(a,b,w):xor_(a,b,w); }
static V bitop(Op op,V a,V b,int w){ u64 M=mask(w);
  if(a.e&&b.e){ bool cu=false; std::vector<int> cuts; if(w>1&&(a.e->op==CONCAT||b.e->op==CONCAT)){ cutpoints(a.e,b.e,cuts,cu); if(cu||(a.e->d<=DEEP&&b.e->d<=DEEP&&cuts.size()>2&&a.e->op==CONCAT&&b.e->op==CONCAT))return piecewise(op,a.e,b.e); }
    if(op==OR||op==XOR){ // disjoint: fine, leave
    }
    if(op==AND){ // redundant masks
      if(((~a.e->kz&M)&~b.e->ko)==0)return a; if(((~b.e->kz&M)&~a.e->ko)==0)return b; }
    if(op==OR){ if(((~a.e->kz&M)&~b.e->ko)==0)return b; if(((~b.e->kz&M)&~a.e->ko)==0)return a; }
    if(op!=XOR&&0){} 
    if(a.e->op==ITE&&b.e->op==ITE&&a.e->a[0]==b.e->a[0]&&w>1) return ite(V(a.e->a[0]),bo(op,V(a.e->a[1]),V(b.e->a[1]),w),bo(op,V(a.e->a[2]),V(b.e->a[2]),w),w);
  } else { V s=a.e?a:b; u64 c=a.e?b.c:a.c; 
    if(op==AND){ if(c==0)return V((u64)0); if(((~s.e->kz&M)&~c)==0)return s; if(s.e->op==CONCAT||runs(c|(s.e->kz&0),w)<=3){ // split by runs
        std::vector<const Node*> p; std::set<int> cs; cs.insert(0);cs.insert(w); for(int i=1;i<w;i++)if(((c>>i)&1)!=((c>>(i-1))&1))cs.insert(i); if(cs.size()<=6||s.e->op==CONCAT&&cs.size()<=10){ std::vector<int> cu(cs.begin(),cs.end()); for(int i=cu.size()-2;i>=0;i--){int lo=cu[i],hi=cu[i+1]-1; if((c>>lo)&1)cc_push(p,N(extract(s,hi,lo,w),hi-lo+1)); else cc_push(p,mknode(CONST,hi-lo+1,0,0,0)); } return cc_build(p);} } }
    if(op==OR){ if(c==M)return V(M); if(c==0)return s; if((c&~s.e->ko)==0)return s; if(w>1&&(s.e->op==CONCAT||runs(c,w)<=3)){ std::vector<const Node*> p; std::set<int> cs; cs.insert(0);cs.insert(w); for(int i=1;i<w;i++)if(((c>>i)&1)!=((c>>(i-1))&1))cs.insert(i); if(cs.size()<=6){ std::vector<int> cu(cs.begin(),cs.end()); for(int i=cu.size()-2;i>=0;i--){int lo=cu[i],hi=cu[i+1]-1; if(!((c>>lo)&1))cc_push(p,N(extract(s,hi,lo,w),hi-lo+1)); else cc_push(p,mknode(CONST,hi-lo+1,mask(hi-lo+1),0,0)); } return cc_build(p);} } }
    if(op==XOR){ if(c==0)return s; if(w>1&&s.e->op==CONCAT){ const Node*cn=mknode(CONST,w,c,0,0); return piecewise(XOR,s.e,cn);} }
    if(s.e->op==ITE&&(s.e->a[1]->op==CONST||s.e->a[2]->op==CONST)&&(w>1||(s.e->a[1]->op==CONST&&s.e->a[2]->op==CONST))) return ite(V(s.e->a[0]),bo(op,V(s.e->a[1]),V(c),w),bo(op,V(s.e->a[2]),V(c),w),w);
    if(s.e->op==SEXT&&op!=XOR){ // and/or of sign-ext w/ const
      } }
  u64 imm=op==AND?M:0; std::vector<const Node*> v; flat(op,a,imm,v); flat(op,b,imm,v);
  if(op==XOR&&w>1&&v.size()>2){ std::vector<const Node*> cc,rest; for(auto x:v)(x->op==CONCAT&&x->d<=DEEP?cc:rest).push_back(x); if(cc.size()>1){ V m(cc[0]); for(size_t i=1;i<cc.size();i++){ if(!m.e||m.e->op!=CONCAT){ rest.push_back(cc[i]); continue; } m=piecewise(XOR,m.e,cc[i]); } if(!m.e)imm^=m.c; else if(m.e->op==XOR){ flat(XOR,m,imm,rest); } else rest.push_back(m.e); v=rest; } }
  return nary(op,w,imm,v); }
V and_(V a,V b,int w){ if(!a.e&&!b.e)return V(a.c&b.c); if(a.e==b.e&&a.e)return a; if(!a.e&&a.c==mask(w))return b; if(!b.e&&b.c==mask(w))return a; 
  if(a.e&&b.e){ u64 both=(~a.e->kz)&(~b.e->kz)&mask(w); if(!both)return V((u64)0); }
  return bitop(AND,a,b,w); }
V or_(V a,V b,int w){ if(!a.e&&!b.e)return V(a.c|b.c); if(a.e==b.e&&a.e)return a; if(!a.e&&!a.c)return b; if(!b.e&&!b.c)return a; return bitop(OR,a,b,w); }
V xor_(V a,V b,int w){ if(!a.e&&!b.e)return V(a.c^b.c); if(a.e==b.e&&a.e)return V((u64)0); if(!a.e&&!a.c)return b; if(!b.e&&!b.c)return a; 
  if(w==1&&!b.e&&a.e->op==ITE) return ite(V(a.e->a[0]),not_(V(a.e->a[1]),1),not_(V(a.e->a[2]),1),1);
  return bitop(XOR,a,b,w); }
V not_(V a,int w){ return xor_(a,V(mask(w)),w); }
static V shlc(V a,int k,int w){ if(k==0)return a; if(k>=w)return V((u64)0); if(!a.e)return V((a.c<<k)&mask(w)); return concat(extract(a,w-k-1,0,w),w-k,V((u64)0),k); }
V shl(V a,V b,int w){ if(!b.e){ return b.c>=(u64)w?V((u64)0):shlc(a,b.c,w);} if(!a.e&&a.c==0)return a; if(b.e->umin>=(u64)w)return V((u64)0); const Node*x[2]={N(a,w),N(b,w)}; return V(mknode(SHL,w,0,x,2)); }
V lshr(V a,V b,int w){ if(!b.e){ if(b.c>=(u64)w)return V((u64)0); if(b.c==0)return a; if(!a.e)return V((a.c&mask(w))>>b.c); return zext(extract(a,w-1,b.c,w),w-b.c,w);} if(!a.e&&a.c==0)return a; if(b.e->umin>=(u64)w)return V((u64)0); const Node*x[2]={N(a,w),N(b,w)}; return V(mknode(LSHR,w,0,x,2)); }
V ashr(V a,V b,int w){ if(!b.e){ u64 k=b.c>=(u64)w?w-1:b.c; if(k==0)return a; if(!a.e)return V((u64)(sx(a.c,w)>>k)&mask(w)); return sext(extract(a,w-1,k,w),w-k,w);} const Node*x[2]={N(a,w),N(b,w)}; if(kz_of(a,w)>>(w-1)&1)return lshr(a,b,w); return V(mknode(ASHR,w,0,x,2)); }
// if v is (zero-extended) x / constant: the division node
static const Node*divc(V v){ const Node*e=v.e; if(!e)return 0; while(e->op==CONCAT&&e->n==2&&e->a[0]->op==CONST&&e->a[0]->imm==0)e=e->a[1]; return e->op==UDIV&&e->a[1]->op==CONST&&e->a[1]->imm?e:0; }
V udiv_(V a,V b,int w){ if(!b.e&&b.c>1&&a.e) if(const Node*d=divc(a)){ unsigned __int128 p=(unsigned __int128)d->a[1]->imm*b.c; if(p>mask(d->w))return V((u64)0); return zext(udiv_(V(d->a[0]),V((u64)p),d->w),d->w,w); }
  if(!b.e&&b.c){ if(!a.e)return V(a.c/b.c); if((b.c&(b.c-1))==0)return lshr(a,V((u64)__builtin_ctzll(b.c)),w); if(a.e->umax<b.c)return V((u64)0); }
  if(a.e&&!b.e&&b.c){ int t=topbit(a.e->umax); if(t<0)return V((u64)0); int nw=t+1; if(nw<w&&b.c<=mask(nw)){ return zext(udiv_(extract(a,nw-1,0,w),b,nw),nw,w);} }
  { u64 al,ah,bl,bh; range_of(a,w,al,ah); range_of(b,w,bl,bh); int t=std::max(topbit(ah),topbit(bh)); if(t>=0&&t+1<w&&bl>0){ int nw=t+1; return zext(udiv_(extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw),nw,w);} }
  const Node*x[2]={N(a,w),N(b,w)}; return V(mknode(UDIV,w,0,x,2)); }
V urem_(V a,V b,int w){ if(!b.e&&b.c){ if(!a.e)return V(a.c%b.c); if((b.c&(b.c-1))==0)return and_(a,V(b.c-1),w); if(a.e->umax<b.c)return a;
    int t=topbit(a.e->umax); int nw=t+1; if(nw<w&&nw>0&&b.c<=mask(nw)){ return zext(urem_(extract(a,nw-1,0,w),b,nw),nw,w);} }
  { u64 al,ah,bl,bh; range_of(a,w,al,ah); range_of(b,w,bl,bh); int t=std::max(topbit(ah),topbit(bh)); if(t>=0&&t+1<w&&bl>0){ int nw=t+1; return zext(urem_(extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw),nw,w);} }
  const Node*x[2]={N(a,w),N(b,w)}; return V(mknode(UREM,w,0,x,2)); }
V sdiv_(V a,V b,int w){ u64 sb=1ull<<(w-1); if(!a.e&&!b.e&&b.c&&!(sx(b.c,w)==-1&&a.c==sb))return V((u64)(sx(a.c,w)/sx(b.c,w))&mask(w)); if((kz_of(a,w)&sb)&&(kz_of(b,w)&sb))return udiv_(a,b,w);
  const Node*x[2]={N(a,w),N(b,w)}; return V(mknode(SDIV,w,0,x,2)); }
V srem_(V a,V b,int w){ u64 sb=1ull<<(w-1); if(!a.e&&!b.e&&b.c&&sx(b.c,w)!=-1)return V((u64)(sx(a.c,w)%sx(b.c,w))&mask(w)); if((kz_of(a,w)&sb)&&(kz_of(b,w)&sb))return urem_(a,b,w);
  const Node*x[2]={N(a,w),N(b,w)}; return V(mknode(SREM,w,0,x,2)); }
V ite(V c,V a,V b,int w){ if(!c.e)return c.c?a:b; if(a.e==b.e&&a.c==b.c)return a; 
  if(c.e->op==XOR&&c.e->imm==1&&c.e->n==1)return ite(V(c.e->a[0]),b,a,w);
  if(w==1){ if(!a.e&&!b.e){ return a.c?c:bnot(c);} if(!a.e)return a.c?bor(c,b):band(bnot(c),b); if(!b.e)return b.c?bor(bnot(c),a):band(c,a); if(a.e==c.e)return bor(c,b); if(b.e==c.e)return band(c,a); }
  if(a.e&&a.e->op==ITE&&a.e->a[0]==c.e)return ite(c,V(a.e->a[1]),b,w); if(b.e&&b.e->op==ITE&&b.e->a[0]==c.e)return ite(c,a,V(b.e->a[2]),w);
  if(a.e&&b.e&&a.e->op==CONCAT&&b.e->op==CONCAT&&a.e->a[0]->w==b.e->a[0]->w&&a.e->a[0]->op==CONST&&a.e->a[0]==b.e->a[0]){ int lw=w-a.e->a[0]->w; return concat(V(a.e->a[0]),a.e->a[0]->w,ite(c,extract(a,lw-1,0,w),extract(b,lw-1,0,w),lw),lw); }
  { u64 lo1,hi1,lo2,hi2; range_of(a,w,lo1,hi1); range_of(b,w,lo2,hi2); int t=std::max(topbit(hi1),topbit(hi2)); if(w>1&&t<0)t=0; if(t+1<w){ int nw=t+1; return zext(ite(c,extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw),nw,w);} }
  const Node*x[3]={c.e,N(a,w),N(b,w)}; return V(mknode(ITE,w,0,x,3)); }
static bool isconstite(const Node*e,int d=5){ if(e->op==CONST)return true; if(e->op==CONCAT&&e->n==2&&e->a[0]->op==CONST)return isconstite(e->a[1],d); return e->op==ITE&&d>0&&isconstite(e->a[1],d-1)&&isconstite(e->a[2],d-1); }
V eq(V a,V b,int w){ if(!a.e&&!b.e)return V((u64)(a.c==b.c)); if(a.e==b.e&&a.e)return V((u64)1);
  if(!a.e)std::swap(a,b); // const on b
  { u64 m=mask(w); u64 az=kz_of(a,w),ao=ko_of(a,w),bz=kz_of(b,w),bo=ko_of(b,w); if((az&bo)||(ao&bz))return V((u64)0); (void)m; u64 al,ah,bl,bh; range_of(a,w,al,ah); range_of(b,w,bl,bh); if(ah<bl||bh<al)return V((u64)0); }
  if(w==1){ if(!b.e)return b.c?a:bnot(a); return bnot(xor_(a,b,1)); }
  if(!b.e){ const Node*e=a.e; u64 k=b.c; switch(e->op){
    case UDIV: if(e->a[1]->op==CONST&&e->a[1]->imm){ u64 c=e->a[1]->imm; unsigned __int128 lo=(unsigned __int128)c*k,hi=lo+c; if(lo>mask(w))return V((u64)0); V x(e->a[0]); V r=bnot(ult(x,V((u64)lo),w)); return hi>mask(w)?r:band(r,ult(x,V((u64)hi),w)); } break;
    case ADD: if(e->imm){ std::vector<const Node*> t(e->a,e->a+e->n); V x=t.size()==1?V(t[0]):V(mknode(ADD,w,0,t.data(),t.size())); return eq(x,V((k-e->imm)&mask(w)),w);} break;
    case MULC: if(e->imm&1){ u64 inv=1; for(int i=0;i<6;i++)inv*=2-e->imm*inv; return eq(V(e->a[0]),V((k*inv)&mask(w)),w);} break;
    case XOR: if(e->imm){ V x=xor_(a,V(e->imm),w); return eq(x,V(k^e->imm),w);} break;
    case CONCAT:{ V r((u64)1); int pos=w; for(int i=0;i<e->n;i++){ const Node*x=e->a[i]; pos-=x->w; u64 kk=(k>>pos)&mask(x->w); if(x->op==CONST){ if(x->imm!=kk)return V((u64)0); continue; } r=band(r,eq(V(x),V(kk),x->w)); } return r; }
    case SEXT:{ const Node*x=e->a[0]; if((u64)(sx(k&mask(x->w),x->w))==(u64)sx(k,w))return eq(V(x),V(k&mask(x->w)),x->w); return V((u64)0);} 
    case ITE: if(isconstite(e)||e->a[1]->op==CONST||e->a[2]->op==CONST) return ite(V(e->a[0]),eq(V(e->a[1]),b,w),eq(V(e->a[2]),b,w),1); break;
    default: break; } }
  else { const Node*x=a.e,*y=b.e;
    if(x->op==CONCAT||y->op==CONCAT){ std::vector<int> cuts; bool u=false; cutpoints(x,y,cuts,u); if(u||(x->op==CONCAT&&y->op==CONCAT)){ bool zz=false; V r((u64)1); (void)zz; for(int i=cuts.size()-2;i>=0;i--){int lo=cuts[i],hi=cuts[i+1]-1; r=band(r,eq(extract(a,hi,lo,w),extract(b,hi,lo,w),hi-lo+1)); if(!r.e&&!r.c)return r;} return r; } }
    if(x->op==SEXT&&y->op==SEXT){ int ww=std::max(x->a[0]->w,y->a[0]->w); if(ww<w)return eq(extract(a,ww-1,0,w),extract(b,ww-1,0,w),ww); }
    if(x->op==ADD||y->op==ADD||x->op==MULC||y->op==MULC){ Lin l; lin_collect(l,a,1,w); lin_collect(l,b,mask(w),w); int nz=0; for(auto&p:l.t)if(p.second&mask(w))nz++; if(nz==0)return V((u64)((l.k&mask(w))==0)); if(nz==1){ V d=lin_build(l,w); return eq(d,V((u64)0),w);} 
       // cancel common terms
       bool common=false; if(x->op==ADD&&y->op==ADD){ for(int i=0;i<x->n&&!common;i++)for(int j=0;j<y->n;j++)if(x->a[i]==y->a[j]){common=true;break;} if(!common&&x->imm&&y->imm)common=true; }
       if(common){ Lin p,q; for(auto&t:l.t){ u64 c=t.second&mask(w); if(!c)continue; if(c>>(w-1))q.t.push_back({t.first,(0-c)&mask(w)}); else p.t.push_back(t);} p.k=l.k; V pp=lin_build(p,w),qq=lin_build(q,w); if(!pp.e||!qq.e)return eq(pp,qq,w); if(pp.e->id>qq.e->id)std::swap(pp,qq); const Node*z[2]={pp.e,qq.e}; return V(mknode(EQ,1,0,z,2)); } }
    if(x->op==XOR&&y->op==XOR){ V d=xor_(a,b,w); if(!d.e)return V((u64)(d.c==0)); if(d.e->op!=XOR||d.e->n<x->n+y->n){ if(!(d.e->op==XOR&&d.e->n>=2&&d.e->imm==0&&d.e->n==2)) return eq(d,V((u64)0),w); else { const Node*z[2]={d.e->a[0],d.e->a[1]}; return V(mknode(EQ,1,0,z,2)); } } }
  }
  const Node*p=N(a,w),*q=N(b,w); if(p->id>q->id)std::swap(p,q); const Node*z[2]={p,q}; return V(mknode(EQ,1,0,z,2)); }
V ult(V a,V b,int w){ if(!a.e&&!b.e)return V((u64)(a.c<b.c)); if(a.e&&a.e==b.e)return V((u64)0); u64 al,ah,bl,bh; range_of(a,w,al,ah); range_of(b,w,bl,bh); if(ah<bl)return V((u64)1); if(al>=bh)return V((u64)0);
  if(w==1)return band(bnot(a),b);
  // strip high zero bits
  int t=std::max(topbit(ah),topbit(bh)); int nw=t+1; if(nw<1)nw=1; if(nw<w)return ult(extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw);
  if(!b.e&&a.e->op==UDIV&&a.e->a[1]->op==CONST&&a.e->a[1]->imm){ unsigned __int128 p=(unsigned __int128)a.e->a[1]->imm*b.c; return p>mask(w)?V((u64)1):ult(V(a.e->a[0]),V((u64)p),w); }
  if(!b.e){ if(b.c==1)return eq(a,V((u64)0),w); if(b.c==mask(w))return bnot(eq(a,b,w)); if(isconstite(a.e))return ite(V(a.e->a[0]),ult(V(a.e->a[1]),b,w),ult(V(a.e->a[2]),b,w),1);
     if(a.e->op==CONCAT){ const Node*l=a.e->a[a.e->n-1]; if(l->w<w&&((b.c&mask(l->w))==0)) return ult(extract(a,w-1,l->w,w),V(b.c>>l->w),w-l->w); } 
     }
  if(!a.e){ if(a.c==0)return bnot(eq(b,V((u64)0),w)); if(isconstite(b.e))return ite(V(b.e->a[0]),ult(a,V(b.e->a[1]),w),ult(a,V(b.e->a[2]),w),1); 
     // c < b  <=>  !(b < c+1): canonical const on right
     return bnot(ult(b,V((a.c+1)&mask(w)),w)); }
  if(!b.e&&b.c>>(w-1)==1&&(b.c&(b.c-1))==0) return bnot(extract(a,w-1,w-1,w));
  const Node*z[2]={N(a,w),N(b,w)}; return V(mknode(ULT,1,0,z,2)); }
V slt(V a,V b,int w){ if(!a.e&&!b.e)return V((u64)(sx(a.c,w)<sx(b.c,w))); if(a.e&&a.e==b.e)return V((u64)0); u64 sb=1ull<<(w-1); if(w==1)return band(a,bnot(b));
  u64 az=kz_of(a,w)&sb,ao=ko_of(a,w)&sb,bz=kz_of(b,w)&sb,bo=ko_of(b,w)&sb;
  if((az&&bz)||(ao&&bo))return ult(a,b,w); if(az&&bo)return V((u64)0); if(ao&&bz)return V((u64)1);
  if(a.e&&a.e->op==SEXT&&b.e&&b.e->op==SEXT){ int nw=std::max(a.e->a[0]->w,b.e->a[0]->w); return slt(extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw);} 
  auto fits=[&](V x,int nw){ if(!x.e){ return (u64)sx(x.c&mask(nw),nw)==(u64)sx(x.c,w);} if(x.e->op==SEXT&&x.e->a[0]->w<=nw)return true; u64 hz=mask(w)&~mask(nw-1); return (x.e->kz&hz)==hz; };
  if(a.e&&a.e->op==SEXT){ int nw=a.e->a[0]->w; if(fits(b,nw))return slt(extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw); if(!b.e)return V((u64)(sx(b.c,w)>0)); }
  if(b.e&&b.e->op==SEXT){ int nw=b.e->a[0]->w; if(fits(a,nw))return slt(extract(a,nw-1,0,w),extract(b,nw-1,0,w),nw); if(!a.e)return V((u64)(sx(a.c,w)<0)); }
  if(!b.e&&b.c==0)return extract(a,w-1,w-1,w); if(!a.e&&a.c==mask(w))return bnot(extract(b,w-1,w-1,w));
  if(!b.e&&isconstite(a.e))return ite(V(a.e->a[0]),slt(V(a.e->a[1]),b,w),slt(V(a.e->a[2]),b,w),1); if(!a.e&&isconstite(b.e))return ite(V(b.e->a[0]),slt(a,V(b.e->a[1]),w),slt(a,V(b.e->a[2]),w),1);
  if(!b.e&&b.c==sb)return V((u64)0); if(!a.e&&a.c==sb-1)return V((u64)0);
  if(!a.e) return bnot(slt(b,V((a.c+1)&mask(w)),w)); // c<b <=> !(b<c+1)
  const Node*z[2]={N(a,w),N(b,w)}; return V(mknode(SLT,1,0,z,2)); }
V umulh(V a,V b){ if(!a.e&&!b.e)return V((u64)(((u128)a.c*b.c)>>64)); const Node*x=N(a,64),*y=N(b,64); if(x->id>y->id)std::swap(x,y); const Node*z[2]={x,y}; return V(mknode(UMULH,64,0,z,2)); }
V smulh(V a,V b){ if(!a.e&&!b.e)return V((u64)(((i128)(i64)a.c*(i64)b.c)>>64)); const Node*x=N(a,64),*y=N(b,64); if(x->id>y->id)std::swap(x,y); const Node*z[2]={x,y}; return V(mknode(SMULH,64,0,z,2)); }
// ---------- floating point (concrete); imm = operand width for conversions
static double bd(u64 x){double d;memcpy(&d,&x,8);return d;} static u64 db(double d){u64 x;memcpy(&x,&d,8);return x;} static float bf(u64 x){u32 y=x;float f;memcpy(&f,&y,4);return f;} static u64 fb(float f){u32 y;memcpy(&y,&f,4);return y;}
static bool fnan(u64 x,int w){ return w==64?((x&0x7fffffffffffffffull)>0x7ff0000000000000ull):((x&0x7fffffff)>0x7f800000); }
static u64 fquiet(u64 x,int w){ return w==64?x|0x8000000000000ull:x|0x400000; } static u64 fdefnan(int w){ return w==64?0xfff8000000000000ull:0xffc00000ull; }
u64 fp_eval(Op op,int w,u64 imm,const u64*v,const Node*const*args){ (void)args;
  switch(op){
  case FADD: case FSUB: case FMUL: case FDIV:{ if(fnan(v[0],w))return fquiet(v[0],w); if(fnan(v[1],w))return fquiet(v[1],w); u64 r; if(w==64){ volatile double a=bd(v[0]),b=bd(v[1]); double x=op==FADD?a+b:op==FSUB?a-b:op==FMUL?a*b:a/b; r=db(x);} else { volatile float a=bf(v[0]),b=bf(v[1]); float x=op==FADD?a+b:op==FSUB?a-b:op==FMUL?a*b:a/b; r=fb(x);} if(fnan(r,w))return fdefnan(w); return r; }
  case FSQRT:{ if(fnan(v[0],w))return fquiet(v[0],w); u64 r=w==64?db(sqrt(bd(v[0]))):fb(sqrtf(bf(v[0]))); if(fnan(r,w))return fdefnan(w); return r; }
  case FEQ: { int ow=imm; return ow==64?bd(v[0])==bd(v[1]):bf(v[0])==bf(v[1]); }
  case FLT: { int ow=imm; return ow==64?bd(v[0])<bd(v[1]):bf(v[0])<bf(v[1]); }
  case FUNORD: return fnan(v[0],imm)||fnan(v[1],imm);
  case FMA:{ for(int i=0;i<3;i++){} u64 a=v[0],b=v[1],c=v[2]; u64 r=w==64?db(fma(bd(a),bd(b),bd(c))):fb(fmaf(bf(a),bf(b),bf(c))); if(fnan(a,w))return fquiet(a,w); if(fnan(b,w))return fquiet(b,w); if(fnan(c,w))return fquiet(c,w); if(fnan(r,w))return fdefnan(w); return r; }
  case SI2F:{ i64 x=sx(v[0],imm); return w==64?db((double)x):fb((float)x); }
  case F2SI:{ // truncating; imm = source width
     if(fnan(v[0],imm))return 1ull<<(w-1); double d=imm==64?bd(v[0]):(double)bf(v[0]); double t=trunc(d); double lim=w==64?9223372036854775808.0:2147483648.0; if(!(t>=-lim&&t<lim))return 1ull<<(w-1); return (u64)(i64)t&mask(w); }
  case F2SIR:{ if(fnan(v[0],imm))return 1ull<<(w-1); double d=imm==64?bd(v[0]):(double)bf(v[0]); double t=nearbyint(d); double lim=w==64?9223372036854775808.0:2147483648.0; if(!(t>=-lim&&t<lim))return 1ull<<(w-1); return (u64)(i64)t&mask(w); }
  case F2F:{ if(w==64){ if(fnan(v[0],32)){ u64 s=(v[0]>>31)&1; return (s<<63)|0x7ff0000000000000ull|0x8000000000000ull|((v[0]&0x7fffff)<<29);} return db((double)bf(v[0])); } if(fnan(v[0],64)){ u64 s=v[0]>>63; return (s<<31)|0x7f800000|0x400000|((v[0]>>29)&0x7fffff);} return fb((float)bd(v[0])); }
  case FROUND:{ if(fnan(v[0],w))return fquiet(v[0],w); int m=imm&3; if(w==64){ double d=bd(v[0]); d=m==0?nearbyint(d):m==1?floor(d):m==2?ceil(d):trunc(d); return db(d);} float f=bf(v[0]); f=m==0?nearbyintf(f):m==1?floorf(f):m==2?ceilf(f):truncf(f); return fb(f); }
  default: fprintf(stderr,"fp_eval op %d\n",op); abort(); } }
V fop(Op op,int w,u64 imm,V*args,int argw,int n){ bool s=false; for(int i=0;i<n;i++)if(args[i].e)s=true; if(!s){ u64 v[3]={0,0,0}; for(int i=0;i<n;i++)v[i]=args[i].c; return V(fp_eval(op,w,imm,v,0)); }
  const Node*a[3]; for(int i=0;i<n;i++)a[i]=N(args[i],argw); return V(mknode(op,w,imm,a,n)); }
u64 eval_op(Op op,int w,u64 imm,const u64*v,int n,const Node*const*args){ u64 M=mask(w);
  switch(op){
  case CONST: return imm;
  case ADD:{u64 r=imm;for(int i=0;i<n;i++)r+=v[i];return r&M;}
  case MULC:return v[0]*imm&M; case MUL:return v[0]*v[1]&M;
  case UDIV:return v[1]?v[0]/v[1]:M; case UREM:return v[1]?v[0]%v[1]:v[0];
  case SDIV:{ i64 a=sx(v[0],w),b=sx(v[1],w); if(!b)return a<0?1:M; if(b==-1)return (0-v[0])&M; return (u64)(a/b)&M; }
  case SREM:{ i64 a=sx(v[0],w),b=sx(v[1],w); if(!b)return v[0]; if(b==-1)return 0; return (u64)(a%b)&M; }
  case AND:{u64 r=imm;for(int i=0;i<n;i++)r&=v[i];return r;} case OR:{u64 r=imm;for(int i=0;i<n;i++)r|=v[i];return r;} case XOR:{u64 r=imm;for(int i=0;i<n;i++)r^=v[i];return r;}
  case SHL:return v[1]>=(u64)w?0:(v[0]<<v[1])&M; case LSHR:return v[1]>=(u64)w?0:v[0]>>v[1]; case ASHR:return (u64)(sx(v[0],w)>>(v[1]>=(u64)w?w-1:v[1]))&M;
  case CONCAT:{u64 r=0;for(int i=0;i<n;i++){ if(args[i]->w==64)r=v[i]; else r=(r<<args[i]->w)|v[i]; } return r;}
  case EXTRACT:return (v[0]>>imm)&M; case SEXT:return (u64)sx(v[0],args[0]->w)&M;
  case ITE:return v[0]?v[1]:v[2]; case EQ:return v[0]==v[1]; case ULT:return v[0]<v[1]; case SLT:return sx(v[0],args[0]->w)<sx(v[1],args[0]->w);
  case UMULH:return ((u128)v[0]*v[1])>>64; case SMULH:return (u64)(((i128)(i64)v[0]*(i64)v[1])>>64);
  default: return fp_eval(op,w,imm,v,args); } }
