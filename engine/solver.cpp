#include "solver.h"
#include <atomic>
#include <thread>
#include <unordered_set>
#include <z3.h>
#include <chrono>
u64 n_queries,n_cache,n_slices,n_unknown; double solver_time,max_query_s; unsigned solver_timeout_ms=20000; std::vector<std::string> solver_notes;
u64 eval(const Node*e,const Model&m){
  if(e->op==CONST)return e->imm; if(e->op==VAR)return m.get(e->imm);
  auto it=m.cache.find(e->id); if(it!=m.cache.end())return it->second;
  // iterative post-order
  std::vector<std::pair<const Node*,int>> st; st.push_back({e,0});
  auto known=[&](const Node*x,u64&v){ if(x->op==CONST){v=x->imm;return true;} if(x->op==VAR){v=m.get(x->imm);return true;} auto i=m.cache.find(x->id); if(i==m.cache.end())return false; v=i->second; return true; };
  while(!st.empty()){ auto&t=st.back(); const Node*x=t.first; bool push=false; u64 v;
    while(t.second<x->n){ const Node*c=x->a[t.second++]; if(!known(c,v)){ st.push_back({c,0}); push=true; break; } }
    if(push)continue; std::vector<u64> vs(x->n); for(int i=0;i<x->n;i++){known(x->a[i],v);vs[i]=v;} m.cache[x->id]=eval_op(x->op,x->w,x->imm,vs.data(),x->n,x->a); st.pop_back(); }
  return m.cache[e->id]; }
static Z3_context ctx=0; static std::unordered_map<u32,Z3_ast> zmap; static std::vector<Z3_ast> zvars; static size_t zcount=0;
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); exit(3); }
static void initz(){ if(ctx){ if(zcount<400000)return; Z3_del_context(ctx); zmap.clear(); zcount=0; } Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,errh); }
static Z3_sort bvs(int w){return Z3_mk_bv_sort(ctx,w);} static Z3_ast bvc(u64 v,int w){return Z3_mk_unsigned_int64(ctx,v,bvs(w));}
static Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(ctx,b,bvc(1,1),bvc(0,1)); }
static Z3_ast tru(Z3_ast v){ return Z3_mk_eq(ctx,v,bvc(1,1)); }
static Z3_sort fps(int w){ return w==64?Z3_mk_fpa_sort_64(ctx):Z3_mk_fpa_sort_32(ctx);} 
static Z3_ast tofp(Z3_ast b,int w){ return Z3_mk_fpa_to_fp_bv(ctx,b,fps(w)); }
static Z3_ast isnan_bv(Z3_ast b,int w){ Z3_ast m=Z3_mk_bvand(ctx,b,bvc(w==64?0x7fffffffffffffffull:0x7fffffff,w)); return Z3_mk_bvugt(ctx,m,bvc(w==64?0x7ff0000000000000ull:0x7f800000,w)); }
static Z3_ast quiet(Z3_ast b,int w){ return Z3_mk_bvor(ctx,b,bvc(w==64?0x8000000000000ull:0x400000,w)); }
static Z3_ast fpres(Z3_ast f,int w){ Z3_ast bv=Z3_mk_fpa_to_ieee_bv(ctx,f); return Z3_mk_ite(ctx,Z3_mk_fpa_is_nan(ctx,f),bvc(w==64?0xfff8000000000000ull:0xffc00000ull,w),bv); }
static Z3_ast rm(int m){ switch(m&3){case 0:return Z3_mk_fpa_round_nearest_ties_to_even(ctx);case 1:return Z3_mk_fpa_round_toward_negative(ctx);case 2:return Z3_mk_fpa_round_toward_positive(ctx);default:return Z3_mk_fpa_round_toward_zero(ctx);} }
static Z3_ast tr1(const Node*e,Z3_ast*a){ int w=e->w; 
  auto fold=[&](Z3_ast(*f)(Z3_context,Z3_ast,Z3_ast),u64 ident){ Z3_ast r=0; if(e->imm!=ident)r=bvc(e->imm,w); for(int i=0;i<e->n;i++)r=r?f(ctx,r,a[i]):a[i]; return r; };
  switch(e->op){
  case CONST:return bvc(e->imm,w); case VAR:{ return Z3_mk_const(ctx,Z3_mk_int_symbol(ctx,e->imm),bvs(w)); }
  case ADD:return fold(Z3_mk_bvadd,0); case AND:return fold(Z3_mk_bvand,mask(w)); case OR:return fold(Z3_mk_bvor,0); case XOR: if(e->n==1&&e->imm==mask(w))return Z3_mk_bvnot(ctx,a[0]); return fold(Z3_mk_bvxor,0);
  case MULC: if(e->imm==mask(w))return Z3_mk_bvneg(ctx,a[0]); return Z3_mk_bvmul(ctx,bvc(e->imm,w),a[0]); case MUL:return Z3_mk_bvmul(ctx,a[0],a[1]);
  case UDIV:return Z3_mk_bvudiv(ctx,a[0],a[1]); case UREM:return Z3_mk_bvurem(ctx,a[0],a[1]); case SDIV:return Z3_mk_bvsdiv(ctx,a[0],a[1]); case SREM:return Z3_mk_bvsrem(ctx,a[0],a[1]);
  case SHL:return Z3_mk_bvshl(ctx,a[0],a[1]); case LSHR:return Z3_mk_bvlshr(ctx,a[0],a[1]); case ASHR:return Z3_mk_bvashr(ctx,a[0],a[1]);
  case CONCAT:{ Z3_ast r=a[0]; for(int i=1;i<e->n;i++)r=Z3_mk_concat(ctx,r,a[i]); return r; }
  case EXTRACT:return Z3_mk_extract(ctx,e->imm+w-1,e->imm,a[0]); case SEXT:return Z3_mk_sign_ext(ctx,w-e->a[0]->w,a[0]);
  case ITE:return Z3_mk_ite(ctx,tru(a[0]),a[1],a[2]); case EQ:return b2v(Z3_mk_eq(ctx,a[0],a[1])); case ULT:return b2v(Z3_mk_bvult(ctx,a[0],a[1])); case SLT:return b2v(Z3_mk_bvslt(ctx,a[0],a[1]));
  case UMULH:{ Z3_ast p=Z3_mk_bvmul(ctx,Z3_mk_zero_ext(ctx,64,a[0]),Z3_mk_zero_ext(ctx,64,a[1])); return Z3_mk_extract(ctx,127,64,p);} 
  case SMULH:{ Z3_ast p=Z3_mk_bvmul(ctx,Z3_mk_sign_ext(ctx,64,a[0]),Z3_mk_sign_ext(ctx,64,a[1])); return Z3_mk_extract(ctx,127,64,p);} 
  case FADD: case FSUB: case FMUL: case FDIV:{ Z3_ast x=tofp(a[0],w),y=tofp(a[1],w); Z3_ast r=e->op==FADD?Z3_mk_fpa_add(ctx,rm(0),x,y):e->op==FSUB?Z3_mk_fpa_sub(ctx,rm(0),x,y):e->op==FMUL?Z3_mk_fpa_mul(ctx,rm(0),x,y):Z3_mk_fpa_div(ctx,rm(0),x,y); return Z3_mk_ite(ctx,isnan_bv(a[0],w),quiet(a[0],w),Z3_mk_ite(ctx,isnan_bv(a[1],w),quiet(a[1],w),fpres(r,w))); }
  case FSQRT: return Z3_mk_ite(ctx,isnan_bv(a[0],w),quiet(a[0],w),fpres(Z3_mk_fpa_sqrt(ctx,rm(0),tofp(a[0],w)),w));
  case FEQ: return b2v(Z3_mk_fpa_eq(ctx,tofp(a[0],e->imm),tofp(a[1],e->imm))); case FLT: return b2v(Z3_mk_fpa_lt(ctx,tofp(a[0],e->imm),tofp(a[1],e->imm)));
  case FUNORD:{ Z3_ast x[2]={isnan_bv(a[0],e->imm),isnan_bv(a[1],e->imm)}; return b2v(Z3_mk_or(ctx,2,x)); }
  case FMA:{ Z3_ast r=fpres(Z3_mk_fpa_fma(ctx,rm(0),tofp(a[0],w),tofp(a[1],w),tofp(a[2],w)),w); for(int i=2;i>=0;i--)r=Z3_mk_ite(ctx,isnan_bv(a[i],w),quiet(a[i],w),r); return r; }
  case SI2F: return Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_signed(ctx,rm(0),a[0],fps(w)));
  case F2SI: case F2SIR:{ int sw=e->imm; Z3_ast f=tofp(a[0],sw); Z3_ast fi=Z3_mk_fpa_round_to_integral(ctx,rm(e->op==F2SI?3:0),f); double lim=w==64?9223372036854775808.0:2147483648.0; Z3_ast lo=Z3_mk_fpa_numeral_double(ctx,-lim,fps(sw)),hi=Z3_mk_fpa_numeral_double(ctx,lim,fps(sw)); Z3_ast ok[2]={Z3_mk_fpa_geq(ctx,fi,lo),Z3_mk_fpa_lt(ctx,fi,hi)}; return Z3_mk_ite(ctx,Z3_mk_and(ctx,2,ok),Z3_mk_fpa_to_sbv(ctx,rm(e->op==F2SI?3:0),f,w),bvc(1ull<<(w-1),w)); }
  case F2F:{ int sw=e->a[0]->w; Z3_ast r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_float(ctx,rm(0),tofp(a[0],sw),fps(w))); Z3_ast nan; if(w==64){ nan=Z3_mk_concat(ctx,Z3_mk_extract(ctx,31,31,a[0]),Z3_mk_concat(ctx,bvc(0xfff,12),Z3_mk_concat(ctx,Z3_mk_extract(ctx,21,0,a[0]),bvc(0,29)))); } else { nan=Z3_mk_concat(ctx,Z3_mk_extract(ctx,63,63,a[0]),Z3_mk_concat(ctx,bvc(0x1ff,9),Z3_mk_extract(ctx,50,29,a[0]))); } return Z3_mk_ite(ctx,isnan_bv(a[0],sw),nan,r); }
  case FROUND: return Z3_mk_ite(ctx,isnan_bv(a[0],w),quiet(a[0],w),Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_round_to_integral(ctx,rm(e->imm),tofp(a[0],w))));
  default: fprintf(stderr,"tr op %d\n",e->op); exit(3); } }
static Z3_ast tr(const Node*e){ auto it=zmap.find(e->id); if(it!=zmap.end())return it->second;
  std::vector<std::pair<const Node*,int>> st; st.push_back({e,0});
  while(!st.empty()){ auto&t=st.back(); const Node*x=t.first; bool push=false; while(t.second<x->n){ const Node*c=x->a[t.second++]; if(!zmap.count(c->id)){st.push_back({c,0});push=true;break;} } if(push)continue; std::vector<Z3_ast> a(x->n); for(int i=0;i<x->n;i++)a[i]=zmap[x->a[i]->id]; zmap[x->id]=tr1(x,a.data()); zcount++; st.pop_back(); }
  return zmap[e->id]; }
// exact decision for constraints over one variable of at most 8 bits: truth tables
struct TT{ u64 b[4]; };
static std::unordered_map<u32,TT> ttab;
static const TT&truth(const Node*c,u32 v,int w){ auto it=ttab.find(c->id); if(it!=ttab.end())return it->second; TT t={{0,0,0,0}}; Model m; m.val.resize(v+1,0); for(int x=0;x<(1<<w);x++){ m.val[v]=x; m.cache.clear(); if(eval(c,m))t.b[x>>6]|=1ull<<(x&63); } return ttab[c->id]=t; }
u64 n_table;
struct QRes{ Res r; std::vector<std::pair<u32,u64>> m; };
static std::map<std::vector<u32>,QRes> qcache;
static bool has_fp(const std::vector<const Node*>&cs){ std::vector<const Node*> st(cs); std::set<u32> seen; int lim=0; while(!st.empty()&&lim++<20000){ auto x=st.back(); st.pop_back(); if(!seen.insert(x->id).second)continue; if(x->op>=FADD)return true; for(int i=0;i<x->n;i++)st.push_back(x->a[i]); } return false; }
static void conj(const Node*c,std::vector<const Node*>&o){ if(c->op==AND&&c->w==1){ for(int i=0;i<c->n;i++)conj(c->a[i],o);} else o.push_back(c); }
bool bigger(const std::vector<const Node*>&roots,size_t lim){ std::unordered_set<u32> seen; std::vector<const Node*> st(roots); while(!st.empty()){ const Node*x=st.back(); st.pop_back(); if(!seen.insert(x->id).second)continue; if(seen.size()>lim)return true; for(int i=0;i<x->n;i++)st.push_back(x->a[i]); } return false; }
// z3 does not look at its time limit while it simplifies: remind it
static std::atomic<long long> wd_deadline{0}; static void wd_start(){ static bool on=false; if(on)return; on=true; std::thread([]{ for(;;){ std::this_thread::sleep_for(std::chrono::milliseconds(200)); long long d=wd_deadline.load(); if(d&&std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()>d)Z3_interrupt(ctx); } }).detach(); }
Res check_sat(const PC&pc,V cond,const ModelP&base,ModelP&out){
  if(!cond.e){ if(!cond.c)return UNSAT; out=base; return SAT; }
  if(base && eval(cond.e,*base)){ out=base; return SAT; }
  // slicing
  std::vector<const Node*> all; for(PCList*p=pc.get();p;p=p->prev.get())conj(p->c,all);
  std::vector<const Node*> cc; conj(cond.e,cc); 
  std::vector<bool> in(var_names.size(),false); for(u32 v:vsets[cond.e->vset])in[v]=true; std::vector<bool> used(all.size(),false); bool ch=true; std::vector<const Node*> sel=cc;
  for(auto c:cc)for(size_t i=0;i<all.size();i++){ if(all[i]==c)used[i]=true; const Node*x=all[i]; if(x->op==XOR&&x->n==1&&x->imm==1&&x->a[0]==c)return UNSAT; if(c->op==XOR&&c->n==1&&c->imm==1&&c->a[0]==x)return UNSAT; }
  while(ch){ ch=false; for(size_t i=0;i<all.size();i++)if(!used[i]){ bool hit=false; for(u32 v:vsets[all[i]->vset])if(in[v]){hit=true;break;} if(hit){ used[i]=true; sel.push_back(all[i]); for(u32 v:vsets[all[i]->vset])if(!in[v]){in[v]=true;ch=true;} ch=true; } } }
  std::vector<u32> key; for(auto x:sel)key.push_back(x->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  // very large formulas: a few arbitrary assignments first
  if(bigger(sel,3000)){ static u64 seed=88172645463325252ull; for(int k=0;k<6;k++){ auto m=std::make_shared<Model>(); if(base)m->val=base->val; m->val.resize(var_names.size(),0); for(size_t v=0;v<in.size();v++)if(in[v]){ seed^=seed<<13; seed^=seed>>7; seed^=seed<<17; if(k%2==0||(seed>>40)%4==0)m->val[v]=(seed*2685821657736338717ull>>8)&(var_nodes[v]->w>=64?~0ull:((1ull<<var_nodes[v]->w)-1)); } bool ok=true; for(auto x:sel)if(!eval(x,*m)){ok=false;break;} if(ok){ m->cache.clear(); out=m; return SAT; } } }
  { int nv=0; u32 tv=0; for(size_t v=0;v<in.size()&&nv<2;v++)if(in[v]){nv++;tv=v;} if(nv==1&&var_nodes[tv]->w<=8){ int w=var_nodes[tv]->w; TT a={{~0ull,~0ull,~0ull,~0ull}}; if(w<8)for(int x=(1<<w);x<256;x++)a.b[x>>6]&=~(1ull<<(x&63)); for(auto x:sel){ const TT&t=truth(x,tv,w); for(int i=0;i<4;i++)a.b[i]&=t.b[i]; } n_table++; for(int i=0;i<4;i++)if(a.b[i]){ auto m=std::make_shared<Model>(); if(base)m->val=base->val; m->val.resize(var_names.size(),0); m->val[tv]=i*64+__builtin_ctzll(a.b[i]); out=m; return SAT; } return UNSAT; } }
  QRes q; auto it=qcache.find(key);
  if(it!=qcache.end()){ n_cache++; q=it->second; }
  else { initz(); n_queries++; auto t0=std::chrono::steady_clock::now(); bool fp=has_fp(sel);
    Z3_solver s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,fp?"QF_FPBV":"QF_BV")); Z3_solver_inc_ref(ctx,s);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),solver_timeout_ms); Z3_solver_set_params(ctx,s,p);
    for(auto x:sel)Z3_solver_assert(ctx,s,tru(tr(x)));
    wd_start(); wd_deadline=std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()+solver_timeout_ms+2000;
    Z3_lbool r=Z3_solver_check(ctx,s); wd_deadline=0; q.r=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNKNOWN;
    if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m); std::set<u32> vs; for(auto x:sel)for(u32 v:vsets[x->vset])vs.insert(v); for(u32 v:vs){ Z3_ast o; u64 u=0; if(Z3_model_eval(ctx,m,tr(var_nodes[v]),true,&o))Z3_get_numeral_uint64(ctx,o,&u); q.m.push_back({v,u}); } Z3_model_dec_ref(ctx,m); }
    Z3_params_dec_ref(ctx,p); Z3_solver_dec_ref(ctx,s); double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); solver_time+=dt; if(dt>max_query_s)max_query_s=dt;
    if(q.r==UNKNOWN){ n_unknown++; if(solver_notes.size()<5)solver_notes.push_back("solver gave no answer in "+std::to_string(solver_timeout_ms)+" ms"); }
    qcache[key]=q; }
  if(q.r!=SAT)return q.r;
  auto m=std::make_shared<Model>(); if(base)m->val=base->val; m->val.resize(var_names.size(),0); for(auto&p:q.m)m->val[p.first]=p.second;
  for(auto x:sel)if(!eval(x,*m)){ fprintf(stderr,"INTERNAL: solver model does not satisfy %s\n",show(x,8).c_str()); exit(3); }
  out=m; return SAT; }
