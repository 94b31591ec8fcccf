// Differential self-test of the simplifier: random expressions vs. direct evaluation.
#include "expr.h"
#include <random>
static std::mt19937_64 rng(12345);
struct T{ V v; int w; std::vector<u64> val; };
static const int K=24; static std::vector<std::vector<u64>> asg(K);
static u64 evalN(const Node*e,int k,std::unordered_map<const Node*,u64>&m){ auto it=m.find(e); if(it!=m.end())return it->second; u64 r; if(e->op==VAR)r=asg[k][e->imm]; else { std::vector<u64> v; for(int i=0;i<e->n;i++)v.push_back(evalN(e->a[i],k,m)); r=eval_op(e->op,e->w,e->imm,v.data(),e->n,e->a);} if((r&e->kz)||((~r)&e->ko)||r<e->umin||r>e->umax||(r&~mask(e->w))){ printf("FACTS wrong for %s val %llx kz %llx ko %llx [%llx,%llx]\n",show(e).c_str(),(unsigned long long)r,(unsigned long long)e->kz,(unsigned long long)e->ko,(unsigned long long)e->umin,(unsigned long long)e->umax); exit(1);} m[e]=r; return r; }
int main(int argc,char**argv){ int iters=argc>1?atoi(argv[1]):20000; if(argc>2)rng.seed(atoi(argv[2])); int ws[]={1,8,16,32,64,7,33};
 std::vector<T> vars; for(int i=0;i<10;i++){ int w=ws[i%7]; u32 idx; V v=mkvar("v"+std::to_string(i),w,idx); T t{v,w,{}}; for(int k=0;k<K;k++){ u64 x=rng(); switch(rng()%6){case 0:x=0;break;case 1:x=~0ull;break;case 2:x&=0xf;break;case 3:x=1ull<<(rng()%64);break;} x&=mask(w); asg[k].push_back(x); t.val.push_back(x);} vars.push_back(t); }
 for(int it=0;it<iters;it++){ std::vector<T> pool=vars; int steps=3+rng()%14;
  for(int s=0;s<steps;s++){ T a=pool[rng()%2?pool.size()-1-rng()%std::min<size_t>(pool.size(),4):rng()%pool.size()]; int w=a.w; T b; bool found=false; for(int tr=0;tr<20;tr++){ b=pool[rng()%pool.size()]; if(b.w==w){found=true;break;} }
   if(!found||rng()%4==0){ u64 c=rng(); switch(rng()%7){case 0:c=0;break;case 1:c=~0ull;break;case 2:c&=7;break;case 3:c=1ull<<(rng()%64);break;case 4:c=mask(rng()%64+1);break;case 5:c=0xff00ff;break;} c&=mask(w); b=T{V(c),w,std::vector<u64>(K,c)}; }
   if(rng()%8==0)std::swap(a,b);
   T c1; bool fc=false; for(int tr=0;tr<20;tr++){ c1=pool[rng()%pool.size()]; if(c1.w==1){fc=true;break;} }
   T r; r.w=w; int op=rng()%24; auto each=[&](std::function<u64(u64,u64,u64)> f){ for(int k=0;k<K;k++)r.val.push_back(f(a.val[k],b.val[k],fc?c1.val[k]:0)&mask(r.w)); };
   switch(op){
   case 0: r.v=add(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x+y;}); break;
   case 1: r.v=sub(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x-y;}); break;
   case 2: r.v=mul(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x*y;}); break;
   case 3: r.v=and_(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x&y;}); break;
   case 4: r.v=or_(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x|y;}); break;
   case 5: r.v=xor_(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x^y;}); break;
   case 6: r.v=not_(a.v,w); each([&](u64 x,u64,u64){return ~x;}); break;
   case 7: r.v=shl(a.v,b.v,w); each([&](u64 x,u64 y,u64){return y>=(u64)w?0:x<<y;}); break;
   case 8: r.v=lshr(a.v,b.v,w); each([&](u64 x,u64 y,u64){return y>=(u64)w?0:x>>y;}); break;
   case 9: r.v=ashr(a.v,b.v,w); each([&](u64 x,u64 y,u64){return (u64)(sx(x,w)>>(y>=(u64)w?w-1:y));}); break;
   case 10: { int lo=rng()%w,hi=lo+rng()%(w-lo); r.w=hi-lo+1; r.v=extract(a.v,hi,lo,w); each([&](u64 x,u64,u64){return x>>lo;}); break; }
   case 11: case 12: if(w*2>64)continue; r.w=2*w; r.v=concat(a.v,w,b.v,w); each([&](u64 x,u64 y,u64){return (x<<w)|y;}); break;
   case 13: { int to=ws[rng()%7]; if(to<w)continue; r.w=to; r.v=sext(a.v,w,to); each([&](u64 x,u64,u64){return (u64)sx(x,w);}); break; }
   case 14: { int to=ws[rng()%7]; if(to<w)continue; r.w=to; r.v=zext(a.v,w,to); each([&](u64 x,u64,u64){return x;}); break; }
   case 15: case 16: if(!fc)continue; r.v=ite(c1.v,a.v,b.v,w); each([&](u64 x,u64 y,u64 c){return c?x:y;}); break;
   case 17: r.w=1; r.v=eq(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x==y;}); break;
   case 18: r.w=1; r.v=ult(a.v,b.v,w); each([&](u64 x,u64 y,u64){return x<y;}); break;
   case 19: r.w=1; r.v=slt(a.v,b.v,w); each([&](u64 x,u64 y,u64){return sx(x,w)<sx(y,w);}); break;
   case 20: r.v=udiv_(a.v,b.v,w); each([&](u64 x,u64 y,u64){return y?x/y:mask(w);}); break;
   case 21: r.v=urem_(a.v,b.v,w); each([&](u64 x,u64 y,u64){return y?x%y:x;}); break;
   case 22: r.v=sdiv_(a.v,b.v,w); each([&](u64 x,u64 y,u64){u64 v[2]={x,y};return eval_op(SDIV,w,0,v,2,0);}); break;
   case 23: r.v=srem_(a.v,b.v,w); each([&](u64 x,u64 y,u64){u64 v[2]={x,y};return eval_op(SREM,w,0,v,2,0);}); break;
   }
   for(int k=0;k<K;k++){ std::unordered_map<const Node*,u64> m; u64 g=r.v.e?evalN(r.v.e,k,m):r.v.c; if(r.v.e&&r.v.e->w!=r.w){printf("WIDTH op %d\n",op);return 1;} if(g!=r.val[k]){ printf("MISMATCH op %d w %d\n a=%s\n b=%s\n r=%s\n got %llx want %llx (a=%llx b=%llx)\n",op,w,a.v.e?show(a.v.e).c_str():"const",b.v.e?show(b.v.e).c_str():"const",r.v.e?show(r.v.e).c_str():"const",(unsigned long long)g,(unsigned long long)r.val[k],(unsigned long long)a.val[k],(unsigned long long)b.val[k]); return 1; } }
   if(!r.v.e && r.w>64)return 1; pool.push_back(r); } }
 printf("ok %llu nodes\n",(unsigned long long)node_count()); }
