// Hash-consed bit-vector expression DAG with aggressive local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, VAR, ADD, MULC, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT, UMULH, SMULH,
  FADD, FSUB, FMUL, FDIV, FSQRT, FEQ, FLT, FUNORD, FMA, SI2F, F2SI, F2SIR, F2F, FROUND };
extern const char *opname[];

struct Node { Op op; u8 w; uint8_t n, d; u32 id; u64 imm; u64 kz, ko; u64 umin, umax; u32 vset; const Node *a[0]; };
struct V { u64 c; const Node *e; V():c(0),e(0){} V(u64 x):c(x),e(0){} V(const Node*x):c(0),e(x){ if(x && x->op==CONST){c=x->imm;e=0;} } bool sym()const{return e!=0;} };

static inline u64 mask(int w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v,int w){ return (i64)(v<<(64-w))>>(64-w); }

u64 eval_op(Op op,int w,u64 imm,const u64*v,int n,const Node*const*args);

const Node *mknode(Op op,int w,u64 imm,const Node*const*a,int n);
const Node *N(V v,int w);           // to node
V mkvar(const std::string&name,int w,u32&idx);
V add(V,V,int w); V sub(V,V,int w); V neg(V,int w); V mul(V,V,int w); V mulc(V,u64,int w);
V udiv_(V,V,int w); V urem_(V,V,int w); V sdiv_(V,V,int w); V srem_(V,V,int w);
V and_(V,V,int w); V or_(V,V,int w); V xor_(V,V,int w); V not_(V,int w);
V shl(V,V,int w); V lshr(V,V,int w); V ashr(V,V,int w);
V extract(V,int hi,int lo,int w); V concat(V hi,int wh,V lo,int wl); V zext(V,int from,int to); V sext(V,int from,int to);
V ite(V c,V a,V b,int w); V eq(V,V,int w); V ult(V,V,int w); V slt(V,V,int w);
V umulh(V,V); V smulh(V,V);
V fop(Op,int w,u64 imm,V*args,int argw,int n);
static inline V ule(V a,V b,int w){ return not_(ult(b,a,w),1);} static inline V sle(V a,V b,int w){ return not_(slt(b,a,w),1);}
static inline V band(V a,V b){return and_(a,b,1);} static inline V bor(V a,V b){return or_(a,b,1);} static inline V bnot(V a){return not_(a,1);}
extern std::vector<std::string> var_names; extern std::vector<const Node*> var_nodes;
extern std::vector<std::vector<u32>> vsets; // interned var sets (sorted var idx)
u64 node_count();
u64 kz_of(V v,int w); // known-zero mask
void range_of(V v,int w,u64&lo,u64&hi);
std::string show(const Node*,int depth=6);
// floating-point concrete semantics shared by evaluation
u64 fp_eval(Op op,int w,u64 imm,const u64*v,const Node*const*args);
