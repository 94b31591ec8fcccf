#pragma once
#include "expr.h"
struct Model { std::vector<u64> val; mutable std::unordered_map<u32,u64> cache; u64 get(u32 v)const{return v<val.size()?val[v]:0;} };
typedef std::shared_ptr<Model> ModelP;
u64 eval(const Node*,const Model&);
static inline u64 evalv(V v,const Model&m){ return v.e?eval(v.e,m):v.c; }
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
struct PCList { const Node*c; std::shared_ptr<PCList> prev; int n; PCList(const Node*c_,std::shared_ptr<PCList> p):c(c_),prev(p),n(p?p->n+1:1){} };
typedef std::shared_ptr<PCList> PC;
// is pc /\ cond satisfiable?  base: model satisfying pc (values outside the slice are kept from it)
Res check_sat(const PC&pc,V cond,const ModelP&base,ModelP&out);
extern u64 n_queries,n_cache,n_slices,n_unknown,n_table; extern double solver_time; extern unsigned solver_timeout_ms; extern double max_query_s;
extern std::vector<std::string> solver_notes;
bool bigger(const std::vector<const Node*>&roots,size_t lim);
