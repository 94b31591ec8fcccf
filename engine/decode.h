#pragma once
#include "expr.h"
enum OK : u8 { K_NONE, K_REG, K_MEM, K_IMM, K_XMM };
struct Opd { OK k=K_NONE; u8 size=0; u8 reg=0; bool hi=false; int8_t base=-1,index=-1; u8 scale=1; bool fs=false; i64 disp=0; bool rip=false; };
enum Mn : uint16_t { M_BAD, M_mov, M_movzx, M_movsx, M_lea, M_push, M_pop, M_call, M_ret, M_jmp, M_jcc, M_setcc, M_cmov, M_add, M_sub, M_adc, M_sbb, M_cmp, M_test, M_and, M_or, M_xor, M_not, M_neg, M_inc, M_dec, M_imul, M_mul, M_div, M_idiv,
 M_cqo, M_cdq, M_cwd, M_cdqe, M_cwde, M_cbw, M_shl, M_shr, M_sar, M_rol, M_ror, M_shld, M_shrd, M_bt, M_bts, M_btr,M_btc, M_bsr, M_bsf, M_tzcnt, M_lzcnt, M_popcnt, M_xchg, M_xadd, M_cmpxchg, M_bswap, M_nop, M_leave, M_cld, M_std,
 M_movs, M_stos, M_scas, M_cmps, M_lods, M_hlt, M_ud2, M_int3, M_syscall, M_cpuid, M_rdtsc, M_ldmxcsr, M_stmxcsr, M_fnstcw, M_fldcw,
 M_movss, M_movsdx, M_movaps, M_movd, M_movq, M_movlps, M_movhps, M_movhlps, M_movlhps, M_pxor, M_pand, M_pandn, M_por, M_addf, M_subf, M_mulf, M_divf, M_sqrtf, M_minf, M_maxf, M_cvtsi2f, M_cvttf2si, M_cvtf2si, M_cvtf2f, M_ucomi, M_round, M_vfmadd132, M_vfmadd213, M_vfmadd231, M_punpcklqdq, M_punpckldq, M_pshufd, M_shufps, M_unpcklps, M_stc, M_clc, M_sahf, M_lahf };
struct Insn { u64 addr=0,next=0; Mn m=M_BAD; u8 cc=0; u8 fw=0; /* fp width bits */ u8 rep=0; bool lock=false; Opd o[3]; int no=0; u64 target=0; std::string text; };
struct Sym { u64 addr; std::string name; };
struct Image { u64 lo=0,hi=0; std::vector<int> idx; std::vector<Insn> ins; std::map<u64,std::string> syms; std::unordered_map<std::string,u64> byname; struct Seg{u64 va; std::vector<u8> d; bool w;}; std::vector<Seg> segs; u64 entry=0;
 const Insn*at(u64 a)const{ if(a<lo||a>=hi)return 0; int i=idx[a-lo]; return i<0?0:&ins[i]; } 
 std::string where(u64 a)const{ auto it=syms.upper_bound(a); if(it==syms.begin())return "?"; --it; char b[32]; snprintf(b,32,"+0x%llx",(unsigned long long)(a-it->first)); return it->second+b; } 
 std::string func(u64 a)const{ auto it=syms.upper_bound(a); if(it==syms.begin())return "?"; --it; return it->second; } };
bool load_image(const char*path,Image&);
// immediate post-dominator of the conditional branch at address a within its function (0: none)
u64 ipdom_of(Image&,u64 a);
