#include "ref.h"
static u8 eb[4096]; static u64 en;
void x_new(void){ en=0; }
void x_b(u64 c){ eb[en++]=c; }
void x_m(const u8*p,u64 n){ for(u64 i=0;i<n;i++)eb[en++]=p[i]; }
void x_c(const char*s){ while(*s)eb[en++]=*s++; }
void x_n(u64 v,u64 neg,volatile u64 base,u64 w,u64 pad){ u8 t[64]; u64 n=0; u64 m=v; do{ u64 b=base; t[n++]="0123456789abcdef"[m%b]; m/=b; }while(m);
	u64 len=n+(neg?1:0); if(neg&&pad=='0')x_b('-'); while(len<w){x_b(pad);len++;} if(neg&&pad!='0')x_b('-'); while(n)x_b(t[--n]); }
void x_i(i64 v){ if(v<0)x_n(-(u64)v,1,10,0,' '); else x_n(v,0,10,0,' '); }
void x_u(u64 v){ x_n(v,0,10,0,' '); }
void x_x(u64 v,u64 w){ x_n(v,0,16,w,'0'); }
u64 x_len(void){ return en; }
void x_cmp(int id,const u8*p,u64 n){ vcheck(id,n==en); if(n==en)vcheck(id,veqmem(p,eb,n)); }
