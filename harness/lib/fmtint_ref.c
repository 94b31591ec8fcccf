#include "ref.h"
u64 r_fmt(u8*p,u64 v,u64 bits,u64 sgn,volatile u64 base,u64 w,u64 pad){
	u8 t[64]; u64 n=0,k=0; int neg=0; u64 m;
	if(sgn&&(i64)v<0){ neg=1; m=-v; } else m=v;
	do { u64 b=base; t[n++]="0123456789abcdef"[m%b]; m/=b; } while(m);
	u64 len=n+neg;
	if(neg&&pad=='0') p[k++]='-';
	while(len<w){ p[k++]=pad; len++; }
	if(neg&&pad!='0') p[k++]='-';
	while(n) p[k++]=t[--n];
	return k;
}
