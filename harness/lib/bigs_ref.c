#include "ref.h"
/* little endian digit arrays with 12 digits; schoolbook */
typedef struct { u32 d[12]; i64 s; } B;
static u64 top(const u32*d,u64 n){ while(n&&!d[n-1])n--; return n; }
/* |a| cmp |b| */
static int ucmp(const u32*a,const u32*b){ int r=0; for(int i=11;i>=0;i--)if(!r){ if(a[i]<b[i])r=-1; else if(a[i]>b[i])r=1; } return r; }
i64 rb_cmp(const u32*a,i64 sa,const u32*b,i64 sb){ if(sa!=sb)return sa<sb?-1:1; return sa*ucmp(a,b); }
void rb_uadd(u32*r,const u32*a,const u32*b){ u64 c=0; for(int i=0;i<12;i++){ u64 t=(u64)a[i]+b[i]+c; r[i]=t; c=t>>32; } }
void rb_usub(u32*r,const u32*a,const u32*b){ u64 c=0; for(int i=0;i<12;i++){ u64 t=(u64)a[i]-b[i]-c; r[i]=t; c=(t>>32)&1; } }
/* returns the sign */
i64 rb_add(u32*r,const u32*a,i64 sa,const u32*b,i64 sb){ if(!sa||!sb||sa==sb){ rb_uadd(r,a,b); return sa?sa:sb; }
	int c=ucmp(a,b); if(c>0){ rb_usub(r,a,b); return sa; } rb_usub(r,b,a); return c?sb:0; }
void rb_mul(u32*r,const u32*a,u64 na,const u32*b,u64 nb){ for(int i=0;i<12;i++)r[i]=0;
	for(u64 j=0;j<nb;j++){ u64 c=0; for(u64 i=0;i<na;i++){ u64 t=(u64)a[i]*b[j]+r[i+j]+c; r[i+j]=t; c=t>>32; } r[na+j]=c; } }
void rb_shl(u32*r,const u32*a,u64 s){ u64 o=s/32,k=s%32; for(int i=11;i>=0;i--){ u64 v=0; if((u64)i>=o)v=(u64)a[i-o]<<k; if(k&&(u64)i>=o+1)v|=a[i-o-1]>>(32-k); r[i]=v; } }
void rb_shr(u32*r,const u32*a,u64 s){ u64 o=s/32,k=s%32; for(int i=0;i<12;i++){ u64 v=0; if(i+o<12)v=a[i+o]>>k; if(k&&i+o+1<12)v|=(u64)a[i+o+1]<<(32-k); r[i]=v; } }
/* number equals digits: canonical form expected */
void rb_same(int id,const u32*g,u64 gn,i64 gs,const u32*r,i64 rs){ u64 n=0; vcheck(id,gn<=12); int z=1; for(int i=0;i<12;i++)if(r[i]){ n=i+1; z=0; }
	vcheck(id,gn==n); vcheck(id,gs==(z?0:rs)); for(u64 i=0;i<gn;i++)vcheck(id,g[i]==r[i]); }
