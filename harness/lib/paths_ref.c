#include "ref.h"
/* shortest path with the same meaning */
u64 r_norm(u8*o,const u8*p,u64 n){
	u64 st[40],en[40]; int d=0; int abs=n&&p[0]=='/'; u64 i=0;
	while(i<n){
		if(p[i]=='/'){ i++; continue; }
		u64 j=i; while(j<n&&p[j]!='/')j++;
		u64 l=j-i; int dot=l==1&&p[i]=='.',dd=l==2&&p[i]=='.'&&p[i+1]=='.';
		if(dot){} else if(dd&&d&&!(en[d-1]-st[d-1]==2&&p[st[d-1]]=='.'&&p[st[d-1]+1]=='.'))d--;
		else if(dd&&abs&&!d){}
		else { st[d]=i; en[d]=j; d++; }
		i=j;
	}
	u64 k=0; if(abs)o[k++]='/';
	for(int x=0;x<d;x++){ if(x)o[k++]='/'; for(u64 y=st[x];y<en[x];y++)o[k++]=p[y]; }
	if(!k)o[k++]='.';
	return k;
}
static u64 strip(const u8*p,u64 n){ while(n>1&&p[n-1]=='/')n--; return n; }
u64 r_dir(u8*o,const u8*p,u64 n){
	n=strip(p,n); u64 e=n; while(e>0&&p[e-1]!='/')e--;
	if(!e){ o[0]='.'; return 1; }
	if(e==1){ o[0]='/'; return 1; }
	for(u64 i=0;i<e-1;i++)o[i]=p[i]; return e-1;
}
u64 r_base(u8*o,const u8*p,u64 n){
	n=strip(p,n); u64 e=n; while(e>0&&p[e-1]!='/')e--;
	for(u64 i=e;i<n;i++)o[i-e]=p[i]; return n-e;
}
