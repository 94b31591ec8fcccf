#include "ref.h"
static int dig(u8 c){ if(c>='0'&&c<='9')return c-'0'; if(c>='a'&&c<='z')return c-'a'+10; if(c>='A'&&c<='Z')return c-'A'+10; return 99; }
u64 r_parse(const u8*p,u64 n,i64 base,u64 bits,u64*o){
	int neg=0; u64 v=0,nd=0,i=0;
	if(n&&p[0]=='-'){ neg=1; i=1; }
	if(base==0){ base=10; if(n>=i+2&&p[i]=='0'){ if(p[i+1]=='x'){base=16;i+=2;} else if(p[i+1]=='o'){base=8;i+=2;} else if(p[i+1]=='b'){base=2;i+=2;} } }
	for(;i<n;i++){ if(p[i]=='_')continue; int d=dig(p[i]); if(d>=base)return 0; if(bits==32)v=(u32)((u32)v*(u32)base+(u32)d); else v=v*base+d; nd++; }
	if(!nd)return 0;
	*o=neg?(bits==32?(u32)-(u32)v:-v):v; return 1;
}
