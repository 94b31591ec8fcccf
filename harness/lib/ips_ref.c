#include "ref.h"
static int hv(u8 c){ if(c>='0'&&c<='9')return c-'0'; if(c>='a'&&c<='f')return c-'a'+10; if(c>='A'&&c<='F')return c-'A'+10; return -1; }
u8 r_ip4(u8*o,const u8*p,u64 n){
	u64 i=0; for(int k=0;k<4;k++){
		u64 b=i; u32 v=0; while(i<n&&p[i]!='.'){ if(p[i]<'0'||p[i]>'9')return 0; if(i-b>=4)return 0; v=v*10+(p[i]-'0'); i++; }
		if(i==b||v>255)return 0; o[k]=v;
		if(k<3){ if(i>=n)return 0; i++; }
	}
	return i==n;
}
u8 r_ip6(u8*o,const u8*p,u64 n){
	u64 i=0; int ng=0,sp=-1; u32 g[8];
	if(n>=2&&p[0]==':'&&p[1]==':'){ sp=0; i=2; if(n==2){ for(int k=0;k<16;k++)o[k]=0; return 1; } }
	for(;;){
		if(ng==8)return 0;
		u64 b=i; u32 v=0; while(i<n&&p[i]!=':'){ int h=hv(p[i]); if(h<0||i-b>=4)return 0; v=v*16+h; i++; }
		if(i==b)return 0; g[ng++]=v;
		if(i==n)break;
		i++; /* : */
		if(i==n)return 0;
		if(p[i]==':'){ if(sp>=0)return 0; sp=ng; i++; if(i==n)break; }
	}
	if(sp<0?ng!=8:ng>7)return 0;
	int z=8-ng,k=0; if(sp<0)z=0,sp=8;
	for(int j=0;j<8;j++){ u32 v; if(j>=sp&&j<sp+z)v=0; else v=g[k++]; o[2*j]=v>>8; o[2*j+1]=v; }
	return 1;
}
