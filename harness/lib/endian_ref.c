#include "ref.h"
static u64 rl(u64 x,int n){ return x<<n|x>>(64-n); }
u64 r_sip(const u8*p,u64 n,const u8*k){
	u64 k0=0,k1=0; for(int i=0;i<8;i++){ k0|=(u64)k[i]<<(8*i); k1|=(u64)k[8+i]<<(8*i); }
	u64 a=0x736f6d6570736575ull^k0,b=0x646f72616e646f6dull^k1,c=0x6c7967656e657261ull^k0,d=0x7465646279746573ull^k1;
#define RD a+=b;b=rl(b,13);b^=a;a=rl(a,32);c+=d;d=rl(d,16);d^=c;a+=d;d=rl(d,21);d^=a;c+=b;b=rl(b,17);b^=c;c=rl(c,32);
	u64 m=0,i;
	for(i=0;i<n;i++){ m|=(u64)p[i]<<(8*(i&7)); if((i&7)==7){ d^=m; RD RD a^=m; m=0; } }
	m|=n<<56; d^=m; RD RD a^=m; c^=0xff; RD RD RD RD
	return a^b^c^d;
}
