#include "ref.h"
u64 r_enc(u8*p,u32 c){
	if(c<0x80){ p[0]=c; return 1; }
	if(c<0x800){ p[0]=0xc0|(c>>6); p[1]=0x80|(c&63); return 2; }
	if(c<0x10000){ p[0]=0xe0|(c>>12); p[1]=0x80|((c>>6)&63); p[2]=0x80|(c&63); return 3; }
	p[0]=0xf0|(c>>18); p[1]=0x80|((c>>12)&63); p[2]=0x80|((c>>6)&63); p[3]=0x80|(c&63); return 4;
}
u64 r_dec(const u8*p,u64 n,u64*o){
	*o=0; if(!n) return 0xffffffff;
	*o=1;
	u32 c=p[0]; u64 len; u32 v;
	if(c<0x80) return c;
	if(c>=0xc0&&c<0xe0){ len=2; v=c&0x1f; } else if(c>=0xe0&&c<0xf0){ len=3; v=c&0xf; } else if(c>=0xf0&&c<0xf8){ len=4; v=c&7; } else return 0xffffffff;
	static const u32 mn[]={0,0,0x80,0x800,0x10000}; if(len>n) return 0xffffffff;
	for(u64 i=1;i<len;i++){ if((p[i]&0xc0)!=0x80) return 0xffffffff; v=v<<6|(p[i]&63); }
	if(v<mn[len]) return 0xffffffff; *o=len; return v;
}
