#include "ref.h"
void x_m(const u8*p,u64 n);
static u64 po[64],pl[64],pn;
u64 r_off(u64 i){ return po[i]; } u64 r_len(u64 i){ return pl[i]; }
static int at(const u8*h,u64 hn,u64 i,const u8*n,u64 nn){ if(i+nn>hn)return 0; for(u64 j=0;j<nn;j++)if(h[i+j]!=n[j])return 0; return 1; }
i64 r_find(const u8*h,u64 hn,const u8*n,u64 nn,u64 back){ if(nn>hn)return -1;
	if(!back){ for(i64 i=0;i<=(i64)(hn-nn);i++)if(at(h,hn,i,n,nn))return i; } else for(i64 i=hn-nn;i>=0;i--)if(at(h,hn,i,n,nn))return i;
	return -1; }
u64 r_split(const u8*h,u64 hn,const u8*n,u64 nn,u64 max){ pn=0; if(!hn)return 0; u64 s=0;
	while(pn+1<max){ i64 i=-1; for(u64 k=s;k+nn<=hn;k++)if(at(h,hn,k,n,nn)){i=k;break;} if(i<0)break; po[pn]=s; pl[pn++]=i-s; s=i+nn; }
	po[pn]=s; pl[pn++]=hn-s; return pn; }
static u64 dec(const u8*p,u64 n,u64*o){ *o=1; u32 c=p[0],v,len; if(c<0x80)return c; static const u32 mn[]={0,0,0x80,0x800,0x10000};
	if(c>=0xc0&&c<0xe0){len=2;v=c&0x1f;} else if(c>=0xe0&&c<0xf0){len=3;v=c&0xf;} else if(c>=0xf0&&c<0xf8){len=4;v=c&7;} else return 0xffffffff;
	if(len>n)return 0xffffffff; for(u32 i=1;i<len;i++){ if((p[i]&0xc0)!=0x80)return 0xffffffff; v=v<<6|(p[i]&63);} if(v<mn[len])return 0xffffffff; *o=len; return v; }
static int sp(u32 c){ return c=='\n'||c=='\t'||c==' '||c==0x85||c==0xa0||c==0x1680||c==0x180e||(c>=0x2000&&c<=0x200b)||c==0x2028||c==0x2029||c==0x202f||c==0x205f||c==0x3000||c==0xfeff; }
u64 r_tok(const u8*h,u64 hn,u64 max){ pn=0; u64 i=0,o;
	for(;;){ while(i<hn&&sp(dec(h+i,hn-i,&o)))i+=o; if(i>=hn)return pn; 
		if(pn+1==max){ u64 e=hn; while(e>i&&sp(h[e-1]))e--; po[pn]=i; pl[pn++]=e-i; return pn; }
		u64 s=i; while(i<hn&&!sp(dec(h+i,hn-i,&o)))i+=o; po[pn]=s; pl[pn++]=i-s; } }
void r_strip(const u8*h,u64 n,u64 mode,u64*lo,u64*hi){ u64 a=0,b=n; 
	if(mode!=2)while(a<b&&h[a]!='\n'&&sp(h[a]))a++;
	if(mode!=1)while(b>a&&sp(h[b-1]))b--; *lo=a; *hi=b; }
i64 r_cmp(const u8*a,u64 an,const u8*b,u64 bn,u64 max,u64 fold){ if(an>max)an=max; if(bn>max)bn=max;
	for(u64 i=0;i<an&&i<bn;i++){ int x=a[i],y=b[i]; if(fold){ if(x>='a'&&x<='z')x-=32; if(y>='a'&&y<='z')y-=32; } if(x<y)return -1; if(x>y)return 1; }
	return an<bn?-1:an>bn?1:0; }
void r_repl(const u8*h,u64 hn,const u8*n,u64 nn,const u8*r,u64 rn){ u64 i=0; while(i<hn){ if(at(h,hn,i,n,nn)){ x_m(r,rn); i+=nn; } else { x_m(h+i,1); i++; } } }
