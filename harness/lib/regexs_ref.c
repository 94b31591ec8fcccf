#include "ref.h"
/* regular expressions: an independent parser, a matcher on sets of positions, and a backtracking one for captures */
enum{CHR,RNG,ALT,CAT,STAR,PLUS,QUEST,BOL,EOL,BOW,EOW,CAP};
static struct node{int k,a,b,lazy,nullable,nr;u32 lo[12],hi[12];}N[64];
static int nn,ncap,err,amb;
static const u8*P;static u64 PL,I;
static const u8*T;static u64 L;
static int mk(int k,int a,int b){N[nn].k=k;N[nn].a=a;N[nn].b=b;N[nn].nr=0;N[nn].lazy=0;return nn++;}
static u64 dec(const u8*p,u64 n,u32*c){
	u8 b=p[0];u64 k=b<0x80?1:b>=0xc2&&b<0xe0?2:b>=0xe0&&b<0xf0?3:b>=0xf0&&b<0xf5?4:0;
	if(!k||k>n)return 0;
	u32 v=k==1?b:b&(0xff>>(k+1));for(u64 i=1;i<k;i++){if((p[i]&0xc0)!=0x80)return 0;v=v<<6|(p[i]&0x3f);}
	if((k==3&&v<0x800)||(k==4&&(v<0x10000||v>0x10ffff)))return 0;
	*c=v;return k;
}
static u32 get(void){u32 c;u64 k=dec(P+I,PL-I,&c);if(!k){err=1;I=PL;return 0;}I+=k;return c;}
static int is(u8 c){if(I<PL&&P[I]==c){I++;return 1;}return 0;}
static void add(int n,u32 lo,u32 hi){int k=N[n].nr++;N[n].lo[k]=lo;N[n].hi[k]=hi;}
/* the class as sorted disjoint ranges, possibly negated */
static void norm(int n,int neg){
	struct node*x=&N[n];
	for(int i=1;i<x->nr;i++)for(int j=i;j&&x->lo[j]<x->lo[j-1];j--){u32 t=x->lo[j];x->lo[j]=x->lo[j-1];x->lo[j-1]=t;t=x->hi[j];x->hi[j]=x->hi[j-1];x->hi[j-1]=t;}
	if(!neg)return;
	u32 lo[12],hi[12];int m=0;u32 s=0;
	for(int i=0;i<x->nr;i++){if(x->lo[i]>s){lo[m]=s;hi[m++]=x->lo[i]-1;}if(x->hi[i]+1>s)s=x->hi[i]+1;}
	if(s<=0x10ffff){lo[m]=s;hi[m++]=0x10ffff;}
	x->nr=m;for(int i=0;i<m;i++){x->lo[i]=lo[i];x->hi[i]=hi[i];}
}
static int alt(void);
static int cls(u8 c){
	int n=mk(RNG,0,0);u8 l=c|0x20;
	switch(l){
	case 'd':add(n,'0','9');break;
	case 'x':add(n,'0','9');add(n,'A','F');add(n,'a','f');break;
	case 's':add(n,9,13);add(n,' ',' ');break;
	case 'w':add(n,'0','9');add(n,'A','Z');add(n,'_','_');add(n,'a','z');break;
	default:add(n,9,9);add(n,' ',' ');
	}
	norm(n,c!=l);return n;
}
static int esc(void){
	if(I==PL){err=1;return 0;}
	u32 c=get();if(err)return 0;
	switch(c){
	case 'd':case 'x':case 's':case 'w':case 'h':case 'D':case 'X':case 'S':case 'W':case 'H':return cls(c);
	case '<':return mk(BOW,0,0);case '>':return mk(EOW,0,0);
	case '^':case '$':case '.':case '+':case '?':case '*':case '|':case '(':case ')':case '[':case ']':case '\\':return mk(CHR,c,0);
	case 'r':return mk(CHR,13,0);case 'n':return mk(CHR,10,0);case 'b':return mk(CHR,8,0);
	case 'u':{u32 v=0;if(!is('{')){err=1;return 0;}
		for(;I<PL;I++){u8 d=P[I];if(d>='0'&&d<='9')v=v*16+d-'0';else if(d>='a'&&d<='f')v=v*16+d-'a'+10;else if(d>='A'&&d<='F')v=v*16+d-'A'+10;else break;if(v>0x10ffff){err=1;return 0;}}
		if(!is('}')){err=1;return 0;}return mk(CHR,v,0);}
	}
	err=1;return 0;
}
static int base(void){
	if(P[I]=='*'||P[I]=='+'||P[I]=='?'){err=1;return 0;}
	if(is('[')){
		int n=mk(RNG,0,0),neg=is('^');
		do{ if(I==PL)break; u32 lo=get(),hi=lo;if(is('-')){if(I==PL)break;hi=get();}add(n,lo<hi?lo:hi,lo<hi?hi:lo);}while(I<PL&&P[I]!=']');
		if(!is(']')){err=1;return 0;}
		norm(n,neg);return n;
	}
	if(is('^'))return mk(BOL,0,0);
	if(is('$'))return mk(EOL,0,0);
	if(is('.')){int n=mk(RNG,0,0);add(n,0,0x10ffff);return n;}
	if(is('(')){
		int m=0;if(is('?')){if(!is(':')){err=1;return 0;}}else m=++ncap;
		int n=alt();if(err)return 0;if(!is(')')){err=1;return 0;}
		return m?mk(CAP,n,m):n;
	}
	if(is('\\'))return esc();
	return mk(CHR,get(),0);
}
static int rep(void){
	int n=base();if(err)return 0;
	if(is('*')){n=mk(STAR,n,0);N[n].lazy=is('?');}
	else if(is('+')){n=mk(PLUS,n,0);N[n].lazy=is('?');}
	else if(is('?'))n=mk(QUEST,n,0);
	return n;
}
static int cat(void){
	if(I==PL||P[I]=='|'||P[I]==')'){err=1;return 0;}
	int n=rep();if(err)return 0;
	if(I<PL&&P[I]!='|'&&P[I]!=')'){int m=cat();if(err)return 0;n=mk(CAT,n,m);}
	return n;
}
static int alt(void){int n=cat();if(err)return 0;if(is('|')){int m=alt();if(err)return 0;n=mk(ALT,n,m);}return n;}
static int root;
static int nul(int n){
	struct node*x=&N[n];int r=0;
	switch(x->k){
	case CHR:case RNG:r=0;break;
	case ALT:r=nul(x->a);r|=nul(x->b);break;
	case CAT:r=nul(x->a);r&=nul(x->b);break;
	case STAR:amb|=nul(x->a);r=1;break;
	case PLUS:r=nul(x->a);amb|=r;break;
	case QUEST:nul(x->a);r=1;break;
	case CAP:r=nul(x->a);break;
	default:r=1;
	}
	return r;
}
/* number of groups including the whole match, or 0 if malformed */
u64 r_parse(const u8*p,u64 n){P=p;PL=n;I=0;nn=ncap=err=amb=0;root=alt();if(I!=PL)err=1;if(err)return 0;nul(root);return ncap>15?0:ncap+1;}
/* whether a repeated part can be empty (captures are then not compared) */
u8 r_amb(void){return amb;}
void r_text(const u8*t,u64 n){T=t;L=n;}
static u8 word(u64 i){u8 c=T[i];u8 l=c|0x20;return ((u8)(l-'a')<26)|((u8)(c-'0')<10)|(c=='_');}
static u8 at(int k,u64 i){
	switch(k){
	case BOL:return i==0?1:T[i-1]==10;
	case EOL:return i==L?1:T[i]==10;
	case BOW:return i<L?word(i)&(i?word(i-1)^1:1):0;
	default:return i?word(i-1)&(i<L?word(i)^1:1):0;
	}
}
/* whether the character of a range of some encoded length is at i */
static u8 rng(struct node*x,u64 i,u64 k){
	u8 b=T[i],ok;u32 v;
	if(i+k>L)return 0;
	if(k==1){ok=b<0x80;v=b;}
	else{
		ok=k==2?(b>=0xc2)&(b<0xe0):k==3?(b>>4)==0xe:(b>=0xf0)&(b<0xf5);v=b&(0xff>>(k+1));
		for(u64 j=1;j<k;j++){ok&=(T[i+j]&0xc0)==0x80;v=v<<6|(T[i+j]&0x3f);}
		if(k==3)ok&=v>=0x800;
		if(k==4)ok&=(v>=0x10000)&(v<=0x10ffff);
	}
	u8 in=0;for(int r=0;r<x->nr;r++)in|=(v>=x->lo[r])&(v<=x->hi[r]);
	return ok&in;
}
static u64 enc(u32 c,u8*o){if(c<0x80){o[0]=c;return 1;}if(c<0x800){o[0]=0xc0|c>>6;o[1]=0x80|(c&63);return 2;}if(c<0x10000){o[0]=0xe0|c>>12;o[1]=0x80|(c>>6&63);o[2]=0x80|(c&63);return 3;}o[0]=0xf0|c>>18;o[1]=0x80|(c>>12&63);o[2]=0x80|(c>>6&63);o[3]=0x80|(c&63);return 4;}
static u8 lit(u32 c,u64 i,u64*k){u8 o[4],r=1;*k=enc(c,o);if(i+*k>L)return 0;for(u64 j=0;j<*k;j++)r&=T[i+j]==o[j];return r;}
/* the positions at which a match starting at one of s can end */
static u32 ends(int n,u32 s){
	struct node*x=&N[n];u32 r=0,p;u64 k;
	switch(x->k){
	case CHR:for(u64 i=0;i<L;i++){u8 m=lit(x->a,i,&k);r|=(s>>i&1&m)<<(i+k);}return r;
	case RNG:for(u64 i=0;i<L;i++)for(k=1;k<=4;k++)if(i+k<=L)r|=(s>>i&1&rng(x,i,k))<<(i+k);return r;
	case ALT:return ends(x->a,s)|ends(x->b,s);
	case CAT:return ends(x->b,ends(x->a,s));
	case STAR:r=s;for(u64 i=0;i<L;i++)r|=ends(x->a,r);return r;
	case PLUS:r=p=ends(x->a,s);for(u64 i=0;i<L;i++)r|=ends(x->a,r);return r;
	case QUEST:return s|ends(x->a,s);
	case CAP:return ends(x->a,s);
	default:for(u64 i=0;i<=L;i++)r|=(s>>i&1&at(x->k,i))<<i;return r;
	}
}
u32 r_ends(u64 i){return ends(root,1u<<i);}
/* captures: the first match in order of priority, by backtracking over a program */
static struct{int op,a,b;}C[160];static int pc;
enum{JMP=100,SPLIT,SAVE,DONE};
static int em(int op,int a,int b){C[pc].op=op;C[pc].a=a;C[pc].b=b;return pc++;}
static void gen(int n){
	struct node*x=&N[n];int p,q;
	switch(x->k){
	case ALT:p=em(SPLIT,0,0);C[p].a=pc;gen(x->a);q=em(JMP,0,0);C[p].b=pc;gen(x->b);C[q].a=pc;break;
	case CAT:gen(x->a);gen(x->b);break;
	case PLUS:gen(x->a);
	case STAR:p=em(SPLIT,0,0);q=pc;gen(x->a);em(JMP,p,0);C[p].a=x->lazy?pc:q;C[p].b=x->lazy?q:pc;break;
	case QUEST:p=em(SPLIT,0,0);C[p].a=pc;gen(x->a);C[p].b=pc;break;
	case CAP:em(SAVE,2*x->b,0);gen(x->a);em(SAVE,2*x->b+1,0);break;
	default:em(x->k,n,0);
	}
}
static u8 seen[160][8];static u64 stop;static i64*cap;
static int run(int p,u64 i){
	for(;;){
		if(seen[p][i])return 0;
		seen[p][i]=1;
		struct node*x=&N[C[p].a];u64 k;i64 o;
		switch(C[p].op){
		case JMP:p=C[p].a;continue;
		case SPLIT:if(run(C[p].a,i))return 1;p=C[p].b;continue;
		case SAVE:o=cap[C[p].a];cap[C[p].a]=i;if(run(p+1,i))return 1;cap[C[p].a]=o;return 0;
		case DONE:return i==stop;
		case CHR:if(i<L&&lit(x->a,i,&k)){i+=k;p++;continue;}return 0;
		case RNG:for(k=1;k<=4;k++)if(i+k<=L&&i<L&&rng(x,i,k))break;if(k>4)return 0;i+=k;p++;continue;
		default:if(!at(x->k,i))return 0;p++;continue;
		}
	}
}
u8 r_caps(u64 i,u64 e,i64*o){
	pc=0;gen(root);em(DONE,0,0);
	for(int p=0;p<pc;p++)for(u64 j=0;j<=L;j++)seen[p][j]=0;
	for(int j=0;j<2*ncap+2;j++)o[j]=-1;
	stop=e;cap=o;o[0]=i;o[1]=e;return run(0,i);
}
