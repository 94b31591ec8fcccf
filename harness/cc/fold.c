#include <stdio.h>
#include "vcc.h"
#include "util.h"
#include "parse.h"
static const struct { Ty t; int bits, sgn; } TY[] = {{Tyint8,8,1},{Tyint16,16,1},{Tyint32,32,1},{Tyint,32,1},{Tyint64,64,1},{Tybyte,8,0},{Tyuint8,8,0},{Tyuint16,16,0},{Tyuint32,32,0},{Tyuint,32,0},{Tyuint64,64,0},{Tychar,32,0}};
#define N 12
static Srcloc L;
static u64 wrap(u64 v,int t){ int b=TY[t].bits; if(b==64) return v; v&=(1ULL<<b)-1; if(TY[t].sgn&&(v>>(b-1)&1)) v|=~0ULL<<b; return v; }
/* a literal as the front end makes it: within the range of its type */
static Node *lit(u64 v,int t){ Node *n=mkexpr(L,Olit,mkint(L,v),NULL); n->expr.type=mktype(L,TY[t].t); n->expr.args[0]->lit.type=n->expr.type; return n; }
static Node *op2(Op o,Node*a,Node*b,int t){ Node *n=mkexpr(L,o,a,b,NULL); n->expr.type=mktype(L,TY[t].t); return n; }
static Node *op1(Op o,Node*a,int t){ Node *n=mkexpr(L,o,a,NULL); n->expr.type=mktype(L,TY[t].t); return n; }
static u64 in(int t){ return wrap(TY[t].bits==8?vu8():TY[t].bits==16?vu16():TY[t].bits==32?vu32():vu64(),t); }
static u64 ref(int o,u64 a,u64 b,int t){
	u64 r; int s=TY[t].sgn;
	switch(o){ case 0:r=a+b;break; case 1:r=a-b;break; case 2:r=a*b;break; case 3: r=s?(u64)((long long)a/(long long)b):a/b; break; case 4: r=s?(u64)((long long)a%(long long)b):a%b; break;
	case 5:r=a&b;break; case 6:r=a|b;break; case 7:r=a^b;break; case 8:r=a<<b;break; case 9: r=s?(u64)((long long)a>>b):a>>b; break; default:r=0; }
	return wrap(r,t);
}
static const Op OPS[]={Oadd,Osub,Omul,Odiv,Omod,Oband,Obor,Obxor,Obsl,Obsr};
static void guard(int o,u64 a,u64 b,int t){
	if(o==3||o==4){ vassume(b!=0); if(TY[t].sgn) vassume(!(b==~0ULL&&a==wrap(1ULL<<(TY[t].bits-1),t))); }
	if(o==8||o==9) vassume(b<(u64)TY[t].bits);
}
/* the value the program sees: the node, if folding finished, widened to 64 bits by a cast */
static void seen(int id,Node *n,u64 want,int t){
	vlong v; Node *c,*f; f=fold(n,1);
	if(!getintlit(f,&v)) return;
	vcheck(id,wrap(v,t)==want);
	c=op1(Ocast,f,TY[t].sgn?4:10); f=fold(c,1);
	if(getintlit(f,&v)) vcheck(id+2,(u64)v==want);
}
void h_main(void){
	int k=vkase(),t=vpick(0,N-1),o=k-1; u64 a,b,c; Node*n,*m;
	if(k<=10){ a=in(t); b=in(t); guard(o,a,b,t);
		if(o==3||o==4){ /* division of symbolic by symbolic is only folded for narrow types here */ if(TY[t].bits>8){ static const u64 D[]={1,2,3,7,10,0x55,0x7f,~0ULL-2,~0ULL}; b=wrap(D[vpick(0,8)],t); guard(o,a,b,t);} }
		else if(o==2&&TY[t].bits==64&&vpick(0,1)) b=vpick(0,5);
		seen(k*10,op2(OPS[o],lit(a,t),lit(b,t),t),ref(o,a,b,t),t);
	} else if(k==11){ a=in(t); seen(110,op1(Oneg,lit(a,t),t),wrap(-a,t),t); }
	else if(k==12){ int u=vpick(0,N-1); a=in(t); seen(120,op1(Ocast,lit(a,t),u),wrap(a,u),u); }
	else if(k==13){ /* nested: cast((a op b) : u) op2 c */ int u=vpick(0,N-1); static const int O2[]={0,1,5,6,7,8,9}; int p=O2[vpick(0,6)]; o=O2[vpick(0,4)]; a=in(t); b=in(t); c=in(u); guard(p,0,c,u);
		n=op2(OPS[o],lit(a,t),lit(b,t),t); m=op2(OPS[p],op1(Ocast,n,u),lit(c,u),u); seen(130,m,ref(p,wrap(ref(o,a,b,t),u),c,u),u); }
	else if(k==14){ /* identities with a variable operand: the result is the variable or the constant it must equal */
		Node *d=mkdecl(L,mkname(L,"x"),mktype(L,TY[t].t)),*v=mkexpr(L,Ovar,mkname(L,"x"),NULL),*r; vlong lv; int side=vpick(0,1); o=vpick(0,9);
		v->expr.type=mktype(L,TY[t].t); v->expr.did=d->decl.did; a=in(t); b=in(t);   /* b: the variable's value */
		if(o==3||o==4){ if(!side) vassume(a!=0); if(side) vassume(b!=0); }
		if(o==3||o==4) b=side?wrap(3,t):wrap(77,t);
		if(o>=8){ if(side) b&=7; else a&=7; }
		if(o==2) b=wrap(0x5b,t);
		if(side==0&&(o==3||o==4)&&TY[t].sgn) vassume(a!=~0ULL);
		n=side?op2(OPS[o],lit(a,t),v,t):op2(OPS[o],v,lit(a,t),t); r=fold(n,0);
		if(r==v) vcheck(140,(side?ref(o,a,b,t):ref(o,b,a,t))==b);
		else if(getintlit(r,&lv)) vcheck(141,wrap(lv,t)==(side?ref(o,a,b,t):ref(o,b,a,t)));
	}
}
