/* The tokenizer (parse/tok.c) and the expression grammar (parse/gram.y) against a reference. */
#include <stdio.h>
#include "vcc.h"
#include "util.h"
#include "parse.h"
#include "gram.h"
#define Long 1200
typedef struct { int type, line, kind, it; u64 v; u8 s[72]; int n; } RT;   /* kind: 0 none, 1 int, 2 char, 3 string, 4 name, 5 float */
File file; static u8 T[1600]; static int L; static RT rt[40]; static int nrt, rej;
extern char *fltbuf; extern double fltval_; void tokinit(char*); int yylex(void); int yyparse(void);
static void unspec(void){ vassume(0); }
static int at(int i){ return i<L?T[i]:-1; }
static int alpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
static int dig(int c){ return c>='0'&&c<='9'; }
static int hexv(int c){ return dig(c)?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static int blank(int c){ return c==' '||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
static int wordc(int c){ if(c=='$') unspec(); return alpha(c)||dig(c)||c=='_'; }
static const struct { const char *s; int t; } KW[]={{"_",Tgap},{"auto",Tauto},{"break",Tbreak},{"const",Tconst},{"continue",Tcontinue},{"elif",Telif},{"else",Telse},{"extern",Tattr},{"false",Tboollit},{"for",Tfor},{"generic",Tgeneric},{"goto",Tgoto},{"if",Tif},{"impl",Timpl},{"match",Tmatch},{"pkg",Tpkg},{"pkglocal",Tattr},{"sizeof",Tsizeof},{"struct",Tstruct},{"trait",Ttrait},{"true",Tboollit},{"type",Ttype},{"union",Tunion},{"use",Tuse},{"var",Tvar},{"void",Tvoidlit},{"while",Twhile},{0,0}};
static const struct { const char *s; int t; } OPT[]={{"...",Tellipsis},{"<<=",Tbsleq},{">>=",Tbsreq},{"::",Twith},{";;",Tendblk},{"+=",Taddeq},{"++",Tinc},{"-=",Tsubeq},{"--",Tdec},{"->",Tret},{"*=",Tmuleq},{"/=",Tdiveq},{"%=",Tmodeq},{"==",Teq},{"|=",Tboreq},{"||",Tlor},{"&=",Tbandeq},{"&&",Tland},{"^=",Tbxoreq},{"<=",Tle},{"<<",Tbsl},{">=",Tge},{">>",Tbsr},{"!=",Tne},
	{"{",Tobrace},{"}",Tcbrace},{"(",Toparen},{")",Tcparen},{"[",Tosqbrac},{"]",Tcsqbrac},{",",Tcomma},{"`",Ttick},{"#",Tderef},{"?",Tqmark},{":",Tcolon},{"~",Tbnot},{";",Tendln},{".",Tdot},{"+",Tplus},{"-",Tminus},{"*",Tmul},{"/",Tdiv},{"%",Tmod},{"=",Tasn},{"|",Tbor},{"&",Tband},{"^",Tbxor},{"<",Tlt},{">",Tgt},{"!",Tlnot},{0,0}};
static int utf8(u64 c,u8 *o){ if(c<0x80){ o[0]=c; return 1; } if(c<0x800){ o[0]=0xc0|c>>6; o[1]=0x80|(c&63); return 2; } if(c<0x10000){ o[0]=0xe0|c>>12; o[1]=0x80|(c>>6&63); o[2]=0x80|(c&63); return 3; } o[0]=0xf0|c>>18; o[1]=0x80|(c>>12&63); o[2]=0x80|(c>>6&63); o[3]=0x80|(c&63); return 4; }
/* an escape sequence at *i, after the backslash; false: rejected */
static int esc(int *i,u8 *o,int *n,u64 *v){ int c=at((*i)++); *n=1;
	switch(c){ case 'n': *v=10; break; case 'r': *v=13; break; case 't': *v=9; break; case 'b': *v=8; break; case 'v': *v=11; break; case '0': *v=0; break; case '"': case '\'': case '\\': *v=c; break;
	case 'x': { int a=hexv(at(*i)),b=hexv(at(*i+1)); if(a<0||b<0) return 0; *i+=2; *v=a*16+b; break; }
	case 'u': { int k=0; if(at(*i)!='{') return 0; ++*i; *v=0; while(hexv(at(*i))>=0){ *v=*v*16+hexv(at(*i)); ++*i; k++; if(*v>0x10ffff) return 0; } if(at(*i)!='}') return 0; ++*i; if(!k||(*v>=0xd800&&*v<0xe000)) unspec(); *n=utf8(*v,o); return 1; }
	default: return 0; } o[0]=*v; return 1; }
/* the tokens of the text, by the language's description; rej: the index of the first that is invalid, or -1 */
static void reflex(void){
	int i=0,line=1,k,c; nrt=0; rej=-1;
	if(at(0)=='#'&&at(1)=='!'){ if(L<3) unspec(); while(i<L&&T[i]!='\n') i++; if(i<L){ i++; line++; } }
	for(;;){ RT *t=&rt[nrt]; memset(t,0,sizeof *t);
		for(;;){
			c=at(i);
			if(blank(c)) i++;
			else if(c=='\\'){ int j=i+1; while(blank(at(j))) j++; if(at(j)!='\n') unspec(); i=j+1; line++; }
			else if(c=='/'&&at(i+1)=='*'){ int d=1; i+=2; while(d){ if(i>=L){ rej=nrt; return; } if(at(i)=='/'&&at(i+1)=='*'){ d++; i+=2; } else if(at(i)=='*'&&at(i+1)=='/'){ d--; i+=2; } else { if(at(i)=='\n') line++; i++; } } }
			else if(c=='/'&&at(i+1)=='/'){ while(i<L&&T[i]!='\n') i++; }
			else break;
		}
		t->line=line;
		if(c<0){ nrt++; return; }
		if(c=='\n'){ line++; i++; t->type=Tendln; t->line=0; }
		else if(c=='$'){ const char *s="$noret"; for(k=0;k<6;k++) if(at(i+k)!=s[k]) unspec(); if(wordc(at(i+6))) unspec(); i+=6; t->type=Tattr; }
		else if(alpha(c)||c=='_'){ int j=i; while(wordc(at(i))) i++; t->type=Tident; t->kind=4; t->n=i-j; if(t->n<=64) memcpy(t->s,T+j,t->n);
			for(k=0;KW[k].s;k++){ int m; for(m=0;KW[k].s[m]&&m<t->n&&(u8)KW[k].s[m]==t->s[m];m++); if(m==t->n&&!KW[k].s[m]) t->type=KW[k].t; } }
		else if(c=='"'){ i++; t->type=Tstrlit; t->kind=3; for(;;){ c=at(i++); if(c<0||c=='\n'){ rej=nrt; return; } if(c=='"') break; if(c=='\\'){ u8 o[4]; int n; u64 v; if(!esc(&i,o,&n,&v)){ rej=nrt; return; } for(k=0;k<n;k++) t->s[t->n++]=o[k]; } else t->s[t->n++]=c; } }
		else if(c=='\''){ u8 o[4]; int n; i++; t->type=Tchrlit; t->kind=2; c=at(i++); if(c<0||c=='\n'){ rej=nrt; return; }
			if(c=='\''||(c=='\\'&&0)) unspec();
			if(c=='\\'){ if(!esc(&i,o,&n,&t->v)){ rej=nrt; return; } }
			else if(c<0x80) t->v=c;
			else { int m=c>=0xc2&&c<0xe0?1:c>=0xe0&&c<0xf0?2:c>=0xf0&&c<0xf5?3:0; if(!m) unspec(); t->v=c&(m==1?31:m==2?15:7); for(k=0;k<m;k++){ c=at(i++); if(c<0x80||c>0xbf) unspec(); t->v=t->v<<6|(c&63); } if((m==2&&(t->v<0x800||(t->v>=0xd800&&t->v<0xe000)))||(m==3&&(t->v<0x10000||t->v>0x10ffff))) unspec(); }
			if(at(i++)!='\''){ rej=nrt; return; } }
		else if(dig(c)){ int base=10,flt=0,d=nrt&&rt[nrt-1].type==Tdot,nd=0,e=0,dots=0,un=0,over=0; u64 v=0;
			if(c=='0'&&(at(i+1)=='x'||at(i+1)=='o'||at(i+1)=='b')){ base=at(i+1)=='x'?16:at(i+1)=='o'?8:2; i+=2; }
			for(;;){ c=at(i);
				if(c=='_'){ i++; continue; }
				if(c=='.'&&!d){ if(base!=10||e||dots){ rej=nrt; return; } flt=1; dots++; t->s[t->n++]=c; i++; continue; }
				if(base==10&&(c=='e'||c=='E')){ if(d) unspec(); if(e||!nd){ rej=nrt; return; } e=1; flt=1; nd=0; t->s[t->n++]=c; i++; if(at(i)=='+'||at(i)=='-') t->s[t->n++]=at(i++); continue; }
				k=hexv(c); if(k<0||(base!=16&&k==11)) break; if(k>=base){ rej=nrt; return; }
				i++; nd++; if(t->n<64) t->s[t->n++]=c; { u64 w; over|=__builtin_mul_overflow(v,(u64)base,&w)|__builtin_add_overflow(w,(u64)k,&v); } }
			if(!nd){ rej=nrt; return; }
			if(flt){ if(hexv(c)==11) unspec(); t->type=Tfloatlit; t->kind=5; }
			else { t->type=Tintlit; t->kind=1; t->v=v; if(over){ rej=nrt; return; }
				if(at(i)=='u'||at(i)=='U'){ un=1; i++; }
				switch(at(i)){ case 'l': case 'L': t->it=un?Tyuint64:Tyint64; i++; break; case 'i': case 'I': t->it=un?Tyuint32:Tyint32; i++; break; case 's': case 'S': t->it=un?Tyuint16:Tyint16; i++; break; case 'b': case 'B': t->it=un?Tyuint8:Tyint8; i++; break;
				default: if(un){ rej=nrt; return; } } } }
		else if(c=='@'){ int j=++i; while(wordc(at(i))) i++; if(i==j){ rej=nrt; return; } t->type=Ttyparam; t->kind=4; t->n=i-j; if(t->n<=64) memcpy(t->s,T+j,t->n); }
		else { int b=-1,bl=0; for(k=0;OPT[k].s;k++){ int m; for(m=0;OPT[k].s[m]&&at(i+m)==OPT[k].s[m];m++); if(!OPT[k].s[m]&&m>bl){ bl=m; b=k; } } if(b<0){ rej=nrt; return; } t->type=OPT[b].t; i+=bl; }
		nrt++; if(nrt>=38) unspec();
	}
}
static int idx; static void onx(int c){ vcheck(1,c!=0); vcheck(2,idx==rej); vdone(); }
static void run(void){
	int k,t; reflex(); srctext=T; srclen=L; onexit_=onx; tokinit("x");
	for(idx=0;;idx++){ RT *r=&rt[idx]; t=yylex(); vcheck(3,idx!=rej); if(idx==rej) vdone(); vcheck(4,t==r->type); if(t!=r->type) vdone(); if(r->line) vcheck(5,curtok->loc.line==r->line);
		switch(r->kind){ case 1: vcheck(6,(u64)curtok->intval==r->v); vcheck(7,curtok->inttype==r->it); break; case 2: vcheck(8,curtok->chrval==r->v); break;
		case 3: vcheck(9,curtok->strval.len==r->n); if(curtok->strval.len==r->n) vcheck(10,veqmem((u8*)curtok->strval.buf,r->s,r->n)); break;
		case 4: k=strlen(curtok->id); vcheck(11,k==r->n); if(k==r->n&&k<=64) vcheck(12,veqmem((u8*)curtok->id,r->s,k)); break;
		case 5: k=strlen(fltbuf); vcheck(13,k==r->n); if(k==r->n) vcheck(14,veqmem((u8*)fltbuf,r->s,k)); vcheck(15,*(u64*)&curtok->fltval==*(u64*)&fltval_); }
		if(t==0) break; }
	vdone();
}
static void app(const char *s){ while(*s) T[L++]=*s++; }
static void sym(int n){ vbytes(T+L,n); L+=n; }
static void among(int n,const char *s){ while(n--){ T[L++]=s[vpick(0,strlen(s)-1)]; } }
static int set(int c,const char *s){ int ok=0; while(*s) ok|=c==(u8)*s++; return ok; }
static void cset(int n,const char *s){ while(n--){ T[L]=vu8(); vassume(set(T[L],s)); L++; } }

/* expressions: built as a tree of the operators' names, from a random token list, by precedence climbing */
typedef struct X { int op; struct X *a,*b,*c; int name; } X;
static X xs[64]; static int nx; static X *mk(int op,X*a,X*b,X*c,int name){ X*x=&xs[nx++]; x->op=op; x->a=a; x->b=b; x->c=c; x->name=name; return x; }
enum { XV=1000, XTERN, XCALL0, XCALL1, XCALL2, XIDX, XSL, XMEMB, XTUP, XUCON, XCAST };
static const struct { const char *s; int op,prec; } BO[]={{"<<",Obsl,9},{">>",Obsr,9},{"*",Omul,8},{"/",Odiv,8},{"%",Omod,8},{"+",Oadd,7},{"-",Osub,7},{"&",Oband,6},{"|",Obor,5},{"^",Obxor,5},{"==",Oeq,4},{"!=",One,4},{">",Ogt,4},{">=",Oge,4},{"<",Olt,4},{"<=",Ole,4},{"&&",Oland,3},{"||",Olor,2},{"?",0,1},{"=",Oasn,0},{"+=",Oaddeq,0},{"-=",Osubeq,0},{"*=",Omuleq,0},{"/=",Odiveq,0},{"%=",Omodeq,0},{"|=",Oboreq,0},{"^=",Obxoreq,0},{"&=",Obandeq,0},{"<<=",Obsleq,0},{">>=",Obsreq,0}};
#define NBO 30
static const struct { const char *s; int op; } PRE[]={{"",0},{"&",Oaddr},{"!",Olnot},{"~",Obnot},{"-",Oneg},{"+",-1},{"++",Opreinc},{"--",Opredec},{"`Tg",XUCON}};
static const struct { const char *s; int op; } POST[]={{"",0},{".m",XMEMB},{".1",XTUP},{"++",Opostinc},{"--",Opostdec},{"#",Oderef},{"[i]",XIDX},{"[i:j]",XSL},{"()",XCALL0},{"(i)",XCALL1},{"(i,j)",XCALL2}};
static X *var(int n){ return mk(XV,0,0,0,n); }
static int op[8],nop,pre[8][2],post[8][2],par; static X *leafx[8]; static int pos_;
static X *leaf(int k){ X*x=var('a'+k); int i; for(i=0;i<2;i++){ int p=POST[post[k][i]].op; if(p==XIDX||p==XCALL1) x=mk(p,x,var('i'),0,0); else if(p==XSL||p==XCALL2) x=mk(p,x,var('i'),var('j'),0); else if(p) x=mk(p,x,0,0,0); }
	for(i=1;i>=0;i--){ int p=PRE[pre[k][i]].op; if(p>0) x=mk(p,x,0,0,0); } return x; }
static X *climb(int min){ X*l=leaf(pos_++);
	while(pos_-1<nop&&BO[op[pos_-1]].prec>=min){ int o=op[pos_-1],p=BO[o].prec;
		if(BO[o].op==0){ X*m=climb(2),*r; if(pos_-1>=nop||op[pos_-1]!=-1) unspec(); r=climb(2); l=mk(XTERN,l,m,r,0); if(pos_-1<nop&&op[pos_-1]>=0&&BO[op[pos_-1]].op==0) unspec(); }
		else { X*r=climb(p==0?0:p+1); l=mk(BO[o].op,l,r,0,0); } }
	return l; }
/* precs of -1, the colon of a conditional, never bind */
static int same(Node *n,X *x){ Node **a; size_t na; if(!n||n->type!=Nexpr) return 0; a=n->expr.args; na=n->expr.nargs;
	switch(x->op){ case XV: return n->expr.op==Ovar&&a[0]->name.name[0]==x->name&&!a[0]->name.name[1];
	case XTERN: return n->expr.op==Otern&&na==3&&same(a[0],x->a)&&same(a[1],x->b)&&same(a[2],x->c);
	case XCALL0: return n->expr.op==Ocall&&na==1&&same(a[0],x->a); case XCALL1: return n->expr.op==Ocall&&na==2&&same(a[0],x->a)&&same(a[1],x->b); case XCALL2: return n->expr.op==Ocall&&na==3&&same(a[0],x->a)&&same(a[1],x->b)&&same(a[2],x->c);
	case XIDX: return n->expr.op==Oidx&&na==2&&same(a[0],x->a)&&same(a[1],x->b); case XSL: return n->expr.op==Oslice&&na==3&&same(a[0],x->a)&&same(a[1],x->b)&&same(a[2],x->c);
	case XMEMB: return n->expr.op==Omemb&&same(a[0],x->a)&&a[1]->name.name[0]=='m'; case XTUP: return n->expr.op==Otupmemb&&same(a[0],x->a)&&a[1]->lit.intval==1;
	case XUCON: return n->expr.op==Oucon&&na==2&&a[0]->name.name[0]=='T'&&same(a[1],x->a);
	default: return n->expr.op==x->op&&na==(x->b?2:1)&&same(a[0],x->a)&&(!x->b||same(a[1],x->b)); } }
static void onx2(int c){ vcheck(20,0); vdone(); }
static Node *parse(void){ Node *d; srctext=T; srclen=L; onexit_=onx2; tokinit("x"); vcheck(21,yyparse()==0); vcheck(22,file.nstmts==1); if(file.nstmts!=1) vdone(); d=file.stmts[0]; vcheck(23,d->type==Ndecl); return d->decl.init; }
static void text(void){ int k,i; app("const x = "); for(k=0;k<=nop;k++){ for(i=0;i<2;i++){ app(PRE[pre[k][i]].s); app(" "); } T[L++]='a'+k; for(i=0;i<2;i++){ app(POST[post[k][i]].s); app(" "); } if(k<nop){ app(op[k]<0?":":BO[op[k]].s); app(" "); } } app("\n"); }
static void tree(int id){ Node *n; X *x; text(); x=climb(0); if(pos_!=nop+1) unspec(); n=parse(); vcheck(id,same(n,x)); vdone(); }
/* hexadecimal digits, by class: every value of each */
static void hexd(int n){ int up=n<=2; while(n--){ int c=vpick(0,1+up); T[L++]=c==0?vrange('0','9'):c==1?vrange('a','f'):vrange('A','F'); } }
static const char *ops="{}()[],`#?:~;.+-*/%=|&^<>!";
void h_main(void){
	int k=vkase(),n,i; static char *fn[]={"x"}; file.files=fn; file.nfiles=1; if(k>20) initfile(&file,"x");   /* before the paths fork */
	switch(k){
	case 1: sym(vpick(0,2)); run();
	case 34: sym(3); run();
	case 35: cset(6,"0123456789.eE+-_"); run();
	case 36: app("x"); cset(4,ops); app("y"); run();
	case 2: { static const char *P[]={"","0x","0o","0b"}; app(P[vpick(0,3)]); cset(3,"0123456789abcdefABCDEF_.uUlLiIsS+; "); run(); }
	case 3: { int b=vpick(0,7); static const char *P[]={"18446744073709","1844674407370955161","","0xffffffffffff","0x","0o1777777777777777777","0b1","0x0000"}; static const char *Q[]={"","","000000000000000000","","00000000000000","","111111111111111111111111111111111111111111111111111111111111111","0123456789abcdef"}; static const int N[]={6,2,2,4,3,4,0,0};
		app(P[b]); for(i=0;i<N[b];i++) T[L++]=b==4?(i?vrange('0','9'):vrange('a','f')):vrange('0',b==5?'7':'9'); app(Q[b]); if(vpick(0,1)) app("0"); run(); }
	case 4: cset(1,"0123456789"); cset(4,"0123456789.eE+-_"); run();
	case 5: app("\""); sym(3); app("\" 1"); run();
	case 6: app("\"a\\"); sym(3); app("b\" 1"); run();
	case 7: app("\"\\u{"); n=vpick(0,6); hexd(n); app("}\""); run();
	case 8: app("'"); sym(vpick(1,4)); app("' 1"); run();
	case 9: app("'\\"); sym(vpick(1,2)); app("'"); run();
	case 10: app("'\\u{"); n=vpick(0,6); hexd(n); app("}'"); run();
	case 11: case 31: app("a "); cset(k==31?6:5,"/*\n\"a"); app(" b */ c\nd"); run();
	case 12: app("a \\"); cset(4,"\\\n /a*"); app("b"); run();
	case 13: cset(vpick(1,4),"abcdefghijklmnopqrstuvwxyzAZ_09"); app(" x"); run();
	case 14: { const char *s; k=vpick(0,26); s=KW[k].s; n=strlen(s); app(s); i=vpick(0,n+1); if(i<n) T[i]=vu8(); else if(i==n) T[L++]=vu8(); else L--; app(" x"); run(); }
	case 15: app("x"); cset(3,ops); app("y"); run();
	case 16: { static const int N[]={1,16,64,255,256,1022,1023,1024,1025,1100}; n=N[vpick(0,9)]; i=vpick(0,1); if(i) app("@"); for(k=0;k<n;k++) T[L++]='a'+k%26; app("\n"); if(n<=256) run(); reflex(); srctext=T; srclen=L; onexit_=vdone; tokinit("x"); yylex(); vcheck(30,strlen(curtok->id)==n); vdone(); }
	case 17: app("t."); cset(3,"01.a_e"); app(" 1.5"); run();
	case 18: app("#!"); cset(3,"\n #!a"); app("b\nc"); run();
	case 19: app("@"); cset(3,"ab_@0 "); run();
	case 20: app("$noret"); cset(1," \n;{"); app("a"); run();
	/* binary operators: every two, every three */
	case 21: nop=2; op[0]=vpick(0,NBO-1); op[1]=vpick(0,NBO-1); if(BO[op[0]].op==0||BO[op[1]].op==0) unspec(); tree(40);
	case 22: nop=3; for(i=0;i<3;i++){ static const int R[]={0,2,5,7,8,10,16,17,19,20}; op[i]=R[vpick(0,9)]; } tree(41);
	case 23: nop=3; i=vpick(0,1); op[0]=i?vpick(0,NBO-1):18; op[1]=i?18:-1; op[2]=i?-1:vpick(0,NBO-1); if(BO[op[i?0:2]].op==0) unspec(); tree(42);
	case 24: case 32: nop=1; op[0]=vpick(0,NBO-1); if(BO[op[0]].op==0) unspec(); i=k==32?2:vpick(0,1); pre[0][0]=vpick(0,8); if(i!=0) post[0][0]=vpick(0,10); if(i!=1) pre[1][0]=vpick(0,8); tree(43);
	case 25: case 33: nop=0; i=k==33?2:vpick(0,1); pre[0][0]=vpick(0,8); if(i!=0) pre[0][1]=vpick(0,8); post[0][0]=vpick(0,10); if(i!=1) post[0][1]=vpick(0,10); tree(44);
	case 26: { /* parentheses */ Node *m; X *x; const char *o1=BO[(i=vpick(0,NBO-1))].s; int j=vpick(0,NBO-1); n=vpick(0,1); if(!BO[i].op||!BO[j].op) unspec(); app("const x = "); if(n) app("("); app("a "); app(o1); app(n?" b) ":" (b "); app(BO[j].s); app(n?" c\n":" c)\n"); m=parse();
		x=n?mk(BO[j].op,mk(BO[i].op,var('a'),var('b'),0,0),var('c'),0,0):mk(BO[i].op,var('a'),mk(BO[j].op,var('b'),var('c'),0,0),0,0); vcheck(45,same(m,x)); vdone(); }
	case 27: { /* literals reach the tree; adjacent strings are joined */ Node *m; u8 want[16]; int w=0; app("const x = \""); n=vpick(0,2); for(i=0;i<n;i++){ T[L]=vu8(); vassume(T[L]!='"'&&T[L]!='\\'&&T[L]!='\n'); want[w++]=T[L++]; } app("\" \\\n \""); n=vpick(0,2); for(i=0;i<n;i++){ T[L]=vu8(); vassume(T[L]!='"'&&T[L]!='\\'&&T[L]!='\n'); want[w++]=T[L++]; } app("\"\"z\"\n"); want[w++]='z';
		m=parse(); vcheck(46,m->expr.op==Olit&&m->expr.args[0]->lit.littype==Lstr); m=m->expr.args[0]; vcheck(47,m->lit.strval.len==w&&veqmem((u8*)m->lit.strval.buf,want,w)); vdone(); }
	case 28: { /* a literal with a suffix has the type, without none */ Node *m; static const char *S[]={"","b","s","i","l","ub","us","ui","ul"}; static const int Y[]={0,Tyint8,Tyint16,Tyint32,Tyint64,Tyuint8,Tyuint16,Tyuint32,Tyuint64}; i=vpick(0,8); n=vpick(0,99); app("const x = "); T[L++]='0'+n/10; T[L++]='0'+n%10; app(S[i]); app("\n"); m=parse(); vcheck(48,m->expr.op==Olit&&m->expr.args[0]->lit.littype==Lint); m=m->expr.args[0]; vcheck(49,m->lit.intval==n&&(i?m->lit.type&&m->lit.type->type==Y[i]:!m->lit.type)); vdone(); }
	case 29: { Node *m; app("const x = '"); T[L]=vu8(); vassume(T[L]!='\''&&T[L]!='\\'&&T[L]!='\n'&&T[L]<0x80); n=T[L++]; app("'\n"); m=parse(); m=m->expr.args[0]; vcheck(50,m->lit.littype==Lchr&&m->lit.chrval==n); vdone(); }
	case 30: { Node *m; i=vpick(0,2); app("const x = "); app(i==0?"true":i==1?"false":"void"); app("\n"); m=parse()->expr.args[0]; vcheck(51,i==2?m->lit.littype==Lvoid:m->lit.littype==Lbool&&m->lit.boolval==(i==0)); vdone(); }
	}
}
