#include "ref.h"
/* JSON: an independent recogniser writing a flat description of the value:
   n t f; d start len; s len bytes; [ values ]; { (len bytes value)* } */
static const u8*P;static u64 N,I,O;static u8*Q;
u8 jtext[4096];u64 jlen;
static u32 cp(u64*k){
	u8 b=P[I];u64 n=b<0x80?1:b>=0xc2&&b<0xe0?2:b>=0xe0&&b<0xf0?3:b>=0xf0&&b<0xf5?4:0;
	if(!n||n>N-I)return -1;
	u32 v=n==1?b:b&(0xff>>(n+1));
	for(u64 i=1;i<n;i++){if((P[I+i]&0xc0)!=0x80)return -1;v=v<<6|(P[I+i]&0x3f);}
	if((n==3&&v<0x800)||(n==4&&(v<0x10000||v>0x10ffff)))return -1;
	*k=n;return v;
}
static void ws(void){while(I<N&&(P[I]==' '||P[I]=='\t'||P[I]=='\n'||P[I]=='\r'))I++;}
static int hex(u32*o){
	u32 v=0;
	for(int i=0;i<4;i++){
		if(I==N)return 0;
		u8 c=P[I++];
		u32 dig=c-'0',up=c-'A',lo=c-'a';
		u8 ok=(dig<10)|(up<6)|(lo<6);
		if(!ok)return 0;
		v=v*16+(c&15)+(c>>6)*9;
	}
	*o=v;return 1;
}
static void putcp(u32 c){
	if(c<0x80){Q[O++]=c;return;}
	if(c<0x800){Q[O++]=0xc0|c>>6;Q[O++]=0x80|(c&63);return;}
	if(c<0x10000){Q[O++]=0xe0|c>>12;Q[O++]=0x80|(c>>6&63);Q[O++]=0x80|(c&63);return;}
	Q[O++]=0xf0|c>>18;Q[O++]=0x80|(c>>12&63);Q[O++]=0x80|(c>>6&63);Q[O++]=0x80|(c&63);
}
static int str(void){
	if(I==N||P[I]!='"')return 0;
	I++;
	u64 at=O++,st=O;
	while(I<N){
		u8 c=P[I];
		if(c=='"'){I++;Q[at]=O-st;return 1;}
		if(c=='\\'){
			I++;if(I==N)return 0;
			c=P[I++];
			if(c=='u'){
				u32 v,w;
				if(!hex(&v))return 0;
				if((v&0xfc00)==0xdc00)return 0;
				if((v&0xfc00)==0xd800){
					if(I+2>N||P[I]!='\\'||P[I+1]!='u')return 0;
					I+=2;
					if(!hex(&w)||(w&0xfc00)!=0xdc00)return 0;
					v=0x10000+((v&0x3ff)<<10)+(w&0x3ff);
				}
				putcp(v);
			}
			else if(c=='"'||c=='\\'||c=='/')Q[O++]=c;
			else if(c=='b')Q[O++]=8;
			else if(c=='n')Q[O++]=10;
			else if(c=='f')Q[O++]=12;
			else if(c=='r')Q[O++]=13;
			else if(c=='t')Q[O++]=9;
			else return 0;
			continue;
		}
		if(c<0x20)return 0;
		u64 k;
		if(cp(&k)==(u32)-1)return 0;
		while(k--)Q[O++]=P[I++];
	}
	return 0;
}
static int digs(void){u64 s=I;while(I<N&&(u8)(P[I]-'0')<10)I++;return I>s;}
static int depth;
static int lit(const char*s,u8 r){for(;*s;s++){if(I==N||P[I]!=(u8)*s)return 0;I++;}Q[O++]=r;return 1;}
static int val(void){
	ws();
	if(I==N)return 0;
	u8 c=P[I];
	if(c=='n')return lit("null",'n');
	if(c=='t')return lit("true",'t');
	if(c=='f')return lit("false",'f');
	if(c=='"'){Q[O++]='s';return str();}
	if(c=='['){
		if(++depth>1024)return 0;
		I++;Q[O++]='[';ws();
		if(I<N&&P[I]==']')I++;
		else for(;;){
			if(!val())return 0;
			ws();if(I==N)return 0;
			c=P[I++];
			if(c==']')break;
			if(c!=',')return 0;
		}
		Q[O++]=']';depth--;return 1;
	}
	if(c=='{'){
		if(++depth>1024)return 0;
		I++;Q[O++]='{';ws();
		if(I<N&&P[I]=='}')I++;
		else for(;;){
			ws();
			Q[O++]='s';
			if(!str())return 0;
			ws();if(I==N||P[I]!=':')return 0;
			I++;
			if(!val())return 0;
			ws();if(I==N)return 0;
			c=P[I++];
			if(c=='}')break;
			if(c!=',')return 0;
		}
		Q[O++]='}';depth--;return 1;
	}
	if(c=='-'||(u8)(c-'0')<10){
		u64 s=I;
		if(c=='-')I++;
		if(I<N&&P[I]=='0')I++;else if(!digs())return 0;
		if(I<N&&P[I]=='.'){I++;if(!digs())return 0;}
		if(I<N&&(P[I]=='e'||P[I]=='E')){I++;if(I<N&&(P[I]=='+'||P[I]=='-'))I++;if(!digs())return 0;}
		Q[O++]='d';Q[O++]=s;Q[O++]=I-s;return 1;
	}
	return 0;
}
/* -1: not JSON */
i64 r_json(const u8*p,u64 n,u8*o)__asm__("r_json");
i64 r_json(const u8*p,u64 n,u8*o){
	P=p;N=n;I=O=0;Q=o;depth=0;
	if(!val())return -1;
	ws();
	return I==N?(i64)O:-1;
}
/* texts: 1 = any byte, 2 = a structural character, 3 = a number character, 4 = an ASCII character, 5 = space or letter */
static u8 among(const char*s){
	u8 b=vu8();u8 ok=0;
	const char*t=s;for(;*s;s++)ok|=b==(u8)*s;
	vassume(ok);return *t=='-'?vconc(b):b;
}
u8*r_text(u64,u64*)__asm__("r_text");
static const char*const T[]={
	/*0*/"\4","\4\4","\"\1\1\"","\"\\\4\"","\"\\u\4\4\4\4\"","\"\\uD\4\0040\\uD\4\0040\"","\"a\1\1\1\"","\"\\uD8\4\\\4DC00\"",
	/*8*/"\2\2\2","\2\2\2\2","[\2,\2]","{\"a\":\2\2","{\"a\":1\2\2","{\"a\":{\"b\":1\2\2","[1\2\2\2","{\2\"\":1\2}",
	/*16*/"\3","\3\3","\3\3\3","\3\3\3\3","\3\3\3\3\3","1\3\3\3\3","[-\3\3\3]","-0.\3\3\3",
	/*24*/"\4rue","t\4ue","tr\4e","tru\4","n\4ll","nu\4l","nul\4","f\4lse",
	/*32*/"fa\4se","fal\4e","fals\4","true\4","null\4","false\4","\4null\4","\4[\0041\4]",
	/*40*/"[1\4,\0042]","{\4\"a\":\0041}","{\"a\"\4:1\4}","{\"a\":1,\4\"b\":2}","{\"a\":1\4,\"a\":[\4]\4}","\"\1\1","[[1],\2\2","{\"\1\":\2}",
	/*48*/"[{},[],\2\2]","\"\\u\0040\\u0\4\"","\"\\n\4\\t\"","[true,false,null,\"x\",\0041]","\2\2\2\2\2","\"\\u12\4","\"\1\1\1\1\"","{\"a\":[{\"b\":\2}],\2",
	/*56*/"{\"\\\4\":\"\\\4\"}","[\2\2,\2","\2\2\2\2\2\2","[[\2\2\2","{\"\":\2\2\2\2","\"\\uD8\4\4\\uDC\4\4\"",
};
u8*r_text(u64 k,u64*n){
	const char*s=T[k];u64 i;
	for(i=0;s[i];i++)switch(s[i]){
	case 1:jtext[i]=vu8();break;
	case 2:jtext[i]=among("{}[]:,\"\\ 1-an");break;
	case 3:jtext[i]=among("-019.eE+ ");break;
	case 4:jtext[i]=vu8();vassume(jtext[i]<128);break;
	default:jtext[i]=s[i];
	}
	*n=i;return jtext;
}
u8 r_utf8(const u8*p,u64 n)__asm__("r_utf8");
u8 r_utf8(const u8*p,u64 n){P=p;N=n;I=0;while(I<N){u64 k;if(cp(&k)==(u32)-1)return 0;I+=k;}return 1;}
