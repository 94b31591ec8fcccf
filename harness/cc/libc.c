/* The part of libc that the compiler's own C code uses, freestanding, so that its functions can be
executed symbolically.  exit() and abort() end the path as an abort; stdio output is dropped. */
typedef unsigned long size_t; typedef unsigned char u8;
typedef __builtin_va_list va_list;
void vabort(void);
static u8 heap[24<<20] __attribute__((aligned(16))); static size_t hp;
void *malloc(size_t n){ size_t *p; n=(n+31)&~15UL; if(hp+n>sizeof heap) vabort(); p=(size_t*)(heap+hp); hp+=n; p[0]=n-16; return p+2; }
void free(void *p){ (void)p; }
void *memset(void *d,int c,size_t n){ u8*a=d; while(n--)*a++=c; return d; }
void *memcpy(void *d,const void *s,size_t n){ u8*a=d; const u8*b=s; while(n--)*a++=*b++; return d; }
void *memmove(void *d,const void *s,size_t n){ u8*a=d; const u8*b=s; if(a<b) while(n--)*a++=*b++; else while(n--) a[n]=b[n]; return d; }
void *calloc(size_t n,size_t m){ return malloc(n*m); }   /* the heap is zero and never reused */
void *realloc(void *p,size_t n){ void*q=malloc(n); if(p){ size_t o=((size_t*)p)[-2]; memcpy(q,p,o<n?o:n);} return q; }
int memcmp(const void *x,const void *y,size_t n){ const u8*a=x,*b=y; for(;n--;a++,b++) if(*a!=*b) return *a<*b?-1:1; return 0; }
size_t strlen(const char *s){ size_t n=0; while(s[n])n++; return n; }
int strcmp(const char *a,const char *b){ while(*a&&*a==*b)a++,b++; return *(u8*)a-*(u8*)b; }
int strncmp(const char *a,const char *b,size_t n){ for(;n--;a++,b++){ if(*a!=*b) return *(u8*)a-*(u8*)b; if(!*a) break; } return 0; }
char *strdup(const char *s){ size_t n=strlen(s)+1; return memcpy(malloc(n),s,n); }
char *strchr(const char *s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char *strrchr(const char *s,int c){ char*r=0; for(;;s++){ if(*s==(char)c) r=(char*)s; if(!*s) return r; } }
char *strstr(const char *h,const char *n){ size_t k=strlen(n); for(;*h;h++) if(!strncmp(h,n,k)) return (char*)h; return k?0:(char*)h; }
char *strcpy(char *d,const char *s){ memcpy(d,s,strlen(s)+1); return d; }
char *strcat(char *d,const char *s){ strcpy(d+strlen(d),s); return d; }
char *strncat(char *d,const char *s,size_t n){ char*e=d+strlen(d); while(n--&&*s)*e++=*s++; *e=0; return d; }
static unsigned short ctab[384]; static const unsigned short *ctp;
const unsigned short **__ctype_b_loc(void){
	int c; if(!ctp){ for(c=0;c<128;c++){ unsigned short f=0; int U=c>='A'&&c<='Z',L=c>='a'&&c<='z',D=c>='0'&&c<='9';
		if(U)f|=1<<8; if(L)f|=1<<9; if(U||L)f|=1<<10; if(D)f|=1<<11; if(D||(c>='a'&&c<='f')||(c>='A'&&c<='F'))f|=1<<12; if(c==' '||(c>=9&&c<=13))f|=1<<13; if(c>=32&&c<127)f|=1<<14; if(c>32&&c<127)f|=1<<15;
		if(c==' '||c==9)f|=1; if(c<32||c==127)f|=2; if(c>32&&c<127&&!(U||L||D))f|=4; if(U||L||D)f|=8; ctab[128+c]=f; } ctp=ctab+128; } return &ctp; }
static int lower(int c){ return c>='A'&&c<='Z'?c+32:c; }
int tolower(int c){ return lower(c); } int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
static int err_; int *__errno_location(void){ return &err_; }
unsigned long strtoull(const char *s,char **e,int base){ unsigned long v=0; int ng=0,any=0,of=0; const char*st=s; while(*s==' ')s++; if(*s=='-'){ng=1;s++;}else if(*s=='+')s++;
	if((base==0||base==16)&&s[0]=='0'&&lower(s[1])=='x'){ s+=2; base=16; } else if(base==0) base=*s=='0'?8:10;
	for(;;s++){ int c=lower(*(u8*)s),d=c>='0'&&c<='9'?c-'0':c>='a'&&c<='z'?c-'a'+10:99; unsigned long w; if(d>=base)break; any=1; of|=__builtin_mul_overflow(v,(unsigned long)base,&w)|__builtin_add_overflow(w,(unsigned long)d,&v); } if(e)*e=(char*)(any?s:st); if(of){ err_=34; return ~0UL; } return ng?-v:v; }
long strtol(const char *s,char **e,int b){ return strtoull(s,e,b); } unsigned long strtoul(const char *s,char **e,int b){ return strtoull(s,e,b); } long strtoll(const char *s,char **e,int b){ return strtoull(s,e,b); }
/* the number itself is the C library's business: the text is kept, the value is whatever the harness says */
char *fltbuf; double fltval_; static int dg(int c){ return c>='0'&&c<='9'; }
double strtod(const char *s,char **e){ const char *p=s,*q; int n=0; while(dg(*p))p++,n++; if(*p=='.'){ p++; while(dg(*p))p++,n++; } if(!n){ if(e)*e=(char*)s; return 0; } if(lower(*p)=='e'){ q=p+1; if(*q=='+'||*q=='-')q++; if(dg(*q)){ while(dg(*q))q++; p=q; } } if(e)*e=(char*)p; fltbuf=strdup(s); return fltval_; }
void qsort(void *b,size_t n,size_t w,int(*f)(const void*,const void*)){ u8*a=b,t; size_t i,j,k; for(i=1;i<n;i++) for(j=i;j>0&&f(a+(j-1)*w,a+j*w)>0;j--) for(k=0;k<w;k++){ t=a[(j-1)*w+k]; a[(j-1)*w+k]=a[j*w+k]; a[j*w+k]=t; } }
/* formatted output into buffers: %s %d %i %u %x %c %zu %ld %lld %p %% with no width handling beyond digits */
static int put(char*o,size_t n,size_t at,char c){ if(o&&at+1<n) o[at]=c; return 1; }
int vsnprintf(char *o,size_t n,const char *f,va_list ap){ size_t at=0; for(;*f;f++){ if(*f!='%'){ at+=put(o,n,at,*f); continue; } f++; int l=0,z=0,w=0,prec=-1; if(*f=='0')z=1; while(*f=='-'||*f=='0'||*f=='+'||*f==' ')f++; if(*f=='*'){ w=__builtin_va_arg(ap,int); f++; } while(*f>='0'&&*f<='9')w=w*10+*f++-'0'; if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=__builtin_va_arg(ap,int); f++; } while(*f>='0'&&*f<='9')prec=prec*10+*f++-'0'; }
	while(*f=='l'||*f=='z'||*f=='h'){ if(*f!='h')l++; f++; }
	if(*f=='s'){ const char*s=__builtin_va_arg(ap,char*); if(!s)s="(null)"; for(int k=0;s[k]&&(prec<0||k<prec);k++) at+=put(o,n,at,s[k]); }
	else if(*f=='c') at+=put(o,n,at,__builtin_va_arg(ap,int)); else if(*f=='%') at+=put(o,n,at,'%');
	else if(*f=='f'||*f=='g'||*f=='e'){ (void)__builtin_va_arg(ap,double); at+=put(o,n,at,'?'); }
	else { char t[24]; int k=0,base=*f=='x'||*f=='X'||*f=='p'?16:*f=='o'?8:10; unsigned long v=l||*f=='p'?__builtin_va_arg(ap,unsigned long):*f=='u'||base!=10?__builtin_va_arg(ap,unsigned):(unsigned long)(long)__builtin_va_arg(ap,int);
		int ng=(*f=='d'||*f=='i')&&(long)v<0; if(ng)v=-v; do t[k++]="0123456789abcdef"[v%base]; while(v/=base); if(ng)t[k++]='-'; while(w>k&&k<23)t[k++]=z?'0':' '; while(k)at+=put(o,n,at,t[--k]); } }
	if(o&&n)o[at<n?at:n-1]=0; return at; }
int snprintf(char *o,size_t n,const char *f,...){ va_list ap; __builtin_va_start(ap,f); int r=vsnprintf(o,n,f,ap); __builtin_va_end(ap); return r; }
int sprintf(char *o,const char *f,...){ va_list ap; __builtin_va_start(ap,f); int r=vsnprintf(o,1<<20,f,ap); __builtin_va_end(ap); return r; }
void *stdout,*stderr,*stdin; int fputc(int c,void*f){ return c; } int putc(int c,void*f){ return c; } int putchar(int c){ return c; } int fputs(const char*s,void*f){ return 0; } int puts(const char*s){ return 0; }
int fprintf(void*f,const char*s,...){ return 0; } int printf(const char*s,...){ return 0; } int vfprintf(void*f,const char*s,va_list a){ return 0; } int fflush(void*f){ return 0; }
/* one memory file for fwrite and fread: what the .use writer emits can be read back */
u8 mf[1<<16]; size_t mfn,mfr; size_t fwrite(const void*p,size_t s,size_t n,void*f){ if(mfn+s*n>sizeof mf) vabort(); memcpy(mf+mfn,p,s*n); mfn+=s*n; return n; }
size_t fread(void*p,size_t s,size_t n,void*f){ size_t k=0; while(k<n&&mfr+s<=mfn){ memcpy((u8*)p+k*s,mf+mfr,s); mfr+=s; k++; } return k; }
int fgetc(void*f){ return mfr<mfn?mf[mfr++]:-1; } int ungetc(int c,void*f){ mfr--; return c; } int feof(void*f){ return mfr>=mfn; } int ferror(void*f){ return 0; } void*fopen(const char*p,const char*m){ return 0; } int fclose(void*f){ return 0; }
/* the source text the tokenizer reads */
u8 *srctext; size_t srclen,srcpos; int open(const char*p,int fl,...){ return 3; } int close(int fd){ return 0; }
long read(int fd,void*b,size_t n){ size_t k=srclen-srcpos; if(k>n)k=n; memcpy(b,srctext+srcpos,k); srcpos+=k; return k; }
/* fatal(): ends the run; the harness may ask to be told instead */
void (*onexit_)(int); void vdone(void)__asm__("vsym$done"); void vabort(void){ __builtin_trap(); }
void exit(int c){ if(onexit_) onexit_(c); __builtin_trap(); } void abort(void){ __builtin_trap(); }
void __assert_fail(const char*a,const char*b,unsigned c,const char*d){ __builtin_trap(); }
int debugopt[128]; char *objdir,**incpaths,*localincpath; size_t nincpaths;
int isatty(int f){ return 0; } char *getenv(const char*s){ return 0; } int access(const char*p,int m){ return -1; } char *getcwd(char*b,size_t n){ b[0]='/'; b[1]=0; return b; }
