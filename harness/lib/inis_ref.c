#include "ref.h"
/* what an ini file says: plain restatement */
struct kv { const u8 *s,*k,*v; int sn,kn,vn; };
static struct kv kv[64]; static int nkv; static const u8*sec[64]; static int secn[64],nsec; static int err,errln;
static int blank(u8 c){ return c==9||c==32; }
static void strip(const u8**p,int*n){ while(*n&&blank(**p)){(*p)++;(*n)--;} while(*n&&(blank((*p)[*n-1])||(*p)[*n-1]=='\n'))(*n)--; }
static int eq(const u8*a,int an,const u8*b,int bn){ if(an!=bn)return 0; for(int i=0;i<an;i++)if(a[i]!=b[i])return 0; return 1; }
/* 0 fine, 1 parse error, 2 duplicate key */
i64 r_parse(const u8*p,i64 n){ i64 i=0; const u8*s=p; int sn=0; int ln=1; nkv=nsec=0; err=0;
 while(i<n){ i64 j=i; while(j<n&&p[j]!='\n'&&p[j]!='\r')j++;
  const u8*q=p+i; int m=j-i; if(j<n&&p[j]=='\r'&&j+1<n&&p[j+1]=='\n')j++; i=j+1;
  for(int k=0;k<m;k++)if(q[k]==';'||q[k]=='#')m=k;
  strip(&q,&m);
  if(m){ if(*q=='['){ int c=0; while(c<m&&q[c]!=']')c++; if(c!=m-1){err=1;errln=ln;return 1;} s=q+1; sn=m-2; strip(&s,&sn);
    int f=0; for(int k=0;k<nsec;k++)if(eq(sec[k],secn[k],s,sn))f=1; if(!f){sec[nsec]=s;secn[nsec++]=sn;} }
   else { int c=0; while(c<m&&q[c]!='=')c++; if(c==m){err=1;errln=ln;return 1;}
    const u8*k=q,*v=q+c+1; int kn=c,vn=m-c-1; strip(&k,&kn); strip(&v,&vn);
    for(int x=0;x<nkv;x++)if(eq(kv[x].s,kv[x].sn,s,sn)&&eq(kv[x].k,kv[x].kn,k,kn)){err=2;errln=ln;return 2;}
    kv[nkv].s=s;kv[nkv].sn=sn;kv[nkv].k=k;kv[nkv].kn=kn;kv[nkv].v=v;kv[nkv++].vn=vn; } }
  ln++; }
 return 0; }
i64 r_errln(void){return errln;}
i64 r_nkv(void){return nkv;}
i64 r_nsec(void){return nsec;}
u8* r_sec(i64 i){return (u8*)sec[i];}
i64 r_secn(i64 i){return secn[i];}
static int find(const u8*s,i64 sn,const u8*k,i64 kn){ for(int x=0;x<nkv;x++)if(eq(kv[x].s,kv[x].sn,s,sn)&&eq(kv[x].k,kv[x].kn,k,kn))return x; return -1; }
i64 r_find(u8*s,i64 sn,u8*k,i64 kn){ return find(s,sn,k,kn); }
u8* r_s(i64 i){return (u8*)kv[i].s;} i64 r_sn(i64 i){return kv[i].sn;}
u8* r_k(i64 i){return (u8*)kv[i].k;} i64 r_kn(i64 i){return kv[i].kn;}
u8* r_v(i64 i){return (u8*)kv[i].v;} i64 r_vn(i64 i){return kv[i].vn;}
void r_put(u8*s,i64 sn,u8*k,i64 kn,u8*v,i64 vn){ int x=find(s,sn,k,kn); if(x<0){ x=nkv++; kv[x].s=s;kv[x].sn=sn;kv[x].k=k;kv[x].kn=kn; if(sn){int f=0; for(int q=0;q<nsec;q++)if(eq(sec[q],secn[q],s,sn))f=1; if(!f){sec[nsec]=s;secn[nsec++]=sn;}} } kv[x].v=v;kv[x].vn=vn; }
