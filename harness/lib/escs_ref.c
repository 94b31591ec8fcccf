#include "ref.h"
static u64 put(u8*o,u64 n,const char*s){ while(*s)o[n++]=*s++; return n; }
u64 r_html(const u8*p,u64 n,u8*o){ u64 m=0; for(u64 i=0;i<n;i++) switch(p[i]){ case '&':m=put(o,m,"&amp;");break; case '<':m=put(o,m,"&lt;");break; case '>':m=put(o,m,"&gt;");break; case '/':m=put(o,m,"&#x2f;");break; default:o[m++]=p[i]; } return m; }
u64 r_re(const u8*p,u64 n,u8*o){ u64 m=0; for(u64 i=0;i<n;i++){ const char*s="|*+?[]^$.\\()"; int q=0; for(;*s;s++)q|=*s==p[i]; if(q)o[m++]='\\'; o[m++]=p[i]; } return m; }
u64 r_sh(const u8*p,u64 n,u8*o){ u64 m=0; o[m++]='\''; for(u64 i=0;i<n;i++){ if(p[i]=='\'')m=put(o,m,"'\\''"); else o[m++]=p[i]; } o[m++]='\''; return m; }
u64 r_url(const u8*p,u64 n,u8*o){ u64 m=0; for(u64 i=0;i<n;i++){ const char*s=":/?#[]@!$&'()*+,;=%"; int q=p[i]>=0x80; for(;*s;s++)q|=*s==p[i]; if(q){ o[m++]='%'; o[m++]="0123456789abcdef"[p[i]>>4]; o[m++]="0123456789abcdef"[p[i]&15]; } else o[m++]=p[i]; } return m; }
