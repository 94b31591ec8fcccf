#!/usr/bin/env python3
"""writes harness/lib/flts_ref.c: the correctly rounded values (by the C compiler) of decimal templates with two free digits"""
import os
T = [('', ''), ('0.', ''), ('', 'e5'), ('', 'e-7'), ('1', '.25'), ('90071992547409', ''), ('9007199254740993.0', ''), ('4503599627370495.', ''), ('167772', ''), ('1677721', '.5'), ('8388', '.4999999'),
     ('', 'e22'), ('1.', 'e23'), ('', 'e-324'), ('2.4', 'e-324'), ('2.22507385850720', 'e-308'), ('1.797693134862315', 'e308'), ('0.000', 'e312'), ('', 'e-46'), ('1.1754943', 'e-38'), ('1.17549', 'e-38'), ('3.402823', 'e38'), ('3.4028235', 'e38'), ('7.0064', 'e-46'),
     ('0000', '000e-3'), ('1', 'e+2'), ('33554431.', ''), ('18014398509481985', '.'), ('1', 'e-400'), ('', 'e400'), ('123456789012345678901234567', ''), ('0.1', '000000000000000055511151231257827'), ('72057594037927', ''), ('1.0000000596046447', ''), ('5.', 'e-324')]
def lit(s): return s if any(c in s for c in '.e') else s + '.0'
o = ['/* written by tools/gen_flts.py */', '#include "ref.h"', 'static const double D[][100]={']
for a, b in T: o.append('{' + ','.join(lit(a + '%02d' % i + b) for i in range(100)) + '},')
o.append('};\nstatic const float F[][100]={')
for a, b in T: o.append('{' + ','.join(lit(a + '%02d' % i + b) + 'f' for i in range(100)) + '},')
o.append('};\nstatic const char*const A[]={' + ','.join('"%s"' % a for a, b in T) + '};\nstatic const char*const B[]={' + ','.join('"%s"' % b for a, b in T) + '};')
o.append('''u64 r_ntmpl(void){ return sizeof A/sizeof*A; }
u64 r_tmpl(u8*o,u64 t,u64 second){ const char*p=second?B[t]:A[t]; u64 n=0; while(p[n]){o[n]=p[n];n++;} return n; }
u64 r_d64(u64 t,u64 i){ return ((const u64*)D)[t*100+i]; }
u32 r_f32(u64 t,u64 i){ return ((const u32*)F)[t*100+i]; }
/* nearest to m * 2^(e-52), 2^52 <= m < 2^53, e <= -1023, ties to even */
u64 r_sub64(u64 s,i64 e,u64 m){ i64 k=-1022-e; u64 q,r,h; if(k>54)return s<<63; q=m>>k; r=m&((1ull<<k)-1); h=1ull<<(k-1); return s<<63|(q+((r>h)|((r==h)&(q&1)))); }
u32 r_sub32(u32 s,i32 e,u32 m){ i32 k=-126-e; u32 q,r,h; if(k>25)return s<<31; q=m>>k; r=m&((1u<<k)-1); h=1u<<(k-1); return s<<31|(q+((r>h)|((r==h)&(q&1)))); }
/* [+-] (inf | Inf | nan | NaN | digits with one . and _ [(e|E) [+-] digits with _]) */
u8 r_isflt(const u8*p,u64 n){
	u64 i=0; int d=0,dot=0; if(n&&(p[0]=='-'||p[0]=='+'))i++;
	if(n-i==3){ u8 a=p[i],b=p[i+1],c=p[i+2]; if((a=='i'||a=='I')&&b=='n'&&c=='f')return 1; if(a=='n'&&b=='a'&&c=='n')return 1; if(a=='N'&&b=='a'&&c=='N')return 1; }
	for(;i<n;i++){ u8 c=p[i]; if(c>='0'&&c<='9')d=1; else if(c=='.'){ if(dot)return 0; dot=1; } else if(c!='_')break; }
	if(!d)return 0; if(i==n)return 1; if(p[i]!='e'&&p[i]!='E')return 0; i++;
	if(i<n&&(p[i]=='-'||p[i]=='+'))i++;
	d=0; for(;i<n;i++){ u8 c=p[i]; if(c>='0'&&c<='9')d=1; else if(c!='_')return 0; }
	return d;
}
/* the double nearest to an integer */
u64 r_int64(u64 v){ if(!v)return 0; int e=63; while(!(v>>63)){v<<=1;e--;} u64 q=v>>11,r=v&2047; q+=(r>1024)|((r==1024)&(q&1)); return ((u64)(e+1023)<<52)+(q-(1ull<<52)); }''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'lib', 'flts_ref.c'), 'w').write('\n'.join(o) + '\n')
print(len(T))
