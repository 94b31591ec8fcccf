# writes harness/lib/chrs_ref.c: simple case mappings and letter classes of some blocks, from Python's Unicode data
import unicodedata as u
B=[(0,0x7f),(0x80,0xff),(0x100,0x17f),(0x386,0x3ce),(0x401,0x481),(0x531,0x586),(0x5d0,0x5ea),(0x1e00,0x1e9a),(0x1ea0,0x1ef9),(0x3041,0x30fa),(0xff10,0xff5a)]
# case mappings only; without letters added or changed after Unicode 1.1
M=[(0x180,0x217),(0x250,0x2af),(0x482,0x4f9),(0x1f00,0x1ffc),(0x2160,0x217f),(0x24b6,0x24e9)]
MX={int(x,16) for x in '180 18e 195 19a 19e 19f 1a6 1bf 1dd 1f6 1f7 1f8 1f9 250 251 252 258 25c 261 265 266 26a 26b 26c 271 275 27d 280 282 287 289 28c 29d 29e 48a 48b 48c 48d 48e 48f 4c0 4c5 4c6 4c9 4ca 4cd 4ce 4cf 4ec 4ed 4f6 4f7 1fb3 1fbe 1fc3 1ff3'.split()}|{c for c in range(0x1f80,0x1fa8) if c&8==0}
EXC={0xb5,0x130,0x3c2,0x40d,0x450,0x45d,0x559,0x560}
o=['/* generated by tools/gen_chr.py */','#include "ref.h"']
for i,(a,b) in enumerate(B+M):
    r=[]
    for c in range(a,b+1):
        ch=chr(c); cat=u.category(ch)
        lw=ch.lower(); lw=ord(lw) if len(lw)==1 else c
        up=ch.upper(); up=ord(up) if len(up)==1 else c
        f=(cat[0]=='L')|(lw!=c)<<1|(up!=c)<<2
        w=2 if u.east_asian_width(ch) in 'WF' else 0 if cat in('Mn','Me','Cf') or c==0 else 3 if c<0x20 or 0x7f<=c<0xa0 else 1
        f|=w<<3
        if c in EXC or cat=='Cn' or 0x3094<c<0x30a1: f=0x80
        if i>=len(B): f=0x80 if c in MX else 0x40
        r.append('0x%xull'%(lw|up<<24|f<<48))
    o.append('static const u64 T%d[]={%s};'%(i,','.join(r)))
o.append('static const u64*const T[]={%s};'%','.join('T%d'%i for i in range(len(B+M))))
o.append('static const u32 LO[]={%s},HI[]={%s};'%(','.join(hex(a) for a,b in B+M),','.join(hex(b) for a,b in B+M)))
o.append('''u64 r_nblk(void){return sizeof T/sizeof*T;} u32 r_blo(u64 b){return LO[b];} u32 r_bhi(u64 b){return HI[b];}
/* lower | upper << 24 | flags << 48: 1 letter, 2 upper case, 4 lower case, 8.. cell width (3: -1), 0x40: only case mapping, 0x80: not compared */
u64 r_chr(u64 b,u32 c){return T[b][c-LO[b]];}
static const u32 N[]={0x660,0x6f0,0x7c0,0x966,0x9e6,0xa66,0xae6,0xb66,0xbe6,0xc66,0xce6,0xd66,0xe50,0xed0,0xf20,0x1040,0x17e0,0x1810,0x1946,0x19d0,0x1b50,0xff10,0x104a0};
u8 r_isnum(u32 c){ u8 r=c-0x30<10; for(unsigned i=0;i<sizeof N/4;i++) r|=c-N[i]<10; return r|(c-0x1d7ce<50); }
u8 r_isblank(u32 c){ return (c==9)|(c==0x20)|(c==0x85)|(c==0xa0)|(c==0x1680)|(c==0x180e)|(c-0x2000<12)|(c-0x2028<2)|(c==0x202f)|(c==0x205f)|(c==0x3000)|(c==0xfeff); }
/* the value of a digit in a base, or -1 */
i64 r_charval(u32 c,i64 b){ i64 v=-1; if(c>='0'&&c<='9')v=c-'0'; else if(c>='a'&&c<='z')v=c-'a'+10; else if(c>='A'&&c<='Z')v=c-'A'+10; return v<b?v:-1; }''')
open('harness/lib/chrs_ref.c','w').write('\n'.join(o)+'\n')
