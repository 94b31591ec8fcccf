/* Hash functions, HMAC and ChaCha20, from their standards (FIPS 180-4, 198-1, RFC 1321, 8439's core with
the original 64-bit counter and nonce). The sums associate as in the library, so that
equal results are equal terms; hence the pragma. */
#pragma GCC optimize("no-tree-reassoc")
typedef unsigned long long u64; typedef unsigned u32; typedef unsigned char u8;
static const u32 K2[]={0x428a2f98u,0x71374491u,0xb5c0fbcfu,0xe9b5dba5u,0x3956c25bu,0x59f111f1u,0x923f82a4u,0xab1c5ed5u,0xd807aa98u,0x12835b01u,0x243185beu,0x550c7dc3u,0x72be5d74u,0x80deb1feu,0x9bdc06a7u,0xc19bf174u,0xe49b69c1u,0xefbe4786u,0xfc19dc6u,0x240ca1ccu,0x2de92c6fu,0x4a7484aau,0x5cb0a9dcu,0x76f988dau,0x983e5152u,0xa831c66du,0xb00327c8u,0xbf597fc7u,0xc6e00bf3u,0xd5a79147u,0x6ca6351u,0x14292967u,0x27b70a85u,0x2e1b2138u,0x4d2c6dfcu,0x53380d13u,0x650a7354u,0x766a0abbu,0x81c2c92eu,0x92722c85u,0xa2bfe8a1u,0xa81a664bu,0xc24b8b70u,0xc76c51a3u,0xd192e819u,0xd6990624u,0xf40e3585u,0x106aa070u,0x19a4c116u,0x1e376c08u,0x2748774cu,0x34b0bcb5u,0x391c0cb3u,0x4ed8aa4au,0x5b9cca4fu,0x682e6ff3u,0x748f82eeu,0x78a5636fu,0x84c87814u,0x8cc70208u,0x90befffau,0xa4506cebu,0xbef9a3f7u,0xc67178f2u};
static const u64 K5[]={0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0xfc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x6ca6351e003826fULL,0x142929670a0e6e70ULL,0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x6f067aa72176fbaULL,0xa637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
static const u32 H2[]={0x6a09e667u,0xbb67ae85u,0x3c6ef372u,0xa54ff53au,0x510e527fu,0x9b05688cu,0x1f83d9abu,0x5be0cd19u};
static const u32 H224[]={0xc1059ed8u,0x367cd507u,0x3070dd17u,0xf70e5939u,0xffc00b31u,0x68581511u,0x64f98fa7u,0xbefa4fa4u};
static const u64 H5[]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const u64 H384[]={0xcbbb9d5dc1059ed8ULL,0x629a292a367cd507ULL,0x9159015a3070dd17ULL,0x152fecd8f70e5939ULL,0x67332667ffc00b31ULL,0x8eb44a8768581511ULL,0xdb0c2e0d64f98fa7ULL,0x47b5481dbefa4fa4ULL};
static const u32 KM[]={0xd76aa478u,0xe8c7b756u,0x242070dbu,0xc1bdceeeu,0xf57c0fafu,0x4787c62au,0xa8304613u,0xfd469501u,0x698098d8u,0x8b44f7afu,0xffff5bb1u,0x895cd7beu,0x6b901122u,0xfd987193u,0xa679438eu,0x49b40821u,0xf61e2562u,0xc040b340u,0x265e5a51u,0xe9b6c7aau,0xd62f105du,0x2441453u,0xd8a1e681u,0xe7d3fbc8u,0x21e1cde6u,0xc33707d6u,0xf4d50d87u,0x455a14edu,0xa9e3e905u,0xfcefa3f8u,0x676f02d9u,0x8d2a4c8au,0xfffa3942u,0x8771f681u,0x6d9d6122u,0xfde5380cu,0xa4beea44u,0x4bdecfa9u,0xf6bb4b60u,0xbebfbc70u,0x289b7ec6u,0xeaa127fau,0xd4ef3085u,0x4881d05u,0xd9d4d039u,0xe6db99e5u,0x1fa27cf8u,0xc4ac5665u,0xf4292244u,0x432aff97u,0xab9423a7u,0xfc93a039u,0x655b59c3u,0x8f0ccc92u,0xffeff47du,0x85845dd1u,0x6fa87e4fu,0xfe2ce6e0u,0xa3014314u,0x4e0811a1u,0xf7537e82u,0xbd3af235u,0x2ad7d2bbu,0xeb86d391u};
#define ROR(x,n) ((x)>>(n)|(x)<<(8*sizeof(x)-(n)))
#define ROL(x,n) ((x)<<(n)|(x)>>(8*sizeof(x)-(n)))
static u32 be32(const u8*p){ return (u32)p[0]<<24|(u32)p[1]<<16|(u32)p[2]<<8|p[3]; }
static u32 le32(const u8*p){ return (u32)p[3]<<24|(u32)p[2]<<16|(u32)p[1]<<8|p[0]; }
static u64 be64(const u8*p){ return (u64)be32(p)<<32|be32(p+4); }
static u64 le64(const u8*p){ return (u64)le32(p+4)<<32|le32(p); }
static void pbe(u8*o,u64 v,int n){ for(int i=0;i<n;i++) o[i]=v>>8*(n-1-i); }
static void ple(u8*o,u64 v,int n){ for(int i=0;i<n;i++) o[i]=v>>8*i; }
static u8 pb[1024];
/* message, 1 bit, zeros, length in bits */
static u64 padded(const u8*m,u64 n,int blk,int big){ u64 t=n,i; int l=blk==128?16:8; for(i=0;i<n;i++) pb[i]=m[i]; pb[t++]=0x80; while(t%blk!=blk-l) pb[t++]=0; for(i=0;i<l;i++) pb[t+i]=0; if(big) pbe(pb+t+l-8,n*8,8); else ple(pb+t,n*8,8); return t+l; }
static void s256(const u8*m,u64 n,const u32*iv,u8*o,int on){ u32 h[8],w[64]; u64 t=padded(m,n,64,1),k; int i; for(i=0;i<8;i++) h[i]=iv[i];
	for(k=0;k<t;k+=64){ u32 a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],x=h[7],t1,t2;
		for(i=0;i<16;i++) w[i]=be32(pb+k+4*i); for(;i<64;i++) w[i]=w[i-16]+w[i-7]+(ROR(w[i-15],7)^ROR(w[i-15],18)^w[i-15]>>3)+(ROR(w[i-2],17)^ROR(w[i-2],19)^w[i-2]>>10);
		for(i=0;i<64;i++){ t1=x+((ROR(e,6)^ROR(e,11)^ROR(e,25))+(g^(e&(f^g)))+K2[i]+w[i]); t2=(ROR(a,2)^ROR(a,13)^ROR(a,22))+((a&(b|c))|(b&c)); x=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2; }
		h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=x; }
	for(i=0;i<on/4;i++) pbe(o+4*i,h[i],4); }
static void s512(const u8*m,u64 n,const u64*iv,u8*o,int on){ u64 h[8],w[80]; u64 t=padded(m,n,128,1),k; int i; for(i=0;i<8;i++) h[i]=iv[i];
	for(k=0;k<t;k+=128){ u64 a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],x=h[7],t1,t2;
		for(i=0;i<16;i++) w[i]=be64(pb+k+8*i); for(;i<80;i++) w[i]=w[i-16]+w[i-7]+(ROR(w[i-15],1)^ROR(w[i-15],8)^w[i-15]>>7)+(ROR(w[i-2],19)^ROR(w[i-2],61)^w[i-2]>>6);
		for(i=0;i<80;i++){ t1=x+((ROR(e,14)^ROR(e,18)^ROR(e,41))+(g^(e&(f^g)))+K5[i]+w[i]); t2=(ROR(a,28)^ROR(a,34)^ROR(a,39))+((a&(b|c))|(b&c)); x=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2; }
		h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=x; }
	for(i=0;i<on/8;i++) pbe(o+8*i,h[i],8); }
static void s1(const u8*m,u64 n,u8*o){ u32 h[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0},w[80]; u64 t=padded(m,n,64,1),k; int i;
	for(k=0;k<t;k+=64){ u32 a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f,q,x; for(i=0;i<16;i++) w[i]=be32(pb+k+4*i); for(;i<80;i++){ x=w[i-3]^w[i-8]^w[i-14]^w[i-16]; w[i]=ROL(x,1); }
		for(i=0;i<80;i++){ if(i<20){ f=d^(b&(c^d)); q=0x5a827999; } else if(i<40){ f=b^c^d; q=0x6ed9eba1; } else if(i<60){ f=(b&(c|d))|(c&d); q=0x8f1bbcdc; } else { f=b^c^d; q=0xca62c1d6; }
			x=ROL(a,5)+f+e+q+w[i]; e=d; d=c; c=ROL(b,30); b=a; a=x; }
		h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; }
	for(i=0;i<5;i++) pbe(o+4*i,h[i],4); }
static void m5(const u8*m,u64 n,u8*o){ static const u8 S[]={7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21}; u32 h[4]={0x67452301,0xefcdab89,0x98badcfe,0x10325476},w[16]; u64 t=padded(m,n,64,0),k; int i;
	for(k=0;k<t;k+=64){ u32 a=h[0],b=h[1],c=h[2],d=h[3],f,x; int g; for(i=0;i<16;i++) w[i]=le32(pb+k+4*i);
		for(i=0;i<64;i++){ if(i<16){ f=d^(b&(c^d)); g=i; } else if(i<32){ f=c^(d&(b^c)); g=(5*i+1)%16; } else if(i<48){ f=b^c^d; g=(3*i+5)%16; } else { f=c^(b|~d); g=7*i%16; }
			x=a+(f+KM[i]+w[g]); a=d; d=c; c=b; b=b+ROL(x,S[i/16*4+i%4]); }
		h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; }
	for(i=0;i<4;i++) ple(o+4*i,h[i],4); }
const int ref_size[]={16,20,28,32,48,64}, ref_block[]={64,64,64,64,128,128};
u64 r_size(u64 a){ return ref_size[a]; } u64 r_block(u64 a){ return ref_block[a]; }
void r_hash(u64 alg,const u8*m,u64 n,u8*o){ switch(alg){ case 0: m5(m,n,o); break; case 1: s1(m,n,o); break; case 2: s256(m,n,H224,o,28); break; case 3: s256(m,n,H2,o,32); break; case 4: s512(m,n,H384,o,48); break; case 5: s512(m,n,H5,o,64); break; } }
void r_hmac(u64 alg,const u8*k,u64 kn,const u8*m,u64 n,u8*o){ static u8 kb[128],t[512]; int b=ref_block[alg],h=ref_size[alg]; u64 i; for(i=0;i<128;i++) kb[i]=0; if(kn>b) r_hash(alg,k,kn,kb); else for(i=0;i<kn;i++) kb[i]=k[i];
	for(i=0;i<b;i++) t[i]=kb[i]^0x36; for(i=0;i<n;i++) t[b+i]=m[i]; r_hash(alg,t,b+n,o); for(i=0;i<h;i++) t[b+i]=o[i]; for(i=0;i<b;i++) t[i]=kb[i]^0x5c; r_hash(alg,t,b+h,o); }
#define Q(a,b,c,d) a+=b; d^=a; d=ROL(d,16); c+=d; b^=c; b=ROL(b,12); a+=b; d^=a; d=ROL(d,8); c+=d; b^=c; b=ROL(b,7);
void r_chacha(const u8*k,u64 kn,const u8*iv,u64 ctr,const u8*m,u64 n,u8*o){ const char*c=kn==32?"expand 32-byte k":"expand 16-byte k"; u32 s[16],x[16]; u64 i,j; u8 ks[64]; u32 c0=ctr,c1=ctr>>32;
	for(i=0;i<4;i++) s[i]=le32((u8*)c+4*i); for(i=0;i<8;i++) s[4+i]=le32(k+4*(kn==32?i:i%4)); s[14]=le32(iv); s[15]=le32(iv+4);
	for(j=0;j<n;j+=64,c0++,c1+=c0==0){ s[12]=c0; s[13]=c1; for(i=0;i<16;i++) x[i]=s[i]; for(i=0;i<10;i++){ Q(x[0],x[4],x[8],x[12]) Q(x[1],x[5],x[9],x[13]) Q(x[2],x[6],x[10],x[14]) Q(x[3],x[7],x[11],x[15]) Q(x[0],x[5],x[10],x[15]) Q(x[1],x[6],x[11],x[12]) Q(x[2],x[7],x[8],x[13]) Q(x[3],x[4],x[9],x[14]) }
		u8 t[64]; for(i=0;i<64;i++) t[i]=j+i<n?m[j+i]:0; for(i=0;i<16;i++) ple(ks+4*i,(x[i]+s[i])^le32(t+4*i),4); for(i=0;i<64&&j+i<n;i++) o[j+i]=ks[i]; } }
/* the library opens /dev/urandom when it starts: let it */
__asm__(".globl __wrap_sys$syscall\n__wrap_sys$syscall:\n cmp $2,%rdi\n je 1f\n jmp \"__real_sys$syscall\"\n1: mov $9,%eax\n ret\n");
