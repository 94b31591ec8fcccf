typedef unsigned long long u64; typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef long long i64; typedef int i32;
void vcheck(int,u8)__asm__("vsym$check"); void vassume(u8)__asm__("vsym$assume"); void vout(u64)__asm__("vsym$out"); void vreach(int)__asm__("vsym$reach"); void vexpabort(u8)__asm__("vsym$expabort");
u64 vrange(u64,u64)__asm__("vsym$range"); u64 vpick(u64,u64)__asm__("vsym$pick"); u64 vite(u8,u64,u64)__asm__("vsym$ite"); u64 vconc(u64)__asm__("vsym$conc"); u8 veqmem(const void*,const void*,u64)__asm__("vsym$eqmem");
u64 vu64(void)__asm__("vsym$u64"); u32 vu32(void)__asm__("vsym$u32"); u16 vu16(void)__asm__("vsym$u16"); u8 vu8(void)__asm__("vsym$u8"); void vbytes(void*,u64)__asm__("vsym$bytes");
