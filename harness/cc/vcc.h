#include <stddef.h>
#include <stdint.h>
typedef unsigned long long u64; typedef unsigned char u8; typedef unsigned u32;
u64 vu64(void)__asm__("vsym$u64"); u32 vu32(void)__asm__("vsym$u32"); uint16_t vu16(void)__asm__("vsym$u16"); u8 vu8(void)__asm__("vsym$u8"); void vbytes(u8*,u64)__asm__("vsym$bytes");
void vcheck(int,u8)__asm__("vsym$check"); void vassume(u8)__asm__("vsym$assume"); void vout(u64)__asm__("vsym$out"); void vreach(int)__asm__("vsym$reach"); void vexpabort(u8)__asm__("vsym$expabort"); u64 vrange(u64,u64)__asm__("vsym$range"); u64 vpick(u64,u64)__asm__("vsym$pick"); u8 veqmem(u8*,u8*,u64)__asm__("vsym$eqmem"); u64 vkase(void)__asm__("vsym$kase"); void vdone(void)__asm__("vsym$done"); u64 vconc(u64)__asm__("vsym$conc");
extern u8 *srctext; extern size_t srclen,srcpos; extern void (*onexit_)(int);
