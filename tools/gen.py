"""Helpers to generate pairs (Myrddin program, C reference) for the compiler properties."""
import os, random
# name, C type, bits, signed
INTS = [('int8', 'signed char', 8, 1), ('int16', 'short', 16, 1), ('int32', 'int', 32, 1), ('int64', 'long long', 64, 1), ('int', 'int', 32, 1),
        ('uint8', 'unsigned char', 8, 0), ('uint16', 'unsigned short', 16, 0), ('uint32', 'unsigned', 32, 0), ('uint64', 'unsigned long long', 64, 0), ('uint', 'unsigned', 32, 0),
        ('byte', 'unsigned char', 8, 0), ('char', 'unsigned', 32, 0)]
CT = {n: c for n, c, b, s in INTS}; BITS = {n: b for n, c, b, s in INTS}; SGN = {n: s for n, c, b, s in INTS}
CT['bool'] = 'unsigned char'; BITS['bool'] = 8; SGN['bool'] = 0
CHDR = '''typedef unsigned long long u64; typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef long long i64; typedef int i32; typedef short i16; typedef signed char i8;
u64 vu64(void)__asm__("vsym$u64"); u32 vu32(void)__asm__("vsym$u32"); u16 vu16(void)__asm__("vsym$u16"); u8 vu8(void)__asm__("vsym$u8");
void vcheck(int,u8)__asm__("vsym$check"); void vassume(u8)__asm__("vsym$assume"); void vout(u64)__asm__("vsym$out"); void vreach(int)__asm__("vsym$reach"); void vexpabort(u8)__asm__("vsym$expabort"); u64 vrange(u64,u64)__asm__("vsym$range"); u64 vpick(u64,u64)__asm__("vsym$pick"); u8 veqmem(u8*,u8*,u64)__asm__("vsym$eqmem");
'''
class Prog:
    """one generated Myrddin program with its C reference"""
    def __init__(self, name):
        self.name = name; self.top = []; self.ext = {}; self.c = []; self.cd = set(); self.cases = {}; self.nid = 0; self.titles = {}; self.ids = {}
        self.use = ['vsym']
    def extern(self, name, sig, cdef):
        if name not in self.ext: self.ext[name] = sig; self.c.append(cdef)
    def cdef(self, s):
        if s not in self.cd: self.cd.add(s); self.c.append(s)
    def inp(self, t):
        n = 'in_' + t; c = CT[t]; b = BITS[t]
        if t == 'bool': d = '%s %s(void){ return vu8()&1; }' % (c, n)
        else: d = '%s %s(void){ return (%s)vu%d(); }' % (c, n, c, b)
        self.extern(n, '(-> %s)' % t, d); return n + '()'
    def eq(self, t):
        n = 'eq_' + t; c = CT[t]
        self.extern(n, '(id : int, x : %s, y : %s -> void)' % (t, t), 'void %s(int id,%s x,%s y){ vcheck(id, x==y); }' % (n, c, c)); return n
    def out(self, t):
        n = 'out_' + t; self.extern(n, '(x : %s -> void)' % t, 'void %s(%s x){ vout((u64)x); }' % (n, CT[t])); return n
    def xid(self):
        """an id that need not be reachable"""
        self.nid += 1; return self.nid
    def id(self, case):
        self.nid += 1; self.ids.setdefault(case, []).append(self.nid); return self.nid
    def fn(self, case, body, title=None, name=None):
        """body: statements of a test function called by the case"""
        n = name or 't%d_%d' % (case, len(self.cases.get(case, []))); self.cases.setdefault(case, []).append(n)
        self.top.append('const %s = {\n%s\n}' % (n, '\n'.join('\t' + l for l in body.strip('\n').split('\n'))))
        if title: self.titles[case] = title
    def add(self, s):
        if s not in self.cd: self.cd.add(s); self.top.append(s)
    def write(self, d):
        os.makedirs(d, exist_ok=True); m = os.path.join(d, self.name + '.myr'); c = os.path.join(d, self.name + '_ref.c')
        with open(m, 'w') as f:
            for u in self.use: f.write('use %s\n' % u)
            for n, s in self.ext.items(): f.write('extern const %s : %s\n' % (n, s))
            f.write('\n'.join(self.top) + '\n')
            f.write('const main = {\n\tmatch vsym.kase()\n')
            for k in sorted(self.cases): f.write('\t| %d: c_%d()\n' % (k, k))
            f.write('\t| _:\n\t;;\n\tvsym.done()\n}\n')
            for k in sorted(self.cases):   # one function per path: a fork on a fresh symbol keeps their paths apart
                fs = self.cases[k]
                if len(fs) == 1: f.write('const c_%d = {\n\t%s()\n}\n' % (k, fs[0]))
                else: f.write('const c_%d = {\n\tmatch vsym.pick(0, %d)\n%s\n\t| _:\n\t;;\n}\n' % (k, len(fs) - 1, '\n'.join('\t| %d: %s()' % (i, n) for i, n in enumerate(fs))))
        with open(c, 'w') as f: f.write(CHDR + '\n'.join(self.c) + '\n')
        return m, c
    def register(self, ck, libs=(), gdir=None, bound='every value of the symbolic operands', opts=(), time=60, expect=True, **kw):
        m, c = self.write(gdir or os.path.join(ck.out, 'gen'))
        h = ck.harness(self.name, [m], [c], list(libs), **kw)
        for k in sorted(self.cases): ck.case(h, k, self.titles.get(k, 'case %d' % k), bound, time=time, expect=self.ids.get(k, ()) if expect else (), opts=opts, wit=2)
        return h
