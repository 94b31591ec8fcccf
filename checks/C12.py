"""Floating point arithmetic, comparisons, conversions and literals of compiled code."""
from gen import *
import random, struct, ast
LIBS = []
F = [('flt32', 'float', 32), ('flt64', 'double', 64)]
CMP = [('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')]
OPS = [('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div')]
for t, c, b in F: CT[t] = c; BITS[t] = b; SGN[t] = 1
class FP(Prog):
    def __init__(self, name):
        Prog.__init__(self, name)
        self.cdef('/* floats */\nstatic u32 bf(float x){ union { float f; u32 u; } v; v.f = x; return v.u; }\nstatic u64 bd(double x){ union { double f; u64 u; } v; v.f = x; return v.u; }\n'
            'static float fb(u32 x){ union { float f; u32 u; } v; v.u = x; return v.f; }\nstatic double db(u64 x){ union { double f; u64 u; } v; v.u = x; return v.f; }\n'
            'static u8 nf(u32 a){ return (a & 0x7fffffff) > 0x7f800000; }\nstatic u8 nd(u64 a){ return (a & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }')
    def inp(self, t):
        if t not in ('flt32', 'flt64'): return Prog.inp(self, t)
        self.extern('in_' + t, '(-> %s)' % t, 'float in_flt32(void){ return fb(vu32()); }' if t == 'flt32' else 'double in_flt64(void){ return db(vu64()); }'); return 'in_%s()' % t
    def eq(self, t):
        if t not in ('flt32', 'flt64'): return Prog.eq(self, t)
        if t == 'flt32': d = 'void eq_flt32(int id,float x,float y){ u32 a=bf(x),b=bf(y); vcheck(id,(a==b)|(nf(a)&nf(b))); }'
        else: d = 'void eq_flt64(int id,double x,double y){ u64 a=bd(x),b=bd(y); vcheck(id,(a==b)|(nd(a)&nd(b))); }'
        self.extern('eq_' + t, '(id : int, x : %s, y : %s -> void)' % (t, t), d); return 'eq_' + t
    def bits(self, t):
        if t == 'flt32': self.extern('isb_flt32', '(id : int, x : flt32, y : uint32 -> void)', 'void isb_flt32(int id,float x,u32 y){ vcheck(id,bf(x)==y); }')
        else: self.extern('isb_flt64', '(id : int, x : flt64, y : uint64 -> void)', 'void isb_flt64(int id,double x,u64 y){ vcheck(id,bd(x)==y); }')
        return 'isb_' + t
def steps(n, b):
    if isinstance(n, ast.BinOp): return '%s(%s, %s)' % ({ast.Add: 'ADD', ast.Sub: 'SUB', ast.Mult: 'MUL', ast.Div: 'DIV'}[type(n.op)], steps(n.left, b), steps(n.right, b))
    if isinstance(n, ast.UnaryOp): return 'MUL(-1, %s)' % steps(n.operand, b)
    return n.id if isinstance(n, ast.Name) else repr(n.value) + ('f' if b == 32 else '')
def arith(ck):
    for t, c, b in F:
        p = FP('arith_' + t); I = p.inp(t); E = p.eq(t)
        p.add('type st = struct\n\tp : byte\n\tf : %s\n\tq : byte\n\tg : %s\n;;\nvar glob : %s = 0.0\nconst id = {x : %s -> %s\n\t-> x\n}' % (t, t, t, t, t))
        for case, (op, on) in enumerate(OPS, 1):
            p.titles[case] = '%s %s' % (t, on); r = 'r_' + on
            p.extern(r, '(a : %s, b : %s -> %s)' % (t, t, t), '%s %s(%s a,%s b){ return a %s b; }' % (c, r, c, c, op))
            h = 'var a : %s = %s, b : %s = %s\n' % (t, I, t, I)
            e = lambda x, y='a', z='b': '%s(%d, %s, %s(%s, %s))' % (E, p.id(case), x, r, y, z)
            p.fn(case, h + 'var r = a %s b\n%s\n%s\n%s' % (op, e('r'), e('a %s b' % op), e('b %s a' % op, 'b', 'a')))
            p.fn(case, h + 'var s : st, v : %s[3], t : (%s, int, %s)\ns.f = a\ns.g = b\ns.f = s.f %s s.g\n%s\nv = [a, b, a]\nv[2] = v[0] %s v[1]\n%s\nvar q = &v[1]\nq# = a %s q#\n%s\nt = (a, 3, b)\n%s' % (t, t, t, op, e('s.f'), op, e('v[2]'), op, e('v[1]'), e('t#0 %s t#2'.replace('t#0', 'a').replace('t#2', 'b') % op)))
            p.fn(case, h + 'var x = a\nx %s= b\n%s\nglob = a\nglob %s= b\n%s\nvar s : st\ns.f = a\ns.f %s= b\n%s\nvar v = [b, a]\nv[1] %s= v[0]\n%s' % (op, e('x'), op, e('glob'), op, e('s.f'), op, e('v[1]')))
            p.fn(case, h + '%s\n%s\n%s' % (e('id(a) %s id(b)' % op), e('id(a %s b)' % op), e('(a %s b)' % op)))
            # with constants
            for k in ('0.0', '1.0', '2.5', '0.1', '1.0e10' if 0 else '1e10'):
                if k == '0.1' and t == 'flt32': continue
                rk = 'k_%s_%s' % (on, k.replace('.', '_')); kc = k + ('f' if t == 'flt32' else '')
                if 'e' in k and '.' not in k: kc = '1e10' + ('f' if t == 'flt32' else '')
                p.extern(rk, '(a : %s, w : int -> %s)' % (t, t), '%s %s(%s a,int w){ volatile %s k=%s; return w? k %s a : a %s k; }' % (c, rk, c, c, kc, op, op))
                kk = k if '.' in k else '1.0e10'
                p.fn(case, 'var a : %s = %s\n%s(%d, a %s %s, %s(a, 0))\n%s(%d, %s %s a, %s(a, 1))\na %s= %s\nvar z = a\nglob = z' % (t, I, E, p.id(case), op, kk, rk, E, p.id(case), kk, op, rk, op, kk))
        case = 10; p.titles[case] = '%s negation' % t
        p.extern('r_neg', '(a : %s -> %s)' % (t, t), '%s r_neg(%s a){ return %s; }' % (c, c, 'fb(bf(a)^0x80000000u)' if b == 32 else 'db(bd(a)^0x8000000000000000ull)'))
        e = lambda x, y: '%s(%d, %s, %s)' % (E, p.id(case), x, y)
        p.fn(case, 'var a : %s = %s\n%s\nvar s : st\ns.f = -a\ns.g = -s.f\n%s\n%s\nvar z = -a\nz = -z\n%s\n%s' % (t, I, e('-a', 'r_neg(a)'), e('s.f', 'r_neg(a)'), e('s.g', 'a'), e('z', 'a'), e('id(-a)', 'r_neg(a)')))
        ex = ['a + b + c', 'a + (b + c)', 'a - b - c', 'a - (b - c)', 'a * b + c', 'a + b * c', '(a + b) * c', 'a / b / c', 'a / (b / c)', 'a * (b / c)', 'a * b / c', '(a - b) / (b - c)', '-a * b + -c', '-(a * b) - c', '(a + b) * (b - c) / (c + a)', 'a * 2.0 - b * 0.5 + c', '((a + b) - a) - b', 'a + b - b', 'a * 1.0 + 0.0', '0.0 - a', 'a - a', 'a / a', '(a + b) * (a - b) + (b + c) * (b - c) + (c + a) * (c - a)']
        for i, x in enumerate(ex):
            case = 50 + i; p.titles[case] = '%s, each operation rounded: %s' % (t, x)
            p.cdef(''.join('static __attribute__((noinline)) %s %s(%s a,%s b){ return a %s b; }\n' % (c, on.upper(), c, c, op) for op, on in OPS))
            p.extern('x%d' % i, '(a : %s, b : %s, c : %s -> %s)' % (t, t, t, t), '%s x%d(%s a,%s b,%s c){ return %s; }' % (c, i, c, c, c, steps(ast.parse(x, mode='eval').body, b)))
            p.fn(case, 'var a : %s = %s, b : %s = %s, c : %s = %s\n%s(%d, %s, x%d(a, b, c))\nvar r = %s\n%s(%d, r, x%d(a, b, c))' % (t, I, t, I, t, I, E, p.id(case), x, i, x, E, p.id(case), i))
        p.register(ck, time=60)
def comp(ck):
    for t, c, b in F:
        p = FP('cmp_' + t); I = p.inp(t); EB = p.eq('bool')
        nan = 'n%s' % 'fd'[b == 64]; bb = 'b' + 'fd'[b == 64]
        h0 = 'var a : %s = %s, b : %s = %s\n' % (t, I, t, I)
        p.extern('ord', '(a : %s -> bool)' % t, 'u8 ord(%s a){ return !%s(%s(a)); }' % (c, nan, bb))
        p.add('const id = {x : bool -> bool\n\t-> x\n}\ntype st = struct\n\ta : %s\n\tr : bool\n\tb : %s\n\tz : byte\n;;' % (t, t))
        # an order computed from the bits: a key that is monotone, with -0 equal to 0
        ut = 'u%d' % b; it = 'i64'
        p.cdef('static i64 key(%s x){ %s v=%s(x); i64 m=(i64)(v & %s); return v>>%d ? -m : m; }' % (c, ut, bb, '0x7fffffffu' if b == 32 else '0x7fffffffffffffffull', b - 1))
        for case, (op, on) in enumerate(CMP, 1):
            p.titles[case] = '%s %s' % (t, op); r = 'r_' + on
            p.extern(r, '(a : %s, b : %s -> bool)' % (t, t), 'u8 %s(%s a,%s b){ if(%s(%s(a))|%s(%s(b))) return %d; return key(a) %s key(b); }' % (r, c, c, nan, bb, nan, bb, op == '!=', op))
            e = lambda x, y='r': '%s(%d, %s, %s)' % (EB, p.id(case), x, y)
            R = 'var r = %s(a, b)\n' % r; h = h0
            if on in ('eq', 'ne'): h += 'vsym.assume(ord(a) && ord(b))\n'
            p.fn(case, h + R + 'var x = a %s b\n%s\n%s\n%s\n%s' % (op, e('x'), e('a %s b' % op), e('!(a %s b)' % op, '!r'), e('id(a %s b)' % op)))
            p.fn(case, h + R + 'var k = 0\nif a %s b\n\tk = 1\nelse\n\tk = 2\n;;\n%s\nk = 5\nif !(a %s b)\n\tk = 3\n;;\n%s\nwhile a %s b\n\tk = 9\n\tbreak\n;;\n%s' % (op, e('k == 1'), op, e('k == 3', '!r'), op, e('k == 9')))
            p.fn(case, h + R + 'var y = vsym.u8() & 1 == 1\n%s\n%s\n%s\nvar s : st\ns.a = a\ns.b = b\ns.z = 7\ns.r = s.a %s s.b\n%s\nvsym.check(%d, s.z == 7)\nvar q = y ? a %s b : !(a %s b)\n%s' % (e('a %s b && y' % op, 'r && y'), e('y || a %s b' % op, 'y || r'), e('(a %s b) == y' % op, 'r == y'), op, e('s.r'), p.id(case), op, op, e('q', 'r == y')))
            p.fn(case, 'var a : %s = %s\n%svar r = %s(a, 0.0)\n%s\nr = %s(1.5, a)\n%s\nr = %s(a, a)\n%s\nvar k = 0\nif a %s 0.0\n\tk = 1\n;;\nr = %s(a, 0.0)\n%s\nk = 0\nif a %s a\n\tk = 1\n;;\nr = %s(a, a)\n%s' % (t, I, on in ('eq', 'ne') and 'vsym.assume(ord(a))\n' or '', r, e('a %s 0.0' % op), r, e('1.5 %s a' % op), r, e('a %s a' % op), op, r, e('k == 1'), op, r, e('k == 1')))
        for case, (op, on) in enumerate(CMP[:2], 11):
            p.titles[case] = '%s %s, an operand is a NaN' % (t, op); R = 'vsym.assume(!ord(a) || !ord(b))\nvar r = r_%s(a, b)\n' % on
            k = 901 + 2 * (case - 11); p.ids[case] = [k, k + 1]
            p.fn(case, h0 + R + 'eq_bool(%d, a %s b, r)' % (k, op))
            p.fn(case, h0 + R + 'var k = 0\nif a %s b\n\tk = 1\n;;\neq_bool(%d, k == 1, r)' % (op, k + 1))
        p.register(ck, time=60)
def casts(ck):
    for t, c, b in F:
        p = FP('conv_' + t); I = p.inp(t); E = p.eq(t)
        p.add('type st = struct\n\tz : byte\n\tf : %s\n\ty : byte\n;;' % t)
        for case, (u, cu, bu, su) in enumerate(INTS, 1):
            p.titles[case] = '%s to %s' % (u, t); ui = p.inp(u)
            p.extern('cv_' + u, '(a : %s -> %s)' % (u, t), '%s cv_%s(%s a){ return (%s)a; }' % (c, u, cu, c))
            e = lambda x, y='a': '%s(%d, %s, cv_%s(%s))' % (E, p.id(case), x, u, y)
            p.add('const c_%s = {x : %s -> %s\n\t-> (x : %s)\n}' % (u, u, t, t))
            p.fn(case, 'var a : %s = %s\nvar r = (a : %s)\n%s\n%s\n%s\nvar s : st\ns.z = 1\ns.y = 2\ns.f = (a : %s)\n%s\nvsym.check(%d, s.z == 1 && s.y == 2)' % (u, ui, t, e('r'), e('(a : %s)' % t), e('c_%s(a)' % u), t, e('s.f'), p.id(case)))
            p.fn(case, 'var a : %s = %s, b : %s = %s\n%s\nvar v = [a, b]\n%s\nvar q = &v[0]\n%s' % (u, ui, u, ui, e('(a + b : %s)' % t, 'a + b'), e('(v[1] : %s)' % t, 'b'), e('(q# : %s)' % t)))
            p.fn(case, 'var a : %s = %s\n%s(%d, (a : %s) + 1.0, cv_%s(a) + 1.0)\n%s(%d, -(a : %s), -cv_%s(a))' % (u, ui, E, p.id(case), t, u, E, p.id(case), t, u))
        for case, (u, cu, bu, su) in enumerate(INTS, 21):
            p.titles[case] = '%s to %s, truncated, of numbers that fit' % (t, u); eu = p.eq(u)
            lo, hi = (-(1 << (bu - 1)), 1 << (bu - 1)) if su else (0, 1 << bu)
            # the value computed from the bits of the number, with integers only
            mb = 23 if b == 32 else 52; bias = 127 if b == 32 else 1023
            p.cdef('static u64 mag(%s x){ u64 v=%s(x); int e=(int)(v>>%d&%d)-%d; u64 m=(v&((1ull<<%d)-1))|1ull<<%d; if(e<0) return 0; return e>%d ? m<<(e-%d&63) : m>>(%d-e&63); }' % (c, 'bf' if b == 32 else 'bd', mb, 255 if b == 32 else 2047, bias, mb, mb, mb, mb, mb))
            p.extern('fits_' + u, '(a : %s -> bool)' % t, 'u8 fits_%s(%s a){ u64 v=%s(a); int e=(int)(v>>%d&%d)-%d; u8 n=v>>%d; if(e<0) return 1; if(n) return %s; return e<%d; }' % (
                u, c, 'bf' if b == 32 else 'bd', mb, 255 if b == 32 else 2047, bias, b - 1, 'e<%d' % (bu - 1) if su else '0', bu - 1 if su else bu))
            p.extern('tr_' + u, '(a : %s -> %s)' % (t, u), '%s tr_%s(%s a){ u64 m=mag(a); return (%s)(%s(a)>>%d ? 0-m : m); }' % (cu, u, c, cu, 'bf' if b == 32 else 'bd', b - 1))
            e = lambda x: '%s(%d, %s, tr_%s(a))' % (eu, p.id(case), x, u)
            h = 'var a : %s = %s\nvsym.assume(fits_%s(a))\n' % (t, I, u)
            p.add('const f_%s = {x : %s -> %s\n\t-> (x : %s)\n}\ntype s_%s = struct\n\tz : byte\n\tf : %s\n\ty : byte\n;;' % (u, t, u, u, u, u))
            p.fn(case, h + 'var r = (a : %s)\n%s' % (u, e('r')))
            p.fn(case, h + '%s' % e('f_%s(a)' % u))
            p.fn(case, h + 'var s : s_%s\ns.z = 1\ns.y = 2\ns.f = (a : %s)\n%s\nvsym.check(%d, s.z == 1 && s.y == 2)' % (u, u, e('s.f'), p.id(case)))
            p.fn(case, h + 'var v = [a, a]\nvar i = vsym.range(0, 1)\n%s' % e('(v[i] : %s)' % u))
        o, oc, ob = F[t == 'flt32']
        case = 40; p.titles[case] = '%s to %s' % (t, o); EO = p.eq(o)
        p.extern('w', '(a : %s -> %s)' % (t, o), '%s w(%s a){ return (%s)a; }' % (oc, c, oc))
        p.extern('w2', '(a : %s -> %s)' % (t, t), '%s w2(%s a){ volatile %s x=(%s)a; return (%s)x; }' % (c, c, oc, oc, c))
        p.fn(case, 'var a : %s = %s\nvar r = (a : %s)\n%s(%d, r, w(a))\n%s(%d, (a : %s), w(a))\n%s(%d, ((a : %s) : %s), w2(a))\n%s(%d, (a : %s), a)\nvar v = [a, a]\n%s(%d, (v[1] : %s), w(a))' % (t, I, o, EO, p.id(case), EO, p.id(case), o, E, p.id(case), o, t, E, p.id(case), t, EO, p.id(case), o))
        p.register(ck, time=120)
LITS = ['0.0', '1.0', '0.5', '1.5', '3.25', '0.1', '123456.789', '100000000000000000000.0', '1.0e10', '1.5e-5', '2.5e3', '1.0e300', '1.0e-300', '4.9e-324', '2.2250738585072014e-308', '1.7976931348623157e308', '3.141592653589793', '2.718281828459045235360287', '0.000001', '9007199254740993.0', '9007199254740992.0', '0.30000000000000004', '1_000.5', '1_0.2_5', '10.0e-1', '123.0e2', '5.0e-1', '16777216.0', '33554431.0', '6.25e-2', '1.0e22', '1.0e23', '8.5e0']
def lits(ck):
    for t, c, b in F:
        p = FP('lits_' + t); B = p.bits(t)
        p.titles[1] = 'literals of type %s' % t; p.titles[2] = 'literals as initial values'
        fmt, U = ('f', 'I') if b == 32 else ('d', 'Q')
        for i, l in enumerate(LITS):
            v = float(l.replace('_', ''))
            if b == 32 and (abs(v) > 3e38 or (v and abs(v) < 1.2e-38)): continue
            k = struct.unpack('<' + U, struct.pack('<' + fmt, v))[0]; s = 1 << (b - 1)
            p.fn(1, 'var a : %s = %s\n%s(%d, a, 0x%x)\nvar n : %s = -%s\n%s(%d, n, 0x%x)\n%s(%d, %s, 0x%x)' % (t, l, B, p.id(1), k, t, l, B, p.id(1), k ^ s, B, p.id(1), l, k))
            p.add('const g%d : %s = %s\nvar w%d : %s[3] = [1.0, %s, 2.0]' % (i, t, l, i, t, l))
            p.fn(2, '%s(%d, g%d, 0x%x)\n%s(%d, w%d[1], 0x%x)' % (B, p.id(2), i, k, B, p.id(2), i, k))
        p.fn(1, 'var a = 1.5\nvar b : flt64 = a\nisb_flt64(%d, b, 0x3ff8000000000000)' % p.id(1) if b == 64 else 'var a = (1.5 : flt32)\nisb_flt32(%d, a, 0x3fc00000)' % p.id(1))
        p.register(ck, time=60, bound='the listed literals')
def passing(ck):
    rnd = random.Random(12)
    p = FP('args')
    for t in ('flt32', 'flt64', 'int64', 'int32', 'uint8'): p.inp(t); p.eq(t)
    T = ['flt32', 'flt64', 'int64', 'uint8', 'flt64', 'flt32']
    sigs = [['flt64'] * n for n in (1, 2, 7, 8, 9, 12)] + [['flt32'] * n for n in (1, 2, 8, 9, 11)] + [[rnd.choice(T) for i in range(n)] for n in (3, 5, 8, 12, 16, 20)]
    p.titles[1] = 'arguments of float and other types'; p.titles[2] = 'results of float type'; p.titles[3] = 'through function values, closures and pointers'
    for i, sg in enumerate(sigs):
        A = ', '.join('a%d : %s' % (j, t) for j, t in enumerate(sg))
        r = sg[rnd.randrange(len(sg))]; ri = sg.index(r)
        p.top.append('const f%d = {id, w, %s -> %s\n%s\n\t-> a%d\n}' % (i, A, r, '\n'.join('\teq_%s(id, a%d, w#.m%d)' % (t, j, j) for j, t in enumerate(sg)), ri))
        p.top.append('type s%d = struct\n%s\n;;' % (i, '\n'.join('\tm%d : %s' % (j, t) for j, t in enumerate(sg))))
        ini = 'var s : s%d\n%s\n' % (i, '\n'.join('s.m%d = in_%s()' % (j, t) for j, t in enumerate(sg)))
        # one id for all the arguments
        d1, d2, d3 = p.id(1), p.id(2), p.id(3); L = ', '.join('s.m%d' % j for j in range(len(sg)))
        p.fn(1, ini + 'f%d(%d, &s, %s)' % (i, d1, L))
        p.fn(2, ini + 'var r = f%d(%d, &s, %s)\neq_%s(%d, r, s.m%d)\neq_%s(%d, f%d(%d, &s, %s), s.m%d)' % (i, d1, L, r, d2, ri, r, d2, i, d1, L, ri))
        p.fn(3, ini + 'var g = f%d\nvar c = {; -> g(%d, &s, %s)}\neq_%s(%d, c(), s.m%d)\nvar k = [f%d]\neq_%s(%d, k[0](%d, &s, %s), s.m%d)' % (i, d1, L, r, d3, ri, i, r, d3, d1, L, ri))
    for i in range(len(sigs)):   # the struct is passed to check against by reference
        p.top = [x.replace('const f%d = {id, w,' % i, 'const f%d = {id : int, w : s%d#,' % (i, i)) for x in p.top]
    p.titles[4] = 'floats in aggregates, passed and returned by value'
    for i, sg in enumerate([['flt64'], ['flt32'], ['flt32', 'flt32'], ['flt64', 'flt64'], ['flt32', 'flt64'], ['flt64', 'flt32'], ['flt64', 'int64'], ['int64', 'flt64'], ['flt32', 'int32'], ['int32', 'flt32'], ['flt32', 'flt32', 'flt32'], ['flt32'] * 4, ['flt64'] * 3, ['flt32', 'uint8', 'flt64'], ['uint8', 'flt32'], ['flt32', 'flt32', 'int64'], ['int64', 'flt32', 'flt32']]):
        n = len(sg)
        p.top.append('type q%d = struct\n%s\n;;' % (i, '\n'.join('\tm%d : %s' % (j, t) for j, t in enumerate(sg))))
        p.top.append('const mk%d = {%s -> q%d\n\t-> [%s]\n}' % (i, ', '.join('a%d : %s' % (j, t) for j, t in enumerate(sg)), i, ', '.join('.m%d = a%d' % (j, j) for j in range(n))))
        p.top.append('const ps%d = {x : flt64, a : q%d, y : flt64, b : q%d, c : q%d, n : int -> q%d\n\tif x != y\n\t\t-> a\n\t;;\n\tif n == 1\n\t\t-> b\n\t;;\n\t-> c\n}' % (i, i, i, i, i))
        p.top.append('const tp%d = {a : q%d\n\t-> (%s, 1)\n}' % (i, i, ', '.join('a.m%d' % j for j in range(n))))
        ini = ''.join('var %s%d : %s = in_%s()\n' % (v, j, t, t) for v in 'ab' for j, t in enumerate(sg))
        d = p.id(4)
        chk = lambda s, v: '\n'.join('eq_%s(%d, %s.m%d, %s%d)' % (t, d, s, j, v, j) for j, t in enumerate(sg))
        body = ini + 'var p = mk%d(%s)\nvar q = mk%d(%s)\n%s\n%s\n' % (i, ', '.join('a%d' % j for j in range(n)), i, ', '.join('b%d' % j for j in range(n)), chk('p', 'a'), chk('q', 'b'))
        p.fn(4, body + 'var r = ps%d(1.5, p, 1.5, q, p, 1)\n%s\nr = ps%d(1.5, p, 1.5, p, q, 2)\n%s\nr = ps%d(1.5, p, 2.5, q, q, 2)\n%s' % (i, chk('r', 'b'), i, chk('r', 'b'), i, chk('r', 'a')))
        p.fn(4, ini + 'var p = mk%d(%s)\nvar v = [mk%d(%s), p]\nvar i = vsym.range(1, 1)\nvar w = v[i]\n%s\nmatch tp%d(v[0])\n| (%s, k):\n%s\n\tvsym.check(%d, k == 1)\n;;' % (i, ', '.join('a%d' % j for j in range(n)), i, ', '.join('b%d' % j for j in range(n)), chk('w', 'a'), i, ', '.join('x%d' % j for j in range(n)), '\n'.join('\teq_%s(%d, x%d, b%d)' % (t, d, j, j) for j, t in enumerate(sg)), d))
    p.titles[5] = 'more live values than registers, across calls'
    for t, c in (('flt32', 'float'), ('flt64', 'double')):
        for n in (6, 14, 20, 30):
            d = p.id(5); one = '1.0'
            p.extern('inc_' + t, '(x : %s -> %s)' % (t, t), '%s inc_%s(%s x){ return x+1; }' % (c, t, c))
            b = ''.join('var a%d : %s = in_%s()\n' % (i, t, t) for i in range(n))
            b += ''.join('var b%d = a%d + a%d\n' % (i, i, (i + 1) % n) for i in range(n)) + 'var z = inc_%s(a0)\n' % t
            b += ''.join('var c%d = b%d * a%d\n' % (i, i, (i + 2) % n) for i in range(n)) + 'z = inc_%s(z)\n' % t
            p.extern('m_' + t, '(a : %s, b : %s, c : %s -> %s)' % (t, t, t, t), '%s m_%s(%s a,%s b,%s c){ return (a+b)*c; }' % (c, t, c, c, c))
            b += ''.join('eq_%s(%d, c%d, m_%s(a%d, a%d, a%d))\neq_%s(%d, b%d - a%d, (a%d + a%d) - a%d)\n' % (t, d, i, t, i, (i + 1) % n, (i + 2) % n, t, d, i, i, i, (i + 1) % n, i) for i in range(n))
            b += 'eq_%s(%d, z, inc_%s(inc_%s(a0)))' % (t, d, t, t)
            p.fn(5, b)
    p.titles[6] = 'generic code over floats'
    p.top.append('generic gsum = {a : @a, b : @a :: numeric @a\n\t-> a + b\n}\ngeneric gsq = {a : @a :: numeric,floating @a\n\tif a < 0.0\n\t\t-> -a\n\t;;\n\t-> a * a\n}\ngeneric gid = {a : @a\n\t-> a\n}\ngeneric gmax = {a : @a, b : @a :: numeric @a\n\tif a > b\n\t\t-> a\n\telse\n\t\t-> b\n\t;;\n}')
    for t, c in (('flt32', 'float'), ('flt64', 'double')):
        p.extern('gs_' + t, '(a : %s, b : %s -> %s)' % (t, t, t), '%s gs_%s(%s a,%s b){ return a+b; }' % (c, t, c, c))
        p.extern('gq_' + t, '(a : %s -> %s)' % (t, t), '%s gq_%s(%s a){ return a<0 ? -a : a*a; }' % (c, t, c))
        p.extern('gm_' + t, '(a : %s, b : %s -> %s)' % (t, t, t), '%s gm_%s(%s a,%s b){ return a>b ? a : b; }' % (c, t, c, c))
        p.fn(6, 'var a : {0} = in_{0}(), b : {0} = in_{0}()\neq_{0}({1}, gsum(a, b), gs_{0}(a, b))\neq_{0}({2}, gsq(a), gq_{0}(a))\neq_{0}({3}, gid(a), a)\neq_{0}({4}, gmax(a, b), gm_{0}(a, b))'.format(t, *[p.id(6) for i in range(4)]))
    p.register(ck, time=120)
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    arith(ck); comp(ck); casts(ck); lits(ck); passing(ck)
    ck.programs = len(ck.hs)
