"""Constant folding agrees with run-time evaluation."""
from gen import *
import build as B, random, os
LIBS = []
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
def wrap(v, t):
    b = BITS[t]; v &= (1 << b) - 1
    return v - (1 << b) if SGN[t] and v >> (b - 1) else v
def lit(rnd, t):
    b, s = BITS[t], SGN[t]
    c = [0, 1, 2, 3, 7, 10, 2 ** (b - 1) - 1, 2 ** (b - 2), rnd.randrange(2 ** (b - 1)), rnd.randrange(2 ** (b - 1))]
    if not s: c += [2 ** b - 1, 2 ** (b - 1), 2 ** b - 2, rnd.randrange(2 ** b)]
    return rnd.choice(c)
def tree(rnd, t, d, sym):
    """-> (myrddin, C, kind); every subexpression has an explicit type in C"""
    ct = CT[t]
    if d == 0 or rnd.random() < .1:
        if sym and rnd.random() < .35: return 'a_' + t, '(%s)a_%s' % (ct, t), None
        v = lit(rnd, t); return '(%d : %s)' % (v, t), '((%s)%dULL)' % (ct, v), v
    k = rnd.random()
    if k < .12: m, c, v = tree(rnd, t, d - 1, sym); return '(-%s)' % m, '((%s)(0ULL-(u64)%s))' % (ct, c), None if v is None else wrap(-v, t)
    if k < .18: m, c, v = tree(rnd, t, d - 1, sym); return '(~%s)' % m, '((%s)~(u64)%s)' % (ct, c), None if v is None else wrap(~v, t)
    if k < .38:
        u = rnd.choice(INTS)[0]; m, c, v = tree(rnd, u, d - 1, sym); return '(%s : %s)' % (m, t), '((%s)%s)' % (ct, c), None if v is None else wrap(v, t)
    o = rnd.choice(OPS); m, c, v = tree(rnd, t, d - 1, sym)
    if v is None and o in '/%' and BITS[t] > 8: o = '+'
    if o in ('<<', '>>'):
        n = rnd.randrange(BITS[t]); w = None if v is None else wrap(v << n if o == '<<' else v >> n, t)
        return '(%s %s %d)' % (m, o, n), ('((%s)((u64)%s<<%d))' % (ct, c, n) if o == '<<' else '((%s)(%s>>%d))' % (ct, c, n)), w
    if o in '/%':
        n = rnd.choice([1, 2, 3, 5, 7, 10, 2 ** (BITS[t] - 1) - 1] + ([] if SGN[t] else [2 ** BITS[t] - 1, 2 ** (BITS[t] - 1) + 1]))
        w = None
        if v is not None: q = abs(v) // n; q = -q if v < 0 else q; w = q if o == '/' else v - q * n
        return '(%s %s (%d : %s))' % (m, o, n, t), '((%s)(%s%s(%s)%dULL))' % (ct, c, o, ct, n), w
    m2, c2, v2 = tree(rnd, t, d - 1, sym and (o != '*' or v is not None)); f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b}[o]
    return '(%s %s %s)' % (m, o, m2), '((%s)((u64)%s%s(u64)%s))' % (ct, c, o, c2), None if v is None or v2 is None else wrap(f(v, v2), t)
def unit(ck):
    h = ck.harness('fold', [], [], [], prebuilt=lambda d: B.ccharness('h', [os.path.join(B.VERIF, 'harness/cc/fold.c')], d))
    for k, o in enumerate(OPS, 1): ck.case(h, k, 'folding literal %s literal' % o, 'every pair of literals of each of the 12 integer types' + (' (wide division: 9 divisors)' if o in '/%' else ''), time=100, expect=(k * 10, k * 10 + 2), wit=2)
    ck.case(h, 11, 'folding -literal', 'every literal of each type', expect=(110,), wit=2)
    ck.case(h, 12, 'folding casts of literals', 'every literal, all pairs of types', expect=(120,), wit=2)
    ck.case(h, 13, 'folding (a op b : T) op c', 'all pairs of types', time=200, expect=(130,), wit=2)
    ck.case(h, 14, 'identities with a variable operand', 'every literal; fixed variable value for * / %', time=100, wit=2)
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    unit(ck); rnd = random.Random(400 + ck.seed); n = 120 if ck.thorough() else 24
    for t, ct, b, s in INTS:
        p = Prog('cf_' + t); p.eq('int64'); p.eq('uint64'); p.eq('bool')
        for u in INTS: p.eq(u[0]); p.inp(u[0])
        for c in range(1, 7): p.titles[c] = ['', 'constant expressions as values', 'constant expressions through const declarations', 'mixed constant and variable expressions', 'constant expressions compared and branched on', 'constant expressions as match patterns, indexes and array sizes', 'constant initialisers of globals, structs and arrays'][c] + ' (%s)' % t
        p.extern('any', '(k : int -> bool)', 'u8 any(int k){ return vu8()&1; }')
        args = ', '.join('a_%s : %s' % (u[0], u[0]) for u in INTS); cargs = ','.join('%s a_%s' % (u[1], u[0]) for u in INTS); names = ', '.join('a_' + u[0] for u in INTS)
        decls = ''.join('var a_%s : %s = in_%s()\n' % (u[0], u[0], u[0]) for u in INTS)
        for i in range(n):
            m, c, v = tree(rnd, t, rnd.choice([1, 2, 2, 3]), False)
            while v is None: m, c, v = tree(rnd, t, rnd.choice([1, 2, 3]), False)
            r = 'k%d' % i; p.extern(r, '(-> %s)' % t, '%s %s(void){ return %s; }' % (ct, r, c))
            p.fn(1, 'var x = %s\neq_%s(%d, x, %s())\neq_uint64(%d, (%s : uint64), (%s() : uint64))\neq_int64(%d, ((%s) : int64), (%s() : int64))' % (m, t, p.id(1), r, p.id(1), m, r, p.id(1), m, r))
            if '~' in m:
                p.fn(4, 'eq_bool(%d, %s == %s, true)' % (p.id(4), m, '(%d : %s)' % (v, t) if v >= 0 else '(-(%d : %s))' % (-v, t))); continue   # ~ is not folded, so not allowed in a static initialiser
            p.add('const C%d : %s = %s\nconst D%d = C%d + (1 : %s)' % (i, t, m, i, i, t))
            p.extern(r + 'p', '(-> %s)' % t, '%s %sp(void){ return (%s)((u64)(%s)+1); }' % (ct, r, ct, c))
            p.fn(2, 'const l = %s\nvar w = l\neq_%s(%d, w, %s())\neq_%s(%d, C%d, %s())\neq_uint64(%d, (C%d : uint64), (%s() : uint64))\neq_%s(%d, D%d, %sp())\neq_uint64(%d, (D%d : uint64), (%sp() : uint64))' % (m, t, p.id(2), r, t, p.id(2), i, r, p.id(2), i, r, t, p.id(2), i, r, p.id(2), i, r))
            x = rnd.choice([v, wrap(v + 1, t), wrap(v - 1, t), lit(rnd, t)])
            lx = '(%d : %s)' % (x, t) if x >= 0 else '(-(%d : %s))' % (-x, t)
            p.fn(4, '\n'.join('eq_bool(%d, %s %s %s, %s)' % (p.id(4), m, o, lx, 'true' if eval('%d %s %d' % (v, o, x)) else 'false') for o in ('<', '<=', '>', '>=', '==', '!='))
                 + '\nvar y = %s\nif %s < y\n\teq_bool(%d, true, %s)\nelse\n\teq_bool(%d, false, %s)\n;;' % (lx, m, p.xid(), 'true' if v < x else 'false', p.xid(), 'true' if v < x else 'false'))
            if t != 'char' or v < 0x110000:
                p.fn(5, decls.split('\n')[[u[0] for u in INTS].index(t)] + '\nvar g = 0\nmatch a_%s\n| C%d: g = 1\n| _: g = 2\n;;\neq_bool(%d, g == 1, a_%s == %s())' % (t, i, p.id(5), t, r))
            if 0 <= v <= 60 and t != 'char':
                p.fn(5, 'var arr : byte[%s]\neq_uint64(%d, (arr.len : uint64), %d)\nvar arr2 : byte[C%d]\neq_uint64(%d, (arr2.len : uint64), %d)\nvar buf : byte[64]\nbuf[%s] = 7\neq_bool(%d, buf[%d] == 7, true)\nvar sl = buf[%s:]\neq_uint64(%d, sl.len, %d)' % (m, p.id(5), v, i, p.id(5), v, m, p.id(5), v, m, p.id(5), 64 - v))
            p.add('type gs%d = struct\n\ta : byte\n\tb : %s\n\tc : int64\n;;\nconst G%d : gs%d = [.a=9, .b=%s, .c=(%s : int64)]\nvar V%d : %s = %s\nconst A%d : %s[3] = [1, %s, 2]' % (i, t, i, i, m, m, i, t, m, i, t, m))
            p.fn(6, 'eq_%s(%d, V%d, %s())\neq_%s(%d, G%d.b, %s())\neq_int64(%d, G%d.c, (%s() : int64))\neq_%s(%d, A%d[1], %s())\neq_bool(%d, G%d.a == 9 && A%d[0] == 1 && A%d[2] == 2, true)' % (t, p.id(6), i, r, t, p.id(6), i, r, p.id(6), i, r, t, p.id(6), i, r, p.id(6), i, i, i))
        for i in range(n):
            m, c, v = tree(rnd, t, rnd.choice([2, 3, 3, 4]), True); r = 'm%d' % i
            if v is not None or '*' in m and t in ('int64', 'uint64') and m.count('*') > 1: continue
            p.extern(r, '(%s -> %s)' % (args, t), '%s %s(%s){ return %s; }' % (ct, r, cargs, c))
            used = [u[0] for u in INTS if 'a_' + u[0] in m.replace(')', ' ').split() or 'a_%s ' % u[0] in m + ' ' or 'a_%s)' % u[0] in m]
            d = ''.join('var a_%s : %s = %s\n' % (u[0], u[0], 'in_%s()' % u[0] if u[0] in used else '0') for u in INTS)
            p.fn(3, d + 'eq_%s(%d, %s, %s(%s))' % (t, p.id(3), m, r, names))
        p.titles[7] = 'a call beside a constant operand happens exactly once (%s)' % t
        p.eq('int'); p.add('var calls : int = 0\nconst cnt = {x : %s -> %s\n\tcalls++\n\t-> x\n}' % (t, t))
        for e, cx in [('cnt(a) * 0', '0'), ('0 * cnt(a)', '0'), ('cnt(a) %% 1', '0'), ('cnt(a) + 0', 'a'), ('0 + cnt(a)', 'a'), ('cnt(a) - 0', 'a'), ('cnt(a) * 1', 'a'), ('cnt(a) / 1', 'a'), ('cnt(a) & 0', '0'), ('cnt(a) | 0', 'a'), ('cnt(a) << 0', 'a'), ('cnt(a) - cnt(a)', '0')]:
            e = e.replace('%%', '%'); p.fn(7, 'var a = in_%s()\ncalls = 0\nvar r = %s\neq_%s(%d, r, %s)\neq_int(%d, calls, %d)' % (t, e, t, p.id(7), cx, p.id(7), e.count('cnt')))
        p.register(ck, time=60, bound='every value of the variable operands; seeded constant expressions')
    ck.programs = len(ck.hs)
