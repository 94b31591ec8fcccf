"""Aggregates: structs, tuples, arrays, unions and slices as values."""
from gen import *
from genagg import *
import random, os
LIBS = []
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 1000 + 8)
    ts = FIXED + [rtype(rnd, 3, True) for _ in range(22 if not ck.thorough() else 120)]
    per = 4
    for i in range(0, len(ts), per): one(ck, i // per, ts[i:i + per], rnd)
    alias(ck)
    ck.programs = len(ck.hs)
def one(ck, k, ts, rnd):
    p = Prog('agg%d' % k); g = G(p); p.cdef('static u64 S[4096];'); p.add('var gbuf : int32[8]'); p.inp('uint64')
    for c, t in enumerate(ts, 1):
        T = g.name(t); p.titles[c] = 'values of type %s' % (T if len(T) < 60 else T[:57] + '...') + ('' if t[0] in 'st' else '')
        def mk(): s = []; return g.lit(t, rnd, s), s
        def body(lines): p.fn(c, '\n'.join(lines))
        pre = 'P%d_%d' % (k, c)
        C = lambda e, s: g.chk(t, e, list(s), c)
        G1 = lambda v, m: 'vsym.check(%d, %s == %s)' % (p.id(c), v, m)
        p.add('type w%s = struct\n\ta : byte\n\tv : %s\n\tb : byte\n;;\nvar g%s : %s\nvar ga%s : %s[3]\ntype uw%s = union\n\t`Va%s %s\n\t`Vb%s byte\n;;' % (pre, T, pre, T, pre, T, pre, pre, T, pre))
        p.add('const id%s = {x : %s -> %s\n\t-> x\n}\ngeneric gid%s = {x : @a -> @a\n\tvar y : @a\n\ty = x\n\t-> y\n}' % (pre, T, T, pre))
        # a literal, a copy, and changing the original
        e, s = mk(); e2, s2 = mk()
        body(['var x : %s, y : %s' % (T, T), 'x = %s' % e, 'y = x', 'x = %s' % e2] + C('y', s) + C('x', s2))
        e, s = mk(); body(['var x : %s = %s' % (T, e)] + C('x', s) + ['x = x'] + C('x', s))
        # through pointers, to and from
        e, s = mk(); e2, s2 = mk()
        body(['var x : %s = %s' % (T, e), 'var p = &x, y', 'y = p#', 'p# = %s' % e2] + C('x', s2) + C('y', s) + ['p# = y'] + C('x', s) + C('p#', s))
        # passed to and returned from functions, which change their own copy only
        e, s = mk(); e2, s2 = mk()
        p.add('const cb%s = {a : byte, x : %s, b : byte, l : int64\n\tvar k = x\n%s\n\tx = gx%s()\n%s\n\tvsym.check(%d, a == 0x5a && b == 0xa5 && l == -2)\n}' % (pre, T, '\n'.join('\t' + l for l in C('k', s)), pre, '\n'.join('\t' + l for l in C('x', s2)), p.id(c)))
        p.add('const gx%s = {-> %s\n\t-> %s\n}' % (pre, T, e2))
        body(['var x : %s = %s' % (T, e), 'cb%s(0x5a, x, 0xa5, -2)' % pre] + C('x', s))
        e, s = mk(); body(['var x : %s = id%s(%s)' % (T, pre, e)] + C('x', s) + ['x = gid%s(x)' % pre] + C('x', s) + ['x = id%s(id%s(x))' % (pre, pre)] + C('x', s) + ['var f = id%s' % pre, 'x = f(x)'] + C('x', s) + C('f(x)', s)[:40])
        # several at once, and more arguments than registers
        e, s = mk(); e2, s2 = mk(); e3, s3 = mk()
        p.add('const three%s = {a : int64, x : %s, b : int64, y : %s, c : int64, d : int64, e : int64, f : int64, z : %s, g : int8\n%s\n\tvsym.check(%d, a == 1 && b == 2 && c == 3 && d == 4 && e == 5 && f == 6 && g == -7)\n\t-> (z, a, x)\n}' % (pre, T, T, T, '\n'.join('\t' + l for l in C('x', s) + C('y', s2) + C('z', s3)), p.id(c)))
        body(['var r : (%s, int64, %s)' % (T, T), 'r = three%s(1, %s, 2, %s, 3, 4, 5, 6, %s, -7)' % (pre, e, e2, e3)] + C('r.0', s3) + C('r.2', s) + [G1('r.1', 1), 'var z : %s, q : int64, w : %s' % (T, T), '(z, q, w) = r'] + C('z', s3) + C('w', s) + ['(z, w) = (w, z)'] + C('z', s) + C('w', s3))
        # as part of others; the neighbours stay
        e, s = mk(); e2, s2 = mk()
        body(['var w : w%s, q : w%s#, v : w%s' % (pre, pre, pre), 'w = [.a=0x11, .b=0x22, .v=%s]' % e] + C('w.v', s) + [G1('w.a', '0x11'), G1('w.b', '0x22'), 'v = w', 'w.v = %s' % e2] + C('w.v', s2) + C('v.v', s) + [G1('w.a', '0x11'), G1('w.b', '0x22'), 'q = &v', 'q.v = w.v'] + C('v.v', s2) + [G1('q.a', '0x11'), G1('q.b', '0x22'), 'q.a = 0x33; q.b = 0x44'] + C('q.v', s2) + [G1('v.a', '0x33'), G1('v.b', '0x44')])
        # of arrays and slices, at any index
        e, s = mk(); e2, s2 = mk(); e3, s3 = mk(); e4, s4 = mk()
        body(['var v : %s[3], i = vsym.range(0, 2), u, l : %s[:]' % (T, T), 'v = [%s, %s, %s]' % (e, e2, e3), 'u = v', 'u[i] = %s' % e4] + C('u[i]', s4) + ['match i', '| 0:'] + ['\t' + x for x in C('u[1]', s2) + C('u[2]', s3)] + ['| 1:'] + ['\t' + x for x in C('u[0]', s) + C('u[2]', s3)] + ['| _:'] + ['\t' + x for x in C('u[0]', s) + C('u[1]', s2)] + [';;'] + C('v[0]', s) + C('v[1]', s2) + C('v[2]', s3) + ['l = v[:]', 'l[0] = l[2]'] + C('v[0]', s3) + C('v[1]', s2) + C('v[2]', s3) + ['l[vsym.conc(i)] = u[i]'] + C('v[i]', s4))
        # globals
        e, s = mk(); e2, s2 = mk()
        body(['g%s = %s' % (pre, e), 'ga%s[1] = g%s' % (pre, pre), 'g%s = %s' % (pre, e2)] + C('g%s' % pre, s2) + C('ga%s[1]' % pre, s) + g.zero(t, 'ga%s[0]' % pre, c) + g.zero(t, 'ga%s[2]' % pre, c))
        # in a union, and taken out of it
        e, s = mk(); e2, s2 = mk()
        body(['var x : %s, o : uw%s, o2 : uw%s' % (T, pre, pre), 'x = %s' % e, 'o = `Va%s x' % pre, 'o2 = o', 'x = %s' % e2, 'o = `Vb%s 9' % pre, 'match o2', '| `Va%s y:' % pre, '\tx = y'] + ['| `Vb%s _:' % pre, '\tvsym.check(%d, false)' % p.xid(), ';;'] + C('x', s) + ['match o', '| `Vb%s b:	%s' % (pre, G1('b', 9)), '| _:	vsym.check(%d, false)' % p.xid(), ';;'])
        # chosen, and in loops
        e, s = mk(); e2, s2 = mk()
        body(['var x : %s = %s, y : %s = %s, z : %s, c = vsym.u8()' % (T, e, T, e2, T), 'z = c > 7 ? x : y', 'if c > 7'] + ['\t' + l for l in C('z', s)] + ['else'] + ['\t' + l for l in C('z', s2)] + [';;', 'for var i = 0; i < 3; i++', '\tvar o = x', '\tx = y', '\ty = o', ';;'] + C('x', s2) + C('y', s))
        # of a struct literal, what is left out is zero
        if t[0] in ('st',) and len(t[1]) > 1:
            for keep in range(min(len(t[1]), 2)):
                s = []; e = g.lit(t[1][keep], rnd, s)
                body(['var x : %s' % T, 'dirty()', 'x = [.m%d=%s]' % (keep, e)] + g.chk(t[1][keep], 'x.m%d' % keep, s, c) + sum((g.zero(y, 'x.m%d' % i, c) for i, y in enumerate(t[1]) if i != keep), []))
            p.add('var dv : byte[600]\nconst dirty = {\n\tvar b : byte[600]\n\tfor var i = 0; i < b.len; i++\n\t\tb[i] = 0xee\n\t;;\n\tdv = b\n}')
        # layout: aligned, apart, inside
        if t[0] in ('st', 't'):
            m = ['m%d' % i if t[0] == 'st' else str(i) for i in range(len(t[1]))]
            L = ['var x : %s' % T, 'var lo = (&x : uint64), end = lo']
            for y, n in zip(t[1], m): L += ['vsym.check(%d, (&x.%s : uint64) >= end)' % (p.id(c), n), 'end = (&x.%s : uint64) + sizeof(%s)' % (n, g.name(y))]
            L += ['vsym.check(%d, end <= lo + sizeof(%s))' % (p.id(c), T)]
            body(L)
    p.register(ck, bound='every value of the scalars in it; slices of a buffer of 8', time=100)
def alias(ck):
    """a value made from what it replaces"""
    p = Prog('alias'); p.eq('int32'); p.eq('int64'); E = 'eq_int32'; K = p.id; c = 1
    a, b, d = ('var a : int32 = %s\n' % p.inp('int32')), ('var b : int32 = %s\n' % p.inp('int32')), ('var d : int32 = %s\n' % p.inp('int32'))
    p.add('type ps = struct\n\tx : int32\n\ty : int32\n\tz : int32\n;;\ntype un = union\n\t`Ua int32\n\t`Ub (int32, un#)\n\t`Uc\n;;\ntype nd = struct\n\tv : int32\n\tn : nd#\n;;\nvar gp : ps\nvar gar : int32[3]\nconst rot = {p : ps\n\t-> [.x=p.y, .y=p.z, .z=p.x]\n}\nconst gget = {-> ps\n\t-> [.x=gp.y, .y=gp.z, .z=gp.x]\n}')
    chk = lambda v, ms, vals: '\n'.join('%s(%d, %s%s, %s)' % (E, K(c), v, m, x) for m, x in zip(ms, vals))
    xyz = ['.x', '.y', '.z']; ix = ['[0]', '[1]', '[2]']; tu = ['.0', '.1', '.2']
    p.titles[c] = 'literals made from the variable they are assigned to'
    P = a + b + d + 'var p : ps = [.x=a, .y=b, .z=d], q = &p, t = (a, b, d), v : int32[3] = [a, b, d], s = v[:], m : ps[2], r = &t\nm = [p, p]\ngp = p\ngar = v\n'
    for dst in ('p', 'q#', 'm[0]', 'gp', 'm[vsym.range(0, 0)]'):
        for src in (dst, 'q#' if dst == 'p' else 'p' if dst == 'q#' else dst):
            p.fn(c, P + '%s = [.x=%s.y, .y=%s.z, .z=%s.x]\n' % (dst, src, src, src) + chk(dst, xyz, 'bda'))
            p.fn(c, P + '%s = [.z=%s.x, .x=%s.z]\n' % (dst, src, src) + chk(dst, xyz, ['d', '0', 'a']))
        p.fn(c, P + '%s = rot(%s)\n%s = rot(rot(%s))\n' % (dst, dst, dst, dst) + chk(dst, xyz, 'abd'))
        p.fn(c, P + '%s = %s.x > 3 ? [.x=%s.z, .y=%s.x, .z=%s.y] : %s\nif a > 3\n' % (dst, dst, dst, dst, dst, dst) + '\n'.join('\t' + l for l in chk(dst, xyz, 'dab').split('\n')) + '\nelse\n' + '\n'.join('\t' + l for l in chk(dst, xyz, 'abd').split('\n')) + '\n;;')
    p.fn(c, P + 'gp = gget()\n' + chk('gp', xyz, 'bda'))
    for dst in ('t', 'r#'):
        p.fn(c, P + '%s = (%s.2, %s.0, %s.1)\n' % (dst, dst, dst, dst) + chk(dst, tu, 'dab'))
        p.fn(c, P + '%s = (r.2, t.0, r.1)\n' % dst + chk(dst, tu, 'dab'))
        p.fn(c, P + '(%s.1, %s.2, %s.0) = %s\n' % (dst, dst, dst, dst) + chk(dst, tu, 'dab'))
        p.fn(c, P + '(%s.1, _, %s.0) = (%s.0, %s.1, %s.2)\n' % ((dst,) * 5) + chk(dst, tu, 'dad'))
    for dst in ('v', 'gar'):
        p.fn(c, P + '%s = [%s[2], %s[0], %s[1]]\n' % ((dst,) * 4) + chk(dst, ix, 'dab'))
        p.fn(c, P + 'var i = vsym.range(0, 2)\n%s = [%s[i], %s[i], %s[i]]\n' % ((dst,) * 4) + '\n'.join('vsym.check(%d, (i == 0 && %s[%d] == a) || (i == 1 && %s[%d] == b) || (i == 2 && %s[%d] == d))' % (K(c), dst, j, dst, j, dst, j) for j in range(3)))
        p.fn(c, P + '(%s[1], %s[0]) = (%s[0], %s[1])\n' % ((dst,) * 4) + chk(dst, ix, 'bad'))
    p.fn(c, P + 'v = [s[2], s[0], s[1]]\n' + chk('s', ix, 'dab'))
    p.fn(c, P + 'm = [m[1], [.x=m[0].z, .y=m[1].x, .z=m[0].y]]\n' + chk('m[0]', xyz, 'abd') + '\n' + chk('m[1]', xyz, 'dab'))
    p.fn(c, P + 'm[1] = [.x=m[0].z, .y=m[1].x, .z=m[1].y]\n' + chk('m[0]', xyz, 'abd') + '\n' + chk('m[1]', xyz, 'dab'))
    c = 2; p.titles[c] = 'unions, slices, lists and closures made from the variable they are assigned to'
    chk = lambda v, ms, vals: '\n'.join('%s(%d, %s%s, %s)' % (E, K(c), v, m, x) for m, x in zip(ms, vals))
    U = a + b + 'var u : un, w : un\nu = `Ua a\nw = u\n'
    def got(v, tag, body): return 'match %s\n| `%s:\n\t%s\n| _:\tvsym.check(%d, false)\n;;\n' % (v, tag, body, p.xid())
    p.fn(c, U + 'match u\n| `Ua k:\tu = `Ub (k, &w)\n| _:\n;;\n' + got('u', 'Ub (k, o)', 'eq_int32(%d, k, a)\n\tvsym.check(%d, o == &w)' % (K(c), K(c))))
    p.fn(c, U + 'u = `Ub (b, &w)\nmatch u\n| `Ub (k, o):\tu = `Ua k\n| _:\n;;\n' + got('u', 'Ua k', 'eq_int32(%d, k, b)' % K(c)))
    p.fn(c, U + 'u = `Ub (b, &w)\nmatch u\n| `Ub (k, o):\tu = `Ub (k + a, o)\n| _:\n;;\n' + got('u', 'Ub (k, o)', 'eq_int32(%d, k, a + b)\n\tvsym.check(%d, o == &w)' % (K(c), K(c))))
    p.add('const ub = {u : un -> int32\n\tmatch u\n\t| `Ua k:	-> k\n\t| `Ub (k, _):	-> k\n\t| _:	-> 0\n\t;;\n}')
    p.fn(c, U + 'u = `Ub (ub(u) + 1, &u)\n' + got('u', 'Ub (k, o)', 'eq_int32(%d, k, a + 1)\n\tvsym.check(%d, o == &u)' % (K(c), K(c))))
    p.fn(c, U + 'var o = &u\no# = `Ub (ub(o#), o)\n' + got('u', 'Ub (k, _)', 'eq_int32(%d, k, a)' % K(c)))
    N = a + b + 'var x : nd, y : nd, p\nx = [.v=a, .n=&y]\ny = [.v=b, .n=&x]\np = &x\n'
    p.fn(c, N + 'x = [.n=x.n.n, .v=x.n.v]\neq_int32(%d, x.v, b)\nvsym.check(%d, x.n == &x)' % (K(c), K(c)))
    p.fn(c, N + 'p# = [.v=p.n.v, .n=p.n.n]\neq_int32(%d, x.v, b)\nvsym.check(%d, x.n == &x)' % (K(c), K(c)))
    p.fn(c, N + 'p# = p.n#\neq_int32(%d, x.v, b)\nvsym.check(%d, x.n == &x)' % (K(c), K(c)))
    p.fn(c, N + 'p.n# = p#\neq_int32(%d, y.v, a)\nvsym.check(%d, y.n == &y)' % (K(c), K(c)))
    p.add('var lb : int32[9]')
    L = 'var s : int32[:] = lb[1:8], i = vsym.range(0, 3)\nfor var k = 0; k < 9; k++\n\tlb[k] = (k : int32)\n;;\n'
    for e, lo, hi in [('s[i:]', 'i', '7'), ('s[:i]', '0', 'i'), ('s[i:i+2]', 'i', 'i+2'), ('s[1:s.len-1]', '1', '6'), ('s[s.len-2:]', '5', '7'), ('s[i:s.len-i]', 'i', '7-i'), ('s[s[0]:]', '1', '7'), ('s[s[0]:s[3]]', '1', '4'), ('s[s[i]:s[3]]', 'i+1', '4'), ('lb[1:8][s[1]:s.len]', '2', '7'), ('s[1:][s[0]:]', '2', '7')]:
        p.fn(c, L + 's = %s\nvsym.check(%d, s.len == %s - (%s))\nvsym.check(%d, (s : int32#) == &lb[1 + %s])' % (e, K(c), hi, lo, K(c), lo))
        p.fn(c, L + 'var q = &s\nq# = %s\nvsym.check(%d, s.len == %s - (%s))\nvsym.check(%d, (s : int32#) == &lb[1 + %s])' % (e.replace('s[', 'q#[').replace('s.len', 'q#.len'), K(c), hi, lo, K(c), lo))
    p.fn(c, a + b + 'var f = {; -> a}\na = a + 1\nf = {; -> f() + a}\neq_int32(%d, f(), a + a - 1)' % K(c))
    p.register(ck, bound='every value of the members', time=100)
