"""Comparisons, boolean operators, short-circuit evaluation and the branches compiled from them."""
from gen import *
import random
LIBS = []
REL = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
def consts(t):
    b, s = BITS[t], SGN[t]
    c = [0, 1, 2 ** (b - 1) - 1, 77]
    c += [-1, -(2 ** (b - 1)) + 1] if s else [2 ** b - 1, 2 ** (b - 1)]
    return sorted(set(c))
def lit(v): return '%d' % v if v >= 0 else '(-%d)' % -v
def rel_programs(ck):
    for t, ct, b, s in INTS:
        p = Prog('rel_' + t); I = p.inp(t); p.eq('bool')
        p.add('type st = struct\n\tp\t: byte\n\ta\t: %s\n\tf\t: bool\n\tb\t: %s\n;;' % (t, t))
        p.add('const pass = {x : bool -> bool\n\t-> x\n}')
        for case, (on, op) in enumerate(REL.items(), 1):
            r = 'r_' + on
            p.extern(r, '(a : %s, b : %s -> bool)' % (t, t), 'u8 %s(%s a,%s b){ return a%sb; }' % (r, ct, ct, op))
            head = 'var a : %s = %s\nvar b : %s = %s\n' % (t, I, t, I)
            e = lambda x, y='a', z='b', n='': 'eq_bool(%d, %s, %s%s(%s, %s))' % (p.id(case), x, n, r, y, z)
            p.titles[case] = 'comparison %s on %s' % (op, t)
            T = lambda body: p.fn(case, head + body)
            T('var v = a %s b\n%s\n%s\nv = !(a %s b)\n%s' % (op, e('v'), e('pass(a %s b)' % op), op, e('v', n='!')))
            T('var v\nif a %s b\n\tv = true\nelse\n\tv = false\n;;\n%s' % (op, e('v')))
            T('var v = true\nif !(a %s b)\n\tv = false\n;;\n%s' % (op, e('v')))
            T('var v = false\nwhile a %s b\n\tv = true\n\tbreak\n;;\n%s' % (op, e('v')))
            T('var s : st = [.p=1, .a=a, .b=b]\nvar q = &s\ns.f = s.a %s s.b\n%s\nif q.a %s q.b\n\ts.p = 9\n;;\n%s\n%s' % (op, e('s.f'), op, e('s.p == 9'), e('q.a %s b' % op)))
            T('var v : %s[2] = [a, b]\nvar i = vsym.range(0, 1)\nvar w = v[i] %s v[1 - i]\nvar x : %s, y : %s\nx = v[i]\ny = v[1 - i]\n%s' % (t, op, t, t, e('w', 'x', 'y')))
            T('%s\n%s' % (e('(a %s b) == true' % op), e('(a %s b) != false' % op)))
            T('var m : bool[3]\nm[0] = a %s b\nm[1] = b %s a\nm[2] = a %s a\n%s\n%s\n%s' % (op, op, op, e('m[0]'), e('m[1]', 'b', 'a'), e('m[2]', 'a', 'a')))
            for k in consts(t):
                l = lit(k)
                p.fn(case, 'var a : %s = %s\nvar k : %s = %s\nvar v = 0\n%s\n%s\nif a %s %s\n\tv = 1\n;;\n%s\nif %s %s a\n\tv = 2\n;;\n%s' % (t, I, t, l, e('a %s %s' % (op, l), 'a', 'k'), e('%s %s a' % (l, op), 'k', 'a'), op, l, e('v == 1', 'a', 'k'), l, op, e('v == 2', 'k', 'a')))
        p.register(ck, time=40)
def rtree(rnd, d):
    if d == 0 or rnd.random() < .12: return ('v', rnd.randrange(5))
    k = rnd.choice(['and', 'or', 'not', 'and', 'or', 'cmp', 'eq', 'ne', 'call'])
    if k == 'not': return (k, rtree(rnd, d - 1))
    if k == 'cmp': return (k, rnd.choice(list(REL.values())), rnd.randrange(3), rnd.randrange(3))
    if k == 'call': return (k, rnd.randrange(1, 9), rtree(rnd, d - 1))
    return (k, rtree(rnd, d - 1), rtree(rnd, d - 1))
def emit(x, c):
    k = x[0]
    if k == 'v': return 'v%d' % x[1]
    if k == 'not': return '(!%s)' % emit(x[1], c)
    if k == 'cmp': return '(n%d %s n%d)' % (x[2], x[1], x[3])
    if k == 'call': return ('c_tick(n, %d, %s)' if c else 'tick(&n, %d, %s)') % (x[1], emit(x[2], c))
    return '(%s %s %s)' % (emit(x[1], c), {'and': '&&', 'or': '||', 'eq': '==', 'ne': '!='}[k], emit(x[2], c))
def bool_programs(ck):
    n = 400 if ck.thorough() else 90
    rnd = random.Random(20 + ck.seed); per = 15
    for blk in range((n + per - 1) // per):
        p = Prog('log_%d' % blk); p.eq('bool'); p.inp('bool'); p.eq('int')
        p.inp('int8')
        p.add('const tick = {n : int#, k : int, x : bool -> bool\n\tn# = n#*10 + k\n\t-> x\n}')
        p.cdef('static u8 c_tick(int *n,int k,u8 x){ *n=(int)((unsigned)*n*10+k); return x; }')
        for i in range(per):
            t = rtree(rnd, 4); r = 'r%d' % i; case = i + 1; w = rnd.randrange(4)
            p.titles[case] = 'boolean expression %s' % emit(t, True)[:200]
            for suf, ret in (('v', 'x'), ('n', 'n0')):
                p.extern(r + suf, '(v0 : bool, v1 : bool, v2 : bool, v3 : bool, v4 : bool, m : int8[:] -> %s)' % ('bool' if suf == 'v' else 'int'), '') if 0 else None
            p.extern(r, '(v : bool#, m : int8#, k : int# -> bool)', 'u8 %s(u8*v,signed char*m,int*k){ u8 v0=v[0],v1=v[1],v2=v[2],v3=v[3],v4=v[4]; signed char n0=m[0],n1=m[1],n2=m[2]; int z=0,*n=&z; u8 x=%s; *k=z; return x; }' % (r, emit(t, True)))
            pre = 'var a : bool[5]\nvar m : int8[3]\nvar n = 0, k\nvar v0, v1, v2, v3, v4, n0, n1, n2\n' + ''.join('a[%d] = in_bool()\nv%d = a[%d]\n' % (j, j, j) for j in range(5)) + ''.join('m[%d] = in_int8()\nn%d = m[%d]\n' % (j, j, j) for j in range(3))
            E = emit(t, False); i1 = p.id(case); i2 = p.id(case)
            body = {0: 'var x = %s' % E, 1: 'var x = false\nif %s\n\tx = true\n;;' % E, 2: 'var x = true\nif !%s\n\tx = false\nelse\n\tx = true\n;;' % E, 3: 'var x = false\nwhile %s\n\tx = true\n\tbreak\n;;' % E}[w]
            p.fn(case, pre + body + '\nvar y = %s(&a[0], &m[0], &k)\neq_bool(%d, x, y)\neq_int(%d, n, k)' % (r, i1, i2))
        p.register(ck, time=40, bound='all booleans, all 8-bit comparison operands')
def misc(ck):
    p = Prog('misc'); p.eq('bool'); p.eq('int'); p.inp('bool'); p.inp('uint64'); p.inp('int')
    for case, (on, op) in enumerate(REL.items(), 1):
        p.titles[case] = 'pointer comparison %s' % op
        p.extern('rp_' + on, '(a : uint64, b : uint64 -> bool)', 'u8 rp_%s(u64 a,u64 b){ return a%sb; }' % (on, op))
        p.fn(case, 'var a = in_uint64()\nvar b = in_uint64()\nvar p = (a : int#), q = (b : int#)\nvar x = false\nif p %s q\n\tx = true\n;;\neq_bool(%d, x, rp_%s(a, b))\neq_bool(%d, p %s q, rp_%s(a, b))' % (op, p.id(case), on, p.id(case), op, on))
    case = 10; p.titles[case] = 'bool equality and negation'
    p.fn(case, 'var a = in_bool()\nvar b = in_bool()\nvar r\nif a\n\tif b\n\t\tr = true\n\telse\n\t\tr = false\n\t;;\nelif b\n\tr = false\nelse\n\tr = true\n;;\neq_bool(%d, a == b, r)\neq_bool(%d, a != b, !r)\neq_bool(%d, !(!a), a)\nvar t = true\nvar f = false\neq_bool(%d, a == t, a)\neq_bool(%d, a == f, !a)' % tuple(p.id(case) for _ in range(5)))
    case = 11; p.titles[case] = 'if/elif/else chains take the first true branch'
    p.extern('r_chain', '(a : bool, b : bool, c : bool, d : bool -> int)', 'int r_chain(u8 a,u8 b,u8 c,u8 d){ return a?1:b?2:c?3:d?4:5; }')
    p.fn(case, 'var a = in_bool(), b = in_bool(), c = in_bool(), d = in_bool()\nvar r\nif a\n\tr = 1\nelif b\n\tr = 2\nelif c\n\tr = 3\nelif d\n\tr = 4\nelse\n\tr = 5\n;;\neq_int(%d, r, r_chain(a, b, c, d))' % p.id(case))
    case = 12; p.titles[case] = 'conditional with large stack operands'
    p.fn(case, 'var big : int[40]\nvar x = in_int()\nvar y = in_int()\nbig[39] = x\nbig[0] = y\nvar r = 0\nif big[39] < big[0] && big[39] > -5 || big[0] == 7\n\tr = 1\n;;\neq_int(%d, r, r_big(x, y))' % p.id(case))
    p.extern('r_big', '(x : int, y : int -> int)', 'int r_big(int x,int y){ return x<y && x>-5 || y==7; }')
    p.register(ck, time=40)
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    rel_programs(ck); bool_programs(ck); misc(ck); ck.programs = len(ck.hs)
