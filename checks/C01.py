"""Integer arithmetic, bitwise operations and shifts of compiled code, per type."""
from gen import *
LIBS = []
OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'shr': '>>'}
def consts(t, op):
    b, s = BITS[t], SGN[t]
    if op in ('shl', 'shr'): return sorted({1, b // 2, b - 1})
    c = [1, 3, 7 if op in ('div', 'mod') else 100, 2 ** (b - 2) + 5, 2 ** (b - 1) - 1]
    if op in ('mul', 'div', 'mod'): c += [2, 8]
    if op not in ('div', 'mod'): c.append(0)
    if not s: c += [2 ** b - 1, 2 ** (b - 1)]
    else: c += [-1 if op not in ('div', 'mod') else -2, -(2 ** (b - 1)) + 1]
    return sorted(set(c))
def lit(v): return '%d' % v if v >= 0 else '(-%d)' % -v
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    for t, ct, b, s in INTS:
        p = Prog('ar_' + t); I = p.inp(t); E = p.eq(t)
        p.add('type st_%s = struct\n\tpre\t: byte\n\ta\t: %s\n\tmid\t: byte\n\tb\t: %s\n\tpost\t: %s\n;;' % (t, t, t, t))
        p.add('var ga : %s\nvar gb : %s\nvar garr : %s[4]' % (t, t, t))
        for case, (on, op) in enumerate(OPS.items(), 1):
            r = 'r_%s' % on
            guard = ''
            if on in ('div', 'mod'): guard = 'vassume(b!=0);' + ('vassume(!(a==(%s)(1ULL<<%d) && b==-1));' % (ct, b - 1) if s else '')
            if on in ('shl', 'shr'): guard = 'vassume((u64)b<%d);' % b if not s else 'vassume(b>=0 && b<%d);' % b
            # the reference computes in a wide type and narrows
            wt = 'i64' if s else 'u64'
            if on == 'shl': ex = '(%s)((u64)a<<b)' % ct
            elif on == 'shr': ex = '(%s)((%s)a>>b)' % (ct, wt)
            elif on in ('add', 'sub', 'mul'): ex = '(%s)((u64)a%s(u64)b)' % (ct, op)
            else: ex = '(%s)(a%sb)' % (ct, op)
            p.extern(r, '(a : %s, b : %s -> %s)' % (t, t, t), '%s %s(%s a,%s b){ return %s; }' % (ct, r, ct, ct, ex))
            p.extern('g_' + on, '(a : %s, b : %s -> void)' % (t, t), 'void g_%s(%s a,%s b){ %s }' % (on, ct, ct, guard))
            g = 'g_%s(a, b)\n' % on if guard else ''
            head = 'var a : %s = %s\nvar b : %s = %s\n%s' % (t, I, t, I, g)
            T = lambda body: p.fn(case, head + body, 'operator %s on %s' % (op, t))
            e = lambda x, y='a', z='b': '%s(%d, %s, %s(%s, %s))' % (E, p.id(case), x, r, y, z)
            T('var r = a %s b\n%s\n%s' % (op, e('r'), e('a %s b' % op)))
            T('var r\nr = a\nr %s= b\n%s' % (op, e('r')))
            T('var x : %s = a\nvar y : %s = b\nvar p = &x\nvar q = &y\nvar r = p# %s q#\n%s\np# %s= q#\n%s\n%s' % (t, t, op, e('r'), op, e('x'), '%s(%d, y, b)' % (E, p.id(case))))
            k = p.id(case), p.id(case), p.id(case)
            T('var s : st_%s = [.pre=0xa5, .a=a, .mid=0x5a, .b=b, .post=a]\nvar r = s.a %s s.b\n%s\ns.a %s= b\n%s\ns.b = a %s s.b\n%s\n' % (t, op, e('r'), op, e('s.a'), op, e('s.b'))
              + 'vsym.check(%d, s.pre == 0xa5)\nvsym.check(%d, s.mid == 0x5a)\n%s(%d, s.post, a)' % (k[0], k[1], E, k[2]))
            T('var v : %s[4] = [b, a, b, a]\nvar i = vsym.range(0, 1)\nv[2*i + 1] %s= v[2*i]\n%s' % (t, op, e('v[2*i + 1]')))
            T('ga = a\ngb = b\n%s\nga %s= gb\n%s\ngarr[2] = a\ngarr[1] = b\ngarr[2] %s= garr[1]\n%s' % (e('ga %s gb' % op), op, e('ga'), op, e('garr[2]')))
            p.add('const f_%s = {a : %s, b : %s -> %s\n\t-> a %s b\n}' % (on, t, t, t, op))
            T('%s\n%s' % (e('f_%s(a, b)' % on), e('f_%s(a, f_%s(a, b))' % (on, on), 'a', '%s(a, b)' % r) if on in ('add', 'sub', 'xor', 'and', 'or', 'mul') else e('f_%s(a, b)' % on)))
            if on not in ('div', 'mod', 'shl', 'shr'):
                T('%s\n%s' % (e('(a %s b) %s (b %s a)' % (op, op, op), '%s(a, b)' % r, '%s(b, a)' % r), e('a %s (b %s (a %s (b %s a)))' % (op, op, op, op), 'a', '%s(b, %s(a, %s(b, a)))' % (r, r, r))))
            for kv in consts(t, on):
                l = lit(kv)
                if on in ('shl', 'shr', 'div', 'mod'):
                    p.fn(case, 'var a : %s = %s\nvar k : %s = %s\nvar r\n%s\nr = a\nr %s= %s\n%s' % (t, I, t, l, e('a %s %s' % (op, l), 'a', 'k'), op, l, e('r', 'a', 'k')))
                else:
                    p.fn(case, 'var a : %s = %s\nvar k : %s = %s\nvar r\n%s\n%s\nr = a\nr %s= %s\n%s' % (t, I, t, l, e('a %s %s' % (op, l), 'a', 'k'), e('%s %s a' % (l, op), 'k', 'a'), op, l, e('r', 'a', 'k')))
            if on in ('shl', 'shr'):
                for kv in (1, 2 ** (b - 1) - 1) + ((-3,) if s else (2 ** b - 2,)):
                    p.fn(case, 'var b : %s = %s\nvar k : %s = %s\ng_%s(k, b)\n%s' % (t, I, t, lit(kv), on, e('%s %s b' % (lit(kv), op), 'k', 'b')))
            if on in ('div', 'mod'):
                for kv in (100, 2 ** (b - 1) - 1):
                    p.fn(case, 'var b : %s = %s\nvar k : %s = %s\ng_%s(k, b)\n%s' % (t, I, t, lit(kv), on, e('%s %s b' % (lit(kv), op), 'k', 'b')))
        # unary and increment/decrement
        case = 20; p.titles[case] = 'unary -, ~, +, ++ and -- on %s' % t
        for n, x in (('neg', '(%s)(0ULL-(u64)a)' % ct), ('not', '(%s)~(u64)a' % ct), ('inc', '(%s)((u64)a+1)' % ct), ('dec', '(%s)((u64)a-1)' % ct)):
            p.extern('u_' + n, '(a : %s -> %s)' % (t, t), '%s u_%s(%s a){ return %s; }' % (ct, n, ct, x))
        q = lambda x, y: '%s(%d, %s, %s)' % (E, p.id(case), x, y)
        h = 'var a : %s = %s\n' % (t, I)
        p.fn(case, h + '\n'.join([q('-a', 'u_neg(a)'), q('~a', 'u_not(a)'), q('+a', 'a'), q('-(-a)', 'a'), q('~(-a)', 'u_not(u_neg(a))'), q('-(~a)', 'u_neg(u_not(a))')]))
        p.fn(case, h + 'var x = a\nvar o = x++\n%s\n%s\no = x--\n%s\n%s' % (q('o', 'a'), q('x', 'u_inc(a)'), q('o', 'u_inc(a)'), q('x', 'a')))
        p.fn(case, h + 'var x = a\nvar o\nx++\n%s\nx--\nx--\n%s\no = ++x\n%s\n%s\no = --x\n%s\n%s' % (q('x', 'u_inc(a)'), q('x', 'u_dec(a)'), q('o', 'a'), q('x', 'a'), q('o', 'u_dec(a)'), q('x', 'u_dec(a)')))
        p.fn(case, h + 'var s : st_%s = [.pre=1, .a=a, .mid=2, .b=a, .post=a]\nvar p = &s\np.a++\ns.b--\n%s\n%s\nvsym.check(%d, s.pre == 1)\nvsym.check(%d, s.mid == 2)\n%s' % (t, q('s.a', 'u_inc(a)'), q('s.b', 'u_dec(a)'), p.id(case), p.id(case), q('s.post', 'a')))
        p.fn(case, h + 'var v : %s[3] = [a, a, a]\nvar i = (vsym.range(0, 2) : int)\nv[i]++\n%s\nvar k = 0\nv[k++] = -a\n%s\nvsym.check(%d, k == 1)' % (t, q('v[i]', 'u_inc(a)'), q('v[0]', 'u_neg(a)'), p.id(case)))
        p.register(ck, time=50)
    ck.programs = len(ck.hs)
