"""Integer, boolean and pointer casts of compiled code."""
from gen import *
import random
LIBS = []
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    dst = [x for x in INTS]
    for t, ct, b, s in INTS + [('bool', 'unsigned char', 8, 0)]:
        p = Prog('cast_' + t); I = p.inp(t)
        p.add('type st = struct\n' + ''.join('\tg%d\t: byte\n\tf%d\t: %s\n' % (i, i, u[0]) for i, u in enumerate(dst)) + '\tsrc\t: %s\n;;' % t)
        for case, (u, cu, bu, su) in enumerate(dst, 1):
            E = p.eq(u); r = 'cv_' + u
            p.extern(r, '(a : %s -> %s)' % (t, u), '%s %s(%s a){ return (%s)a; }' % (cu, r, ct, cu))
            p.titles[case] = 'cast %s to %s' % (t, u)
            e = lambda x: '%s(%d, %s, %s(a))' % (E, p.id(case), x, r)
            h = 'var a : %s = %s\n' % (t, I)
            p.fn(case, h + 'var r = (a : %s)\n%s\n%s' % (u, e('r'), e('(a : %s)' % u)))
            p.add('const id_%s = {x : %s -> %s\n\t-> x\n}\nconst c_%s = {x : %s -> %s\n\t-> (x : %s)\n}' % (u, u, u, u, t, u, u))
            p.fn(case, h + '%s\n%s' % (e('id_%s((a : %s))' % (u, u)), e('c_%s(a)' % u)))
            p.fn(case, h + 'var s : st\ns.src = a\ns.g%d = 0x77\ns.f%d = (s.src : %s)\n%s\nvsym.check(%d, s.g%d == 0x77)\nvar q = &s\n%s' % (case - 1, case - 1, u, e('s.f%d' % (case - 1)), p.id(case), case - 1, e('(q.src : %s)' % u)))
            p.fn(case, h + 'var v : %s[3], w : %s[3]\nvar i = vsym.range(0, 2)\nv[i] = a\nw[i] = (v[i] : %s)\n%s' % (t, u, u, e('w[i]')))
            # chains of two casts, and casts of computed values
            for u2, cu2, bu2, su2 in dst:
                r2 = 'cc_%s_%s' % (u, u2)
                p.extern(r2, '(a : %s -> %s)' % (t, u2), '%s %s(%s a){ return (%s)(%s)a; }' % (cu2, r2, ct, cu2, cu))
                p.fn(case, h + '%s(%d, ((a : %s) : %s), %s(a))' % (p.eq(u2), p.id(case), u, u2, r2))
            if t != 'bool':
                for on, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('xor', '^')):
                    r3 = 'co_%s_%s' % (on, u)
                    p.extern(r3, '(a : %s, b : %s -> %s)' % (t, t, u), '%s %s(%s a,%s b){ return (%s)(%s)((u64)a%s(u64)b); }' % (cu, r3, ct, ct, cu, ct, op))
                    p.fn(case, h + 'var b : %s = %s\n%s(%d, (a %s b : %s), %s(a, b))' % (t, I, E, p.id(case), op, u, r3))
                # operations that depend on the sign of the source, on the way to the destination
                for on, op, ce in (('shr', 'a >> 3', '(a >> 3)'), ('div', 'a / 5', '(a / 5)'), ('mod', 'a % 8', '(a % 8)'), ('sh2', '(a + 1 : {t}) >> 1', '(({c})(a + 1) >> 1)'), ('neg', '-a', '({c})(0 - (u64)a)'), ('not', '~a', '({c})~(u64)a')):
                    if on == 'div' and b > 8: op, ce = 'a / 16', '(a / 16)'
                    r5 = 'cd_%s_%s' % (on, u)
                    p.extern(r5, '(a : %s -> %s)' % (t, u), '%s %s(%s a){ return (%s)%s; }' % (cu, r5, ct, cu, ce.format(c=ct)))
                    p.fn(case, h + '%s(%d, (%s : %s), %s(a))\nvar d = %s\n%s(%d, ((d : %s) >> 2 : %s), (d : %s) >> 2)' % (E, p.id(case), op.format(t=t), u, r5, op.format(t=t), E, p.id(case), u, u, u))
                r4 = 'cs_%s' % u
                p.extern(r4, '(a : %s, b : %s -> %s)' % (t, u, u), '%s %s(%s a,%s b){ return (%s)((u64)(%s)a+(u64)b); }' % (cu, r4, ct, cu, cu, cu))
                p.fn(case, h + 'var b : %s = %s\n%s(%d, (a : %s) + b, %s(a, b))' % (u, p.inp(u), E, p.id(case), u, r4))
        if t != 'bool':
            case = 30; p.titles[case] = 'pointer conversions of %s' % t; p.inp('uint64'); E = p.eq(t); q = p.eq('uint64')
            p.fn(case, 'var x = in_uint64()\nvar p = (x : %s#)\n%s(%d, (p : uint64), x)\nvar r = (p : byte#)\n%s(%d, (r : uint64), x)\n%s(%d, ((r : %s#) : uint64), x)' % (t, q, p.id(case), q, p.id(case), q, p.id(case), t))
            p.fn(case, 'var a : %s = %s\nvar b = a\nvar r = (&a : byte#)\nvar w = (r : %s#)\n%s(%d, w#, b)\nw# = %s\nb = w#\n%s(%d, a, b)' % (t, I, t, E, p.id(case), I, E, p.id(case)))
            p.fn(case, 'var v : %s[4] = [1, 2, 3, 4]\nvar s = v[1:]\nvar r = (s : %s#)\n%s(%d, r#, 2)\n%s(%d, (r : uint64), (&v[1] : uint64))' % (t, t, E, p.id(case), q, p.id(case)))
        p.register(ck, time=40)
    # named types convert to and from their base
    p = Prog('cast_named'); 
    p.add('type t1 = int32\ntype t2 = t1\ntype t3 = t2\ntype ts = struct\n\ta : int32\n\tb : int64\n;;\ntype tt = ts')
    for n in ('int32', 'int64', 'uint8'): p.inp(n); p.eq(n)
    p.titles[1] = 'conversions between a named type and the type that defines it'
    p.fn(1, 'var a = in_int32()\nvar x = (a : t1)\nvar y = (x : t2)\nvar z = (y : t3)\neq_int32(%d, (z : int32), a)\neq_int32(%d, ((z : t1) : int32), a)\neq_int64(%d, (z : int64), (a : int64))\neq_uint8(%d, (y : uint8), (a : uint8))' % tuple(p.id(1) for _ in range(4)))
    p.register(ck)
    ck.programs = len(ck.hs)
