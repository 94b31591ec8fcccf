"""Exhaustiveness: an accepted match never falls through; an exhaustive one without useless arms is accepted."""
from genmatch import *
from C06 import fill, arms
LIBS = []
def program(rnd, g, p, case, t, l, n, as_):
    fn = g.fresh('fill'); fill(g, p, t, l, n, fn); consts = []; bodies = []
    for i, pt in enumerate(as_): bodies.append('\t| %s: r = %d' % (g.src(pt, t, [], consts), i))
    for d in consts: p.add(d)
    out = []; e = g.build(t, l, out)
    p.fn(case, 'var L : uint64[%d]\n%s(&L[0])\n%s\nvar x : %s = %s\nvar r = -1\nmatch x\n%s\n;;\nhit(%d, r)' % (max(n, 1), fn, '\n'.join(out), g.name(t), e, '\n'.join(bodies), p.id(case)))
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    nprog, nrej = (60, 500) if ck.thorough() else (18, 110); rnd = random.Random(700 + ck.seed); z = Z3()
    HIT = ('hit', '(id : int, r : int -> void)', 'void hit(int id,int r){ vcheck(id,r>=0); }')
    def pick(g):
        while True:
            d = rnd.choice([1, 1, 2, 2, 3]); t = g.ty(d); l, n = g.layout(t)
            if not 1 <= n <= 14: continue
            decl = g.smtdecl(t, l)
            for i, k in g.leaves(t, l):
                if k == 'len': decl = decl.replace('(assert (<= 0 L%d 3))' % i, '(assert (<= 0 L%d 18446744073709551615))' % i)
            as_ = arms(rnd, g, z, t, l, decl, d + 1, rnd.choice([3, 4, 5, 6, 8]))
            if len(as_) >= 2: return t, l, n, decl, as_
    for b in range(nprog):
        p = Prog('x_%d' % b); p.extern(*HIT); g = M(rnd, 'z'); g.fns = {}
        for case in range(1, 9):
            t, l, n, decl, as_ = pick(g); program(rnd, g, p, case, t, l, n, [a for a, r in as_]); p.titles[case] = 'exhaustive match with %d arms is accepted and never falls through' % len(as_)
        p.top[0:0] = g.defs
        p.register(ck, bound='every value of the matched type', opts=['--maxpaths', '30000'])
    for b in range(nrej):
        p = Prog('n_%d' % b); p.extern(*HIT); g = M(rnd, 'z'); g.fns = {}
        while True:
            t, l, n, decl, as_ = pick(g); drop = rnd.randrange(len(as_))
            rest = [a for i, (a, _r) in enumerate(as_) if i != drop]; f = '(or false %s)' % ' '.join(g.smt(g.cond(r, t, l)) for a, rows in [x for i, x in enumerate(as_) if i != drop] for r in rows)
            if rest and z.sat(decl, '(not %s)' % f): break
        program(rnd, g, p, 1, t, l, n, rest); p.titles[1] = 'a match that leaves a value uncovered must be rejected'
        p.top[0:0] = g.defs; h = p.register(ck, bound='every value of the matched type', expect=False); h.reject = 'exhaust'
    z.close()
    # tables that list all values of a type, and the same with one value missing
    def table(name, t, vals, sval, rej, wrap='%s', decl='', inp=None):
        p = Prog(name); p.extern(*HIT); p.add(decl) if decl else None
        ct = {'bool': 'bool'}.get(t, t); p.fn(1, '%s\nvar r = -1\nmatch %s\n%s\n;;\nhit(%d, r)' % (inp if inp else 'var x : %s = %s' % (t, p.inp(t)), wrap.replace('%s', 'x'), '\n'.join('| %s: r = %d' % (sval(v), i % 100) for i, v in enumerate(vals)), p.id(1)))
        p.titles[1] = name; h = p.register(ck, bound='every value', expect=not rej, opts=['--maxpaths', '30000'])
        if rej: h.reject = 'exhaust'
    for t in ('byte', 'uint8', 'int8'):
        lo = -128 if t == 'int8' else 0; vs = list(range(lo, lo + 256)); sv = lambda v: str(v) if v >= 0 else '-%d' % -v
        table('full_' + t, t, vs, sv, False)
        for miss in (lo, lo + 255, lo + 128, rnd.choice(vs)): table('miss_%s_%d' % (t, miss - lo), t, [v for v in vs if v != miss], sv, True)
        table('tup_' + t, t, [(v, b) for v in vs for b in ('true', 'false')], lambda v: '(%s, %s)' % (sv(v[0]), v[1]), False, wrap='(%s, %s == 3)')
        table('tupmiss_' + t, t, [(v, b) for v in vs for b in ('true', 'false') if (v, b) != (lo + 77, 'false')], lambda v: '(%s, %s)' % (sv(v[0]), v[1]), True, wrap='(%s, %s == 3)')
    for n in (1, 2, 3, 17, 40):
        d = 'type u%d = union\n%s\n;;' % (n, '\n'.join('\t`W%d_%d%s' % (n, i, ' bool' if i % 5 == 4 else '') for i in range(n)))
        inp = 'var k = vsym.range(0, %d)\nvar x : u%d = `W%d_0\n%s' % (n - 1, n, n, '\n'.join('if k == %d\n\tx = `W%d_%d%s\n;;' % (i, n, i, ' (k == %d)' % i if i % 5 == 4 else '') for i in range(n)))
        sv = lambda v: '`W%d_%d%s' % (n, v, ' _' if v % 5 == 4 else '')
        table('union%d' % n, 'u%d' % n, range(n), sv, False, decl=d, inp=inp)
        if n > 1: table('umiss%d' % n, 'u%d' % n, [i for i in range(n) if i != n - 1], sv, True, decl=d, inp=inp); table('ufirst%d' % n, 'u%d' % n, range(1, n), sv, True, decl=d, inp=inp)
        if n > 4:
            sv2 = lambda v: '`W%d_%d%s' % (n, v[0], ' ' + v[1] if v[1] else ''); al = [(i, b) for i in range(n) for b in (('true', 'false') if i % 5 == 4 else ('',))]
            table('upay%d' % n, 'u%d' % n, al, sv2, False, decl=d, inp=inp); table('upaymiss%d' % n, 'u%d' % n, [a for a in al if a != (4, 'false')], sv2, True, decl=d, inp=inp)
    for t, v in (('char', "'a'"), ('int16', '3'), ('uint16', '65535'), ('int', '0'), ('int32', '1'), ('uint32', '7'), ('int64', '1'), ('uint64', '0'), ('uint', '2')):
        table('lit_' + t, t, [v], lambda v: v, True); table('litany_' + t, t, [v, '_'], lambda v: v, False)
    ck.programs = len(ck.hs)
