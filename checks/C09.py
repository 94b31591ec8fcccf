"""Closures and function values."""
from gen import *
from genagg import *
import random, os
LIBS = ['std']
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 1000 + 9)
    sets = [[t] for t in FIXED] + [[rtype(rnd, 2) for _ in range(rnd.randint(1, 6))] for _ in range(14 if not ck.thorough() else 60)]
    per = 5
    for i in range(0, len(sets), per): capt(ck, i // per, sets[i:i + per], rnd)
    values(ck)
    heap(ck, rnd)
    ck.programs = len(ck.hs)
def capt(ck, k, sets, rnd):
    p = Prog('clos%d' % k); g = G(p); p.cdef('static u64 S[4096];'); p.add('var gbuf : int32[8]'); p.inp('int32'); p.eq('int64'); K = p.id
    p.add('const clobber = {n : int64 -> int64\n\tvar b : int64[40]\n\tfor var i = 0; i < 40; i++\n\t\tb[i] = n\n\t;;\n\t-> b[n & 15]\n}')
    for c, ts in enumerate(sets, 1):
        N = [g.name(t) for t in ts]; n = len(ts); p.titles[c] = 'capturing %s' % (', '.join(N) if len(', '.join(N)) < 60 else ', '.join(N)[:57] + '...')
        def mk():
            v = [];
            for t in ts: s = []; e = g.lit(t, rnd, s); v.append((e, s))
            return v
        ind = lambda ls, d=1: ['\t' * d + l for l in ls]
        def chk(names, v): return sum((g.chk(t, nm, list(s), c) for t, nm, (e, s) in zip(ts, names, v)), [])
        body = lambda L: p.fn(c, '\n'.join(L))
        decl = lambda names, v: ['var %s : %s = %s' % (nm, T, e) for nm, T, (e, s) in zip(names, N, v)]
        asg = lambda names, v: ['%s = %s' % (nm, e) for nm, (e, s) in zip(names, v)]
        # names in an order unlike that of their declarations
        nm = ['%s%d' % (rnd.choice('abcxyz'), i) for i in range(n)]
        # captured, then changed: the closure keeps the old values, the function has the new ones
        v, w = mk(), mk()
        body(decl(nm, v) + ['var hits = 0, f'] + ['f = {a : int64 -> int64'] + ind(chk(nm, v)) + ['\t-> a + 1', '}'] + asg(nm, w) + ['clobber(3)', 'eq_int64(%d, f(41), 42)' % K(c)] + chk(nm, w) + ['eq_int64(%d, f(-1), 0)' % K(c)])
        # parameters captured; the closure handed down and called from deeper frames
        v = mk(); p.add('const down%d_%d = {d : int, f : (a : int64, b : int8 -> int64) -> int64\n\tvar pad : int64[20]\n\tfor var i = 0; i < 20; i++\n\t\tpad[i] = (d : int64)\n\t;;\n\tif d > 0\n\t\t-> down%d_%d(d - 1, f)\n\t;;\n\t-> f(7, -2) + pad[3]\n}' % (k, c, k, c))
        p.add('const param%d_%d = {%s, z : int64 -> int64\n\t-> down%d_%d(3, {a, b\n%s\n\t\t-> a + (b : int64) + z\n\t})\n}' % (k, c, ', '.join('%s : %s' % x for x in zip(nm, N)), k, c, '\n'.join(ind(chk(nm, v), 2))))
        body(decl(nm, v) + ['eq_int64(%d, param%d_%d(%s, 100), 105)' % (K(c), k, c, ', '.join(nm))])
        # nested: the inner one sees both
        v, w, u, z = mk(), mk(), mk(), mk(); nm2 = ['q' + x for x in nm]
        body(decl(nm, v) + ['var f = {; '] + ind(decl(nm2, w)) + ['\tvar h = {'] + ind(chk(nm, v) + chk(nm2, w), 2) + ['\t\t-> 5', '\t}'] + ind(asg(nm2, u)) + ['\tvsym.check(%d, h() == 5)' % K(c)] + ind(chk(nm2, u)) + ['\t-> h() + 1', '}'] + asg(nm, z) + ['vsym.check(%d, f() == 6)' % K(c)])
        # two closures over the same variables at different times
        v, w = mk(), mk()
        body(decl(nm, v) + ['var f = {;'] + ind(chk(nm, v)) + ['\t-> 1', '}'] + asg(nm, w) + ['var h = {;'] + ind(chk(nm, w)) + ['\t-> f() + 1', '}', 'vsym.check(%d, h() == 2 && f() == 1)' % K(c)])
        # returning a captured value
        if n == 1:
            v, w = mk(), mk()
            body(decl(nm, v) + ['var f = {-> %s\n\t-> %s\n}' % (N[0], nm[0]), 'var r : %s' % N[0]] + asg(nm, w) + ['r = f()'] + chk(['r'], v) + ['r = {; -> f()}()'] + chk(['r'], v))
        # on the heap
        v, w = mk(), mk()
        p.add('const hp%d_%d = {%s, z : int64 -> (a : int64 -> int64)\n\tvar f = {a : int64\n%s\n\t\t-> a + z\n\t}\n\t-> std.fndup(f)\n}' % (k, c, ', '.join('%s : %s' % x for x in zip(nm, N)), '\n'.join(ind(chk(nm, v), 2))))
        p.use = ['vsym', 'std'] if 'std' not in p.use else p.use
        body(decl(nm, v) + ['var f = hp%d_%d(%s, 100)' % (k, c, ', '.join(nm))] + asg(nm, w) + ['clobber(9)', 'eq_int64(%d, f(5), 105)' % K(c), 'var f2 = std.fndup(f)', 'std.fnfree(f)', 'clobber(2)', 'eq_int64(%d, f2(6), 106)' % K(c), 'std.fnfree(f2)'])
    p.register(ck, libs=['std'], bound='every value of what is captured', time=100)
def values(ck):
    """function values in every place a value can be"""
    p = Prog('fnval'); p.eq('int64'); p.inp('int64'); K = p.id; c = 1; p.use = ['vsym', 'std']
    p.titles[c] = 'function values stored, chosen, passed and returned'
    p.add('''type op = (a : int64, b : int64 -> int64)
type st = struct
	n : byte
	f : (a : int64, b : int64 -> int64)
	m : byte
;;
type un = union
	`Fn (a : int64, b : int64 -> int64)
	`No
;;
const add = {a : int64, b : int64 -> int64; -> a + b}
const sub = {a : int64, b : int64 -> int64; -> a - b}
var gf : (a : int64, b : int64 -> int64)
var gt : (a : int64, b : int64 -> int64)[3]
const ct = [add, sub]
const pick2 = {c : bool -> (a : int64, b : int64 -> int64)
	if c
		-> add
	;;
	-> sub
}
const ap = {f : (a : int64, b : int64 -> int64), a : int64, b : int64 -> int64
	-> f(a, b)
}
const twice = {f : (x : int64 -> int64), x : int64 -> int64
	-> f(f(x))
}
generic gap = {f : (x : @a -> @a), x : @a -> @a
	-> f(x)
}
const fold = {l : int64[:], z : int64, f : (a : int64, b : int64 -> int64) -> int64
	for x : l
		z = f(z, x)
	;;
	-> z
}
const even = {n : int64 -> bool
	if n == 0
		-> true
	;;
	-> odd(n - 1)
}
const odd = {n : int64 -> bool
	if n == 0
		-> false
	;;
	-> even(n - 1)
}
const fact = {n : int64 -> int64
	if n <= 1
		-> 1
	;;
	-> n * fact(n - 1)
}
const many = {a : int8, b : int16, c : int32, d : int64, e : uint8, f : uint16, g : uint32, h : uint64, i : bool, j : char -> int64
	-> (a : int64) - (b : int64) + (c : int64) - d + (e : int64) - (f : int64) + (g : int64) - (h : int64) + (j : int64) + (i : int64)
}
generic grec = {n : @a, x : @a, z : @a -> @a :: numeric,integral @a
	const f = {m
		if m <= 0
			-> z
		;;
		-> x + f(m - 1)
	}
	var h = {a, b
		var r
		r = {c; -> a + c}
		-> r(b)
	}
	-> h(f(n - 1), x)
}
var vcount : int64
const vf = {x : int64
	vcount += x
}''')
    I = 'var x : int64 = %s, y : int64 = %s, k : int64 = %s\n' % ((p.inp('int64'),) * 3)
    sub = '{a, b; -> a - b + k - k}'; sk = '{a, b; -> a - b + k}'
    E = lambda e, v: 'eq_int64(%d, %s, %s)' % (K(c), e, v)
    def t(s): p.fn(c, I + s)
    t('var f = add\n' + E('f(x, y)', 'x + y') + '\nf = sub\n' + E('f(x, y)', 'x - y') + '\nf = %s\nk++\n' % sk + E('f(x, y)', 'x - y + k - 1'))
    t('gf = sub\n' + E('gf(x, y)', 'x - y') + '\ngf = %s\n' % sk + E('gf(x, y)', 'x - y + k'))
    t('var s : st = [.n=1, .f=%s, .m=2]\nvar q = &s, s2 = s\ns.f = add\n' % sk + E('s.f(x, y)', 'x + y') + '\n' + E('q.f(x, y)', 'x + y') + '\n' + E('s2.f(x, y)', 'x - y + k') + '\nvsym.check(%d, s.n == 1 && s.m == 2 && s2.n == 1 && s2.m == 2)' % K(c))
    t('var v : (a : int64, b : int64 -> int64)[3], i = vsym.range(0, 2)\nv = [add, sub, %s]\nvar r = v[i](x, y)\nvsym.check(%d, (i == 0 && r == x + y) || (i == 1 && r == x - y) || (i == 2 && r == x - y + k))' % (sk, K(c)))
    t('var l : (a : int64, b : int64 -> int64)[:]\ngt[0] = add\ngt[1] = %s\ngt[2] = sub\nl = gt[1:]\n' % sk + E('l[0](x, y)', 'x - y + k') + '\n' + E('l[1](x, y)', 'x - y') + '\nvar z : int64 = 0\nfor f : l\n\tz += f(x, y)\n;;\n' + E('z', 'x - y + x - y + k'))
    t(E('ct[0](x, y)', 'x + y') + '\n' + E('ct[1](x, y)', 'x - y'))
    t('var u = `Fn %s\nmatch u\n| `Fn f:\t%s\n| `No:\tvsym.check(%d, false)\n;;\nu = `No\nmatch u\n| `Fn f:\tvsym.check(%d, false)\n| `No:\tvsym.check(%d, true)\n;;' % (sk, E('f(x, y)', 'x - y + k'), p.xid(), p.xid(), K(c)))
    t('var t = (1, %s, add, 2), f, h, o\n(o, f, h, _) = t\n' % sk + E('f(x, y)', 'x - y + k') + '\n' + E('h(x, y)', 'x + y') + '\n' + E('t.1(x, y)', 'x - y + k'))
    t('var f = x > y ? add : sub\nif x > y\n\t%s\nelse\n\t%s\n;;' % (E('f(x, y)', 'x + y'), E('f(x, y)', 'x - y')))
    t('var f = x > y ? add : %s\nif x > y\n\t%s\nelse\n\t%s\n;;' % (sk, E('f(x, y)', 'x + y'), E('f(x, y)', 'x - y + k')))
    t(E('pick2(true)(x, y)', 'x + y') + '\n' + E('pick2(false)(x, y)', 'x - y') + '\nvar f = pick2(x == y)\nif x == y\n\t%s\nelse\n\t%s\n;;' % (E('f(x, y)', 'x + y'), E('f(x, y)', 'x - y')))
    t(E('ap(add, x, y)', 'x + y') + '\n' + E('ap(%s, x, y)' % sk, 'x - y + k') + '\n' + E('ap({a, b; -> b}, x, y)', 'y') + '\n' + E('ap({a, b; -> ap({c, d; -> c - d + k}, b, a)}, x, y)', 'y - x + k'))
    t(E('twice({a; -> a + k}, x)', 'x + k + k') + '\n' + E('twice({a; -> twice({b; -> b + a}, y)}, x)', 'y + (y + x + x) + (y + x + x)'))
    t(E('gap({a; -> a + k}, x)', 'x + k') + '\nvar b : byte = gap({a : byte; -> a + 1}, (x : byte))\nvsym.check(%d, b == (x + 1 : byte))' % K(c))
    t('var v : int64[3] = [x, y, k]\n' + E('fold(v[:], 5, {a, b; -> a + b + k})', '5 + x + y + k + 3*k') + '\n' + E('fold(v[:0], x, {a, b; -> a + b})', 'x'))
    t('var n = (vsym.conc(vsym.pick(0, 9)) : int64)\nvsym.check(%d, even(n) == (n & 1 == 0))\nvsym.check(%d, odd(n) == (n & 1 == 1))' % (K(c), K(c)))
    t('\n'.join(E('fact(%d)' % i, __import__('math').factorial(i)) for i in range(6)))
    t('var f = &gf, g2 = pick2(true)\nf# = %s\n' % sk + E('f#(x, y)', 'x - y + k') + '\nvar fp = &g2\n' + E('fp#(x, y)', 'x + y') + '\nfp# = f#\n' + E('g2(x, y)', 'x - y + k'))
    t('var a : int8 = (x : int8), b : int16 = (x : int16), c : int32 = (y : int32), e : uint8 = (y : uint8), f : uint16 = (k : uint16), g : uint32 = (k : uint32), h : uint64 = (k : uint64), j : char = (y & 0xffff : char), i = x > y, fn = many, cl, r\ncl = {a, b, c, d, e, f, g, h, i, j; -> many(a, b, c, d, e, f, g, h, i, j) + x}\nr = (a : int64) - (b : int64) + (c : int64) - k + (e : int64) - (f : int64) + (g : int64) - (h : int64) + (j : int64) + (i : int64)\n' + E('many(a, b, c, k, e, f, g, h, i, j)', 'r') + '\n' + E('fn(a, b, c, k, e, f, g, h, i, j)', 'r') + '\n' + E('cl(a, b, c, k, e, f, g, h, i, j)', 'r + x'))
    t('vcount = 0\nvar f = vf\nf(x)\nf = {z; vcount += z + k}\nf(y)\n' + E('vcount', 'x + y + k'))
    t('{; -> void}()\n' + E('{a; -> a + k}(x)', 'x + k') + '\n' + E('{; -> {; -> {; -> x + k}()}()}()', 'x + k'))
    t('var fs : (a : int64 -> int64)[3], i\nfor i = 0; i < 3; i++\n\tvar j = (i : int64)\n\tfs[i] = std.fndup({a; -> a + j*10 + k})\n;;\n' + '\n'.join(E('fs[%d](x)' % i, 'x + %d + k' % (10 * i)) for i in range(3)) + '\nfor f : fs\n\tstd.fnfree(f)\n;;')
    # a closure keeps its copy; the variable is not shared
    t('var n : int64 = x, f\nf = {; -> n + 1}\nn = y\n' + E('f()', 'x + 1') + '\n' + E('n', 'y') + '\nn = f()\n' + E('f()', 'x + 1') + '\n' + E('n', 'x + 1'))
    t('var v : int64[4] = [x, y, k, 0], s = v[:2], f = {i : uint64; -> s[i] + v[i]}\nv[0] = k\n' + E('f(0)', 'k + x') + '\n' + E('f(1)', 'y + y'))
    t('var n : int64 = x, p = &n, f = {; p# = p# + k; -> p#}\n' + E('f()', 'x + k') + '\n' + E('n', 'x + k') + '\nn = y\n' + E('f()', 'y + k'))
    # functions that call themselves through the variable they initialize; variables reassigned from themselves
    t('const f = {n : int64 -> int64\n\tif n <= 0\n\t\t-> k\n\t;;\n\t-> x + f(n - 1)\n}\n' + E('f(3)', 'x + x + x + k') + '\nvar h = {n : int64 -> int64\n\tif n <= 0\n\t\t-> y\n\t;;\n\t-> k - h(n - 1)\n}\n' + E('h(3)', 'k - (k - (k - y))'))
    t(E('grec(3, x, y)', 'x + x + x + y') + '\n' + E('(grec((2 : int8), (x : int8), (y : int8)) : int64)', '((2*x + y : int8) : int64)'))
    t('var f\nf = {a : int64; -> a + k}\n' + E('f(x)', 'x + k') + '\nf = {a : int64; -> f(a) + y}\n' + E('f(x)', 'x + k + y') + '\nf = {a : int64; -> f(f(a))}\n' + E('f(x)', 'x + k + y + k + y'))
    # globals are shared
    t('vcount = x\nvar f = {; vcount += k; -> vcount}\nvcount = y\n' + E('f()', 'y + k') + '\n' + E('vcount', 'y + k'))
    p.register(ck, libs=['std'], bound='every value of the variables', time=100)
def heap(ck, rnd):
    p = Prog('fndup'); p.eq('int64'); p.inp('int64'); K = p.id; c = 1; p.use = ['vsym', 'std']
    p.titles[c] = 'fndup, fnbdup, fnenvsz, fnfree'
    I = 'var x : int64 = %s, y : int64 = %s\n' % ((p.inp('int64'),) * 2)
    E = lambda e, v: 'eq_int64(%d, %s, %s)' % (K(c), e, v)
    p.add('const plain = {a : int64 -> int64; -> a + 1}\nvar ebuf : byte[128]')
    def t(s): p.fn(c, I + s)
    t('var f = std.fndup(plain)\n' + E('f(x)', 'x + 1') + '\nvar g = std.fndup(f)\nstd.fnfree(f)\n' + E('g(x)', 'x + 1') + '\nstd.fnfree(g)\nvsym.check(%d, std.fnenvsz(plain) == 0)' % K(c))
    t('var f = {a : int64; -> a + 1}, g = std.fndup(f)\n' + E('g(x)', 'x + 1') + '\nstd.fnfree(g)')
    t('var b : byte = (y : byte), f, g, n, i\nf = {a : int64; -> a + x - (b : int64)}\nn = std.fnenvsz(f)\nvsym.check(%d, n >= 17 && n <= 24)\nfor i = 0; i < 128; i++\n\tebuf[i] = 0x77\n;;\ng = std.fnbdup(f, ebuf[8:64])\nx = 0\nb = 0\nf = plain\n' % K(c) + 'var xx = ebuf[:8], ok = true\nfor i = 0; i < 8; i++\n\tok = ok && ebuf[i] == 0x77\n;;\nfor i = 8 + n; i < 128; i++\n\tok = ok && ebuf[i] == 0x77\n;;\nvsym.check(%d, ok)\n' % K(c))
    t('var x0 = x, f, g\nf = {a : int64; -> a + x}\ng = std.fnbdup(f, ebuf[:])\nx = 0\n' + E('g(y)', 'y + x0') + '\nf = g\n' + E('f(y)', 'y + x0'))
    p.register(ck, libs=['std'], bound='every value of the variables', time=100)
