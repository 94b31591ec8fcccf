"""Generics, traits and impls."""
from gen import *
from genagg import *
import random, os
LIBS = ['std']
PRE = '''generic gid = {x : @a -> @a; -> x}
generic gid3 = {x : @a -> @a; -> gid(gid(gid(x)))}
generic gswap = {p : @a#, q : @a# -> void
	var t

	t = p#
	p# = q#
	q# = t
}
generic gpair = {x : @a, y : @b -> (@b, @a, @b); -> (y, x, y)}
generic garr = {x : @a, y : @a -> @a[3]; -> [x, y, x]}
generic gnth = {s : @a[:], i : uint64 -> @a; -> s[i]}
generic grev = {s : @a[:] -> void
	var i : std.size, n

	n = s.len
	for i = 0; i < n / 2; i++
		gswap(&s[i], &s[n - 1 - i])
	;;
}
generic gfill = {s : @a[:], x : @a -> void
	for var i = 0; i < s.len; i++
		s[i] = x
	;;
}
generic gmap = {f : (x : @a -> @b), s : @a[:], d : @b[:] -> void
	var i = 0

	for x : s
		d[i++] = f(x)
	;;
}
generic gsz = {x : @a -> int64; -> (sizeof(@a) : int64)}
generic gszp = {x : @a -> int64
	var r : (byte, @a, byte)
	-> (sizeof((byte, @a, byte)) : int64) + 0 * (x castto(byte#))
}
type gbox(@a) = struct
	pre : byte
	v : @a
	post : int16
;;
type gopt(@a) = union
	`Gsome @a
	`Gnone
;;
type glist(@a) = struct
	next : glist(@a)#
	v : @a
;;
type gboth(@x, @y) = struct
	o : gopt(@y)
	b : gbox(@x)[2]
;;
generic gmkbox = {x : @a, n : byte -> gbox(@a); -> [.post=(n : int16) - 9, .v=x, .pre=n]}
generic gunbox = {b : gbox(@a) -> @a; -> b.v}
generic gupd = {b : gbox(@a)#, x : @a -> @a
	var o = b.v
	b.v = x
	-> o
}
generic gsome = {x : @a -> gopt(@a); -> `Gsome x}
generic gget = {o : gopt(@a), d : @a -> @a
	match o
	| `Gsome x:	-> x
	| `Gnone:	-> d
	;;
}
generic ghas = {o : gopt(@a) -> bool
	match o
	| `Gsome _:	-> true
	| `Gnone:	-> false
	;;
}
generic glnth = {l : glist(@a)#, n : int -> @a
	if n == 0
		-> l.v
	;;
	-> glnth(l.next, n - 1)
}
generic gboths = {x : @x, y : @y, x2 : @x -> gboth(@x, @y)
	-> [.o=`Gsome y, .b=[gmkbox(x, 1), gmkbox(x2, 2)]]
}
generic gapp = {f : (x : @a -> @b), x : @a -> @b; -> f(x)}
generic gcap = {x : @a, y : @b -> (@a, @b)
	var f = {; -> (x, y)}
	-> f()
}
generic gcap2 = {x : @a, y : @b -> @a
	var g = {z : @a -> @a
		var w = y
		w = w
		-> z
	}
	-> g(x)
}
generic gdeep = {x : @a, n : int -> @a
	var pad : @a[2]

	pad[0] = x
	pad[1] = x
	if n > 0
		-> gdeep(pad[n & 1], n - 1)
	;;
	-> pad[1]
}
'''.replace('''generic gszp = {x : @a -> int64
	var r : (byte, @a, byte)
	-> (sizeof((byte, @a, byte)) : int64) + 0 * (x castto(byte#))
}
''', '')
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 1000 + 11)
    types = list(FIXED) + [S(t) for t in ('byte', 'int16', 'int32', 'uint64', 'bool', 'char')] + [rtype(rnd, 2, True) for _ in range(14 if not ck.thorough() else 60)]
    per = 6
    for i in range(0, len(types), per): containers(ck, i // per, types[i:i + per], rnd)
    for k in range(3 if not ck.thorough() else 12): dispatch(ck, k, rnd)
    numeric(ck); specific(ck); misc(ck); confused(ck)
    ck.programs = len(ck.hs)
def containers(ck, k, types, rnd):
    p = Prog('gen%d' % k); g = G(p); p.cdef('static u64 S[4096];'); p.add('var gbuf : int32[8]'); p.use = ['vsym', 'std']; p.add(PRE); p.eq('int64'); K = p.id
    for c, t in enumerate(types, 1):
        T = g.name(t); p.titles[c] = 'generic functions and types at ' + (T if len(T) < 60 else T[:57] + '...')
        o = rnd.choice(types); U = g.name(o)   # a second type
        def mk(x=t): s = []; return g.lit(x, rnd, s), s
        chk = lambda e, v, x=t: g.chk(x, e, list(v[1]), c)
        D = lambda n, v, x=None: 'var %s : %s = %s' % (n, x or T, v[0])
        body = lambda *L: p.fn(c, '\n'.join(sum([[l] if isinstance(l, str) else l for l in L], [])))
        OK = lambda e: 'vsym.check(%d, %s)' % (K(c), e)
        a, b, d, u = mk(), mk(), mk(), mk(o)
        body(D('a', a), 'var r : %s' % T, 'r = gid(a)', chk('r', a), 'r = gid3(a)', chk('r', a), D('b', b), 'gswap(&a, &b)', chk('a', b), chk('b', a), 'gswap(&a, &a)', chk('a', b), 'r = gdeep(a, 3)', chk('r', b))
        body(D('a', a), D('u', u, U), 'var r : (%s, %s, %s)' % (U, T, U), 'r = gpair(a, u)', chk('r.0', u, o), chk('r.1', a), chk('r.2', u, o), 'var r2 : (%s, %s, %s) = gpair(u, a)' % (T, U, T), chk('r2.0', a), chk('r2.1', u, o), chk('r2.2', a))
        body(D('a', a), D('b', b), D('d', d), 'var v : %s[3], w : %s[3] = garr(a, b), x : %s' % (T, T, T), 'v = garr(b, d)', chk('v[0]', b), chk('v[1]', d), chk('v[2]', b), chk('w[1]', b), chk('w[2]', a), 'v[0] = a', 'grev(v[:])', chk('v[0]', b), chk('v[1]', d), chk('v[2]', a), 'x = gnth(v[1:], 1)', chk('x', a), 'gfill(w[1:], d)', chk('w[0]', a), chk('w[1]', d), chk('w[2]', d), 'gfill(w[:0], b)', chk('w[0]', a))
        body(D('a', a), D('b', b), D('u', u, U), 'var v : %s[2] = [a, b], d : %s[2], n : int64 = 0' % (T, U), 'gmap({x : %s\n%s\t-> u\n}, v[:1], d[:])' % (T, ''.join('\t%s\n' % s for s in chk('x', a))), chk('d[0]', u, o), 'd[1] = gapp({x : %s -> %s\n\t-> u\n}, b)' % (T, U), chk('d[1]', u, o))
        body(D('a', a), D('b', b), 'var x : gbox(%s), r : %s' % (T, T), 'x = gmkbox(a, 200)', chk('x.v', a), OK('x.pre == 200 && x.post == 191'), 'r = gunbox(x)', chk('r', a), 'r = gupd(&x, b)', chk('r', a), chk('x.v', b), OK('x.pre == 200 && x.post == 191'), 'var y : gbox(gbox(%s)) = gmkbox(x, 7)' % T, chk('y.v.v', b), OK('y.pre == 7 && y.post == -2 && y.v.pre == 200 && y.v.post == 191'), 'r = gunbox(gunbox(y))', chk('r', b))
        body(D('a', a), D('b', b), 'var o : gopt(%s) = gsome(a), n = `Gnone, r : %s' % (T, T), OK('ghas(o) && !ghas(n)'), 'r = gget(o, b)', chk('r', a), 'r = gget(n, b)', chk('r', b), 'o = `Gsome b', 'r = gget(o, a)', chk('r', b), 'var oo : gopt(gopt(%s)) = gsome(o)' % T, 'r = gget(gget(oo, n), a)', chk('r', b), 'oo = gsome(n)', OK('ghas(oo)'), 'r = gget(gget(oo, o), a)', chk('r', a), 'oo = `Gnone', 'r = gget(gget(oo, o), a)', chk('r', b), 'match o', '| `Gsome x:', ['\t' + s for s in chk('x', b)], '| `Gnone:\tvsym.check(%d, false)' % p.xid(), ';;')
        body(D('a', a), D('b', b), D('d', d), 'var l1 : glist(%s), l2 : glist(%s), l3 : glist(%s), r : %s' % (T, T, T, T), 'l1.v = a', 'l1.next = &l2', 'l2 = [.v=b, .next=&l3]', 'l3 = [.next=(0 : glist(%s)#), .v=d]' % T, 'r = glnth(&l1, 0)', chk('r', a), 'r = glnth(&l1, 1)', chk('r', b), 'r = glnth(&l1, 2)', chk('r', d), 'r = l1.next.next.v', chk('r', d))
        body(D('a', a), D('b', b), D('u', u, U), 'var z : gboth(%s, %s) = gboths(a, u, b), ru : %s, q : gboth(%s, %s)' % (T, U, U, U, T), chk('z.b[0].v', a), chk('z.b[1].v', b), OK('z.b[0].pre == 1 && z.b[1].pre == 2 && z.b[1].post == -7'), 'ru = gget(z.o, ru)' if 0 else 'ru = u\nru = gget(z.o, ru)', chk('ru', u, o), 'q = gboths(u, a, u)', chk('q.b[1].v', u, o), 'a = gget(q.o, b)', chk('a', a))
        body(D('a', a), D('u', u, U), 'var r : (%s, %s) = gcap(a, u), x : %s' % (T, U, T), chk('r.0', a), chk('r.1', u, o), 'x = gcap2(a, u)', chk('x', a), 'eq_int64(%d, gsz(a), (sizeof(%s) : int64))' % (K(c), T), 'eq_int64(%d, gsz((a, 1)), (sizeof((%s, int)) : int64))' % (K(c), T), 'eq_int64(%d, gsz(&a), 8)' % K(c), 'eq_int64(%d, gsz([a, a, a]), 3 * (sizeof(%s) : int64))' % (K(c), T))
    p.register(ck, libs=['std'], bound='every value of the type', time=100)
# ---- dispatch ----
def near(rnd):
    """a family of different types that resemble each other"""
    s = rnd.choice(['int32', 'byte', 'int64', 'char']); z = {'int32': 'uint32', 'byte': 'int8', 'int64': 'uint64', 'char': 'int32'}[s]
    return [s, z, s + '#', z + '#', s + '##', s + '[:]', z + '[:]', s + '#[:]', s + '[:]#', s + '[2]', s + '[3]', z + '[2]', '(%s, %s)' % (s, s), '(%s, %s)' % (s, z), '(%s, %s, %s)' % (s, s, s), '((%s, %s), %s)' % (s, s, s), '(%s, (%s, %s))' % (s, s, s),
            '(a : %s -> %s)' % (s, s), '(a : %s -> void)' % s, '(-> %s)' % s, '(a : %s, b : %s -> %s)' % (s, s, s), '(a : %s, b : ... -> %s)' % (s, s) if 0 else '(a : %s# -> %s)' % (s, s), 'nm', 'nm2', 'nm#', 'nm[:]', 'sa', 'sb', 'ua', 'ub', 'w1(%s)' % s, 'w1(%s)' % z, 'w1(nm)', 'w1(w1(%s))' % s, 'w2(%s)' % s, 'w3(%s, %s)' % (s, z), 'w3(%s, %s)' % (z, s), 'w3(%s, %s)' % (s, s), 'w1(%s)#' % s, 'w1(%s#)' % s, 'w1(%s[:])' % s, 'w1((%s, %s))' % (s, s), 'bool', 'flt64'], s
def dispatch(ck, k, rnd):
    """a trait implemented for many types: the implementation of exactly the argument's type runs, directly, from generics and through impl()"""
    p = Prog('disp%d' % k); p.eq('int64'); p.inp('int64'); K = p.id; fam, s = near(rnd); rnd.shuffle(fam)
    p.add('type nm = %s\ntype nm2 = %s\ntype sa = struct\n\ta : %s\n\tb : %s\n;;\ntype sb = struct\n\ta : %s\n\tb : %s\n;;\ntype ua = union\n\t`Ua0 %s\n\t`Ua1\n;;\ntype ub = union\n\t`Ub0 %s\n\t`Ub1\n;;\ntype w1(@a) = struct\n\tv : @a\n;;\ntype w2(@a) = struct\n\tv : @a\n;;\ntype w3(@a, @b) = struct\n\tv : @a\n\tw : @b\n;;' % ((s,) * 8))
    p.add('trait who @a =\n\twho : (x : @a# -> int64)\n\tadd2 : (x : @a#, n : int64 -> int64)\n\tmk : (x : @a#, y : @a# -> @a#)\n\tTag : int64\n;;')
    order = list(enumerate(fam)); rnd.shuffle(order)
    for i, t in order:
        defs = ['\twho = {x\n\t\t-> %d\n\t}' % (1000 + i), '\tadd2 = {x, n\n\t\t-> n * %d + who(x)\n\t}' % (i + 1), '\tmk = {x, y\n\t\t-> %s\n\t}' % 'xy'[i & 1], '\tTag = %d' % (7 * i + 3)]; rnd.shuffle(defs)
        p.add('impl who %s =\n%s\n;;' % (t, '\n'.join(defs)))
    p.add('''generic gwho = {x : @a# -> int64 :: who @a
	-> who(x)
}
generic gwho2 = {x : @a#, y : @b# -> int64 :: who @a, who @b
	-> who(x) * 10000 + who(y)
}
generic gchain = {x : @a#, y : @b#, n : int64 -> int64 :: who @a, who @b
	if n > 0
		-> gchain(x, y, n - 1)
	;;
	-> gwho2(mk(x, x), mk(y, y)) + impl(Tag, @a) * 100000000 + impl(Tag, @b) * 1000000000000
}
generic gadd = {x : @a#, n : int64 -> int64 :: who @a
	-> add2(x, n)
}
generic gclos = {x : @a# -> (n : int64 -> int64) :: who @a
	-> {n
		-> n
	}
}
generic gmkp = {x : @a#, y : @a# -> @a# :: who @a
	-> mk(x, y)
}
generic gtup = {x : @a#, y : @b# -> int64 :: who @a, who @b
	var f = {m; -> who(x) * m + add2(y, m)}
	-> f(3)
}''')
    case = 0
    for lo in range(0, len(fam), 8):
        case += 1; ch = list(enumerate(fam))[lo:lo + 8]; p.titles[case] = 'the implementation for exactly the argument\'s type: ' + ', '.join(t for i, t in ch)[:70]
        for i, t in ch:
            j = rnd.randrange(len(fam)); u = fam[j]; w, wu, n = 1000 + i, 1000 + j, '(n : int64)'
            E = lambda e, v: 'eq_int64(%d, %s, %s)' % (K(case), e, v)
            L = ['var x : %s, y : %s, u : %s, n : int64 = %s' % (t, t, u, p.inp('int64')), 'var px = &x, py = &y, pu = &u', E('who(px)', w), E('who(pu)', wu), E('gwho(px)', w), E('gwho2(px, pu)', w * 10000 + wu), E('gwho2(pu, px)', wu * 10000 + w), E('add2(px, n)', 'n * %d + %d' % (i + 1, w)), E('gadd(px, n)', 'n * %d + %d' % (i + 1, w)), E('gadd(pu, n)', 'n * %d + %d' % (j + 1, wu))]
            L += [E('gchain(px, pu, 0)', w * 10000 + wu + (7 * i + 3) * 10**8 + (7 * j + 3) * 10**12), E('gchain(px, pu, 3)', w * 10000 + wu + (7 * i + 3) * 10**8 + (7 * j + 3) * 10**12), E('gchain(pu, px, 2)', wu * 10000 + w + (7 * j + 3) * 10**8 + (7 * i + 3) * 10**12), E('impl(Tag, %s)' % t, 7 * i + 3), E('gtup(px, pu)', w * 3 + 3 * (j + 1) + wu)]
            L += ['vsym.check(%d, mk(px, py) == %s && gmkp(px, py) == %s)' % (K(case), *(('px', 'py')[i & 1],) * 2), 'var f : (x : %s# -> int64) = impl(who, %s)' % (t, t), E('f(px)', w)]
            p.fn(case, '\n'.join(L))
    p.register(ck, libs=[], bound='every value of the operands', time=100)
# ---- operators in generics ----
def numeric(ck):
    p = Prog('gnum'); p.eq('int64'); K = p.id; p.use = ['vsym']
    N = [('add', 'a + b'), ('sub', 'a - b'), ('mul', 'a * b'), ('neg', '-a'), ('mix', 'a * 2 - b + 100'), ('inc', '(a = a + b, a - 1).0'), ('sq', 'a*a - b*b')]
    fs = {}
    def gf(name, ret, body, tr='numeric,integral @a', args='a : @a, b : @a'): p.add('generic %s = {%s -> %s :: %s\n%s\n}' % (name, args, ret, tr, '\n'.join('\t' + l for l in body.split('\n')))); 
    B = [('n_add', '-> a + b', 'a + b', 0), ('n_sub', '-> a - b', 'a - b', 0), ('n_mul', '-> a * b', 'a * b', 0), ('n_neg', '-> -a', '-a', 0), ('n_mix', '-> a * 3 - b + 100', 'a * 3 - b + 100', 0), ('n_asg', 'a += b\nb -= a\na *= b\n-> a', '(a + b) * (b - (a + b))', 0), ('n_inc', 'var c = a++\n--b\n-> a * c - b', '(T)(a + 1) * a - (T)(b - 1)', 0),
         ('i_and', '-> a & b', 'a & b', 0), ('i_or', '-> a | b', 'a | b', 0), ('i_xor', '-> a ^ b', 'a ^ b', 0), ('i_not', '-> ~a', '~a', 0), ('i_shl', '-> a << (b & 7)', '(U)a << (b & 7)', 0), ('i_shr', '-> a >> (b & 7)', 'a >> (b & 7)', 0), ('i_rot', '-> (a << 3) | (a >> 5)', '((U)a << 3) | (a >> 5)', 0),
         ('i_div', '-> a / b', 'a / b', 1), ('i_mod', '-> a % b', 'a % b', 1), ('i_dc', '-> a / 3 + a % 7', 'a / 3 + a % 7', 2), ('i_dn', '-> a / 8 - a % 16', 'a / 8 - a % 16', 2), ('c_max', 'if a > b\n\t-> a\n;;\n-> b', 'a > b ? a : b', 0), ('c_clamp', 'if a < 10\n\t-> 10\nelif a >= 100\n\t-> 100\n;;\n-> a', 'a < 10 ? 10 : a >= 100 ? 100 : a', 0), ('c_gcd', 'if b == 0\n\t-> a\n;;\n-> b', 'b == 0 ? a : b', 0),
         ('t_c8', '-> ((a : int8) : @a)', '(T)(signed char)a', 0), ('t_u16', '-> ((a : uint16) : @a)', '(T)(u16)a', 0), ('t_64', '-> ((a : int64) + 1000000 : @a)', '(T)((i64)a + 1000000)', 0), ('t_u64', '-> ((a : uint64) >> 3 : @a)', '(T)((u64)a >> 3)', 0)]
    C = [('b_lt', 'a < b'), ('b_le', 'a <= b'), ('b_gt', 'a > b'), ('b_ge', 'a >= b'), ('b_eq', 'a == b'), ('b_ne', 'a != b'), ('b_42', 'a == 42'), ('b_pos', 'a > 0 && b < 100 || a < b'), ('b_lit', 'a < 100')]
    p.add('generic Gk : @a = 42 :: integral,numeric @a\ngeneric Gtab : @a[4] = [1, 2, 100, 4] :: integral,numeric @a\nvar dummy : int')
    for n, b, e, z in B: gf(n, '@a', b)
    for n, e in C: gf(n, 'bool', '-> ' + e)
    p.add('generic conv2 = {a : @a -> @b :: numeric,integral @a, numeric,integral @b\n\t-> (a : @b)\n}')
    p.add('generic sumto = {n : @a, f : (x : @a -> @a) -> @a :: numeric,integral @a\n\tvar s : @a, i : @a\n\n\ts = 0\n\tfor i = 0; i < n; i++\n\t\ts += f(i)\n\t;;\n\t-> s\n}')
    p.add('generic gsum = {l : @a[:] -> @a :: numeric,integral @a\n\tvar s : @a = 0\n\tfor x : l\n\t\ts += x\n\t;;\n\t-> s\n}\ngeneric gmatch = {x : @a -> int64 :: numeric,integral @a\n\tmatch x\n\t| 0:\t-> 1\n\t| 7:\t-> 2\n\t| 100:\t-> 3\n\t| y:\t-> (y : int64)\n\t;;\n}')
    IT = [t for t in INTS if t[0] not in ('char',)]
    for c, (t, ct, bits, sg) in enumerate(IT, 1):
        p.titles[c] = 'numeric and integral generics at ' + t; p.inp(t); p.eq(t); p.eq('bool'); U = ct if not sg else ct.replace('signed char', 'char'); U = 'unsigned ' + U.replace('signed ', '') if sg else ct
        lo = ('%s x = %s, y = %s' % ('%s', '%s', '%s'))
        D = 'var x : %s = in_%s(), y : %s = in_%s()' % (t, t, t, t)
        for n, b, e, z in B:
            r = 'r_%s_%s' % (n, t); ce = e.replace('(T)', '(%s)' % ct).replace('(U)', '(%s)' % U)
            if bits < 32: pass
            p.extern(r, '(a : %s, b : %s -> %s)' % (t, t, t), '%s %s(%s a,%s b){ %s return (%s)(%s); }' % (ct, r, ct, ct, '', ct, ce))
            pre = '\nvsym.assume(y != 0 && !(y == -1 && x == (%d : %s)))' % (-(1 << bits - 1), t) if z == 1 and sg else '\nvsym.assume(y != 0)' if z == 1 else ''
            if z == 1 and bits > 16 or n == 'i_dc' and bits > 8: continue
            p.fn(c, D + pre + '\neq_%s(%d, %s(x, y), %s(x, y))' % (t, K(c), n, r))
        for n, e in C:
            r = 'r_%s_%s' % (n, t); p.extern(r, '(a : %s, b : %s -> bool)' % (t, t), 'u8 %s(%s a,%s b){ return %s; }' % (r, ct, ct, e))
            p.fn(c, D + '\neq_bool(%d, %s(x, y), %s(x, y))' % (K(c), n, r))
        p.fn(c, D + '\nvar k : %s = Gk, v : %s[4] = Gtab\neq_%s(%d, k, 42)\neq_%s(%d, v[2] + v[1], 102)' % (t, t, t, K(c), t, K(c)))
        p.fn(c, D + '\nvar v = [x, y, 3]\neq_%s(%d, gsum(v[:]), x + y + 3)\neq_%s(%d, gsum(v[1:2]), y)\neq_%s(%d, sumto(4, {i; -> i * x + y}), 6 * x + 4 * y)' % (t, K(c), t, K(c), t, K(c)))
        p.fn(c, D + '\nvar r = (x : int64)\nif x == 0\n\tr = 1\nelif x == 7\n\tr = 2\nelif x == 100\n\tr = 3\n;;\neq_int64(%d, gmatch(x), r)' % K(c))
        for u, cu, bu, su in IT:
            r = 'r_conv_%s_%s' % (t, u); p.eq(u); p.extern(r, '(a : %s -> %s)' % (t, u), '%s %s(%s a){ return (%s)a; }' % (cu, r, ct, cu))
            p.fn(c, D + '\nvar z : %s = conv2(x)\neq_%s(%d, z, %s(x))' % (u, u, K(c), r))
    p.register(ck, libs=[], bound='every value of the operands (division: of the 8- and 16-bit ones)', time=200)
# ---- generic impls and their precedence ----
def specific(ck):
    p = Prog('spec'); p.eq('int64'); p.inp('int64'); K = p.id; c = 1; p.titles[c] = 'implementations for families of types: the most specific applies'
    p.add('''type pr(@a, @b) = struct
	l : @a
	r : @b
;;
trait desc @a =
	desc : (x : @a -> int64)
;;
impl desc @a =
	desc = {x; -> 1}
;;
impl desc int32 =
	desc = {x; -> 2}
;;
impl desc @a[:] =
	desc = {x; -> 3}
;;
impl desc byte[:] =
	desc = {x; -> 4}
;;
impl desc @a# =
	desc = {x; -> 5}
;;
impl desc @a[:]# =
	desc = {x; -> 6}
;;
impl desc int32# =
	desc = {x; -> 7}
;;
impl desc pr(@a, @b) =
	desc = {x; -> 8}
;;
impl desc pr(@a, int32) =
	desc = {x; -> 9}
;;
impl desc (@a, @b) =
	desc = {x; -> 10}
;;
impl desc @a[4] =
	desc = {x; -> 11}
;;
impl desc @a[:][:] =
	desc = {x; -> 12}
;;
generic gd = {x : @a -> int64 :: desc @a
	-> desc(x)
}
generic gdd = {x : @a, y : @b -> int64 :: desc @a, desc @b
	-> desc(x) * 100 + gd(y)
}''')
    D = 'var i32 : int32 = 3, i64 : int64 = %s, b : byte = 1, s8 : byte[:] = "foo", s32 : int32[:] = [1, 2, 3][:], ss8 = [s8][:], ss32 = [s32][:], p1 : pr(byte, int64) = [.l=1, .r=2], p2 : pr(byte, int32) = [.l=1, .r=2], p3 : pr(int32, int32) = [.l=1, .r=2], a4 : int32[4] = [1, 2, 3, 4], a3 : int32[3] = [1, 2, 3]\n' % p.inp('int64')
    T = [('i32', 2, 7), ('i64', 1, 5), ('b', 1, 5), ('s8', 4, 6), ('s32', 3, 6), ('ss32', 12, 6), ('ss8', 12, 6), ('&i32', 7, 5), ('&i64', 5, 5), ('&s8', 6, 5), ('&s32', 6, 5), ('p1', 8, 5), ('p2', 9, 5), ('p3', 9, 5), ('(i32, b)', 10, 5), ('(i32, i32, i32)', 1, 5), ('a4', 11, 5), ('a3', 1, 5), ('true', 1, 5), ('desc((b, b))', 1, 5)]
    for e, v, q in T: p.fn(c, D + 'var w = %s\neq_int64(%d, desc(%s), %d)\neq_int64(%d, gd(%s), %d)\neq_int64(%d, gdd(%s, &w), %d)' % (e, K(c), e, v, K(c), e, v, K(c), e, v * 100 + q))
    p.register(ck, libs=[], bound='the listed types', time=60)
def misc(ck):
    p = Prog('gmisc'); p.eq('int64'); p.inp('int64'); K = p.id; c = 1; p.titles[c] = 'iterable, auxiliary types, traits with values, generic recursion'
    p.add('''type rg = struct
	lo : int64
	hi : int64
	st : int64
;;
impl iterable rg -> int64 =
	__iternext__ = {r, o
		if r.lo >= r.hi
			-> false
		;;
		o# = r.lo
		r.lo += r.st
		-> true
	}
	__iterfin__ = {r, v
		fins += v#
	}
;;
var fins : int64
type zip(@a, @b) = struct
	x : @a[:]
	y : @b[:]
	i : uint64
;;
impl iterable zip(@a, @b) -> (@a, @b) =
	__iternext__ = {z, o
		if z.i >= (z.x.len : uint64) || z.i >= (z.y.len : uint64)
			-> false
		;;
		o# = (z.x[z.i], z.y[z.i])
		z.i++
		-> true
	}
	__iterfin__ = {z, v
	}
;;
generic mkzip = {x : @a[:], y : @b[:] -> zip(@a, @b)
	-> [.x=x, .y=y, .i=0]
}
generic fold = {it : @i, f : (a : int64, v : @v -> int64), z : int64 -> int64 :: iterable @i -> @v
	for v : it
		z = f(z, v)
	;;
	-> z
}
trait bag @c -> @e =
	first : (c : @c -> @e)
	put : (c : @c#, e : @e -> void)
;;
type two(@a) = struct
	a : @a
	b : @a
;;
impl bag two(@a) -> @a =
	first = {c; -> c.a}
	put = {c, e
		c.b = c.a
		c.a = e
	}
;;
impl bag @x[2] -> @x =
	first = {c; -> c[0]}
	put = {c, e
		c#[1] = c#[0]
		c#[0] = e
	}
;;
type ib = struct
	v : int64
;;
impl bag ib -> byte =
	first = {c; -> (c.v : byte)}
	put = {c, e
		c.v = (c.v << 8) | (e : int64)
	}
;;
generic exch = {c : @c#, e : @e -> @e :: bag @c -> @e
	var o = first(c#)
	put(c, e)
	-> o
}
trait mon @a =
	zero : (x : @a# -> @a)
	plus : (a : @a, b : @a -> @a)
;;
impl mon int64 =
	zero = {x; -> 0}
	plus = {a, b; -> a + b}
;;
impl mon bool =
	zero = {x; -> false}
	plus = {a, b; -> a || b}
;;
impl mon (@a, @b) :: mon @a, mon @b =
	zero = {x; -> (zero(&x#.0), zero(&x#.1))}
	plus = {x, y
		-> (plus(x.0, y.0), plus(x.1, y.1))
	}
;;
generic msum = {l : @a[:] -> @a :: mon @a
	var s
	s = zero(&s)
	for x : l
		s = plus(s, x)
	;;
	-> s
}
generic evn = {n : int, x : @a -> (@a, int)
	if n <= 0
		-> (x, 0)
	;;
	-> odn(n - 1, x)
}
generic odn = {n : int, x : @a -> (@a, int)
	if n <= 0
		-> (x, 1)
	;;
	-> evn(n - 1, x)
}
type tree(@k) = struct
	l : tree(@k)#
	r : tree(@k)#
	k : @k
;;
generic ins = {t : tree(@k)#, n : tree(@k)# -> tree(@k)# :: numeric,integral @k
	if (t : byte#) == (0 : byte#)
		-> n
	elif n.k < t.k
		t.l = ins(t.l, n)
	else
		t.r = ins(t.r, n)
	;;
	-> t
}
generic lsum = {l : @a[:] -> @a :: numeric,integral @a
	var s : @a = 0
	var t : @a[2] = [1, 2]
	const f = {x : @a; -> x + 1}
	var g = {x : @a, n : int
		var y : @a = x * 2
		-> y
	}
	for x : l
		s += g(x, 1)
	;;
	-> f(s + t[1])
}
generic walk = {t : tree(@k)#, d : @k[:], i : uint64 -> uint64
	if (t : byte#) != (0 : byte#)
		i = walk(t.l, d, i)
		d[i++] = t.k
		i = walk(t.r, d, i)
	;;
	-> i
}
''')
    I = 'var x : int64 = %s, y : int64 = %s, k : int64 = %s\n' % ((p.inp('int64'),) * 3)
    E = lambda e, v: 'eq_int64(%d, %s, %s)' % (K(c), e, v)
    OK = lambda e: 'vsym.check(%d, %s)' % (K(c), e)
    def t(s): p.fn(c, I + s)
    t('var r : rg = [.lo=1, .hi=10, .st=3], s : int64 = 0\nfins = 0\nfor v : r\n\ts = s * 100 + v\n;;\n' + E('s', 10407) + '\n' + E('fins', '12') + '\n' + E('fold(r, {a, v; -> a + v * x}, y)', 'y + 12*x'))
    t('var a : int64[3] = [x, y, k], b : byte[3] = [1, 2, 3], s : int64 = 0\nfor (m, n) : mkzip(a[:], b[:2])\n\ts += m * (n : int64)\n;;\n' + E('s', 'x + y + y') + '\n' + E('fold(mkzip(b[1:], a[:]), {z, v : (byte, int64); -> z + (v.0 : int64) * v.1}, 0)', '2*x + 3*y') + '\n' + E('fold(a[:], {z, v; -> z + v}, 5)', '5 + x + y + k') + '\n' + E('fold(b, {z, v; -> z + (v : int64)}, 5)', 11))
    t('var c : two(int64) = [.a=x, .b=y], o : int64 = exch(&c, k)\n' + E('o', 'x') + '\n' + E('c.a', 'k') + '\n' + E('c.b', 'x'))
    t('var c : int64[2] = [x, y], o : int64 = exch(&c, k)\n' + E('o', 'x') + '\n' + E('c[0]', 'k') + '\n' + E('c[1]', 'x'))
    t('var c : ib = [.v=x], o : byte = exch(&c, (k : byte))\n' + E('(o : int64)', 'x & 0xff') + '\n' + E('c.v', '(x << 8) | (k & 0xff)'))
    t('var c : two((byte, bool)) = [.a=(3, true), .b=(4, false)], o = exch(&c, ((k : byte), x > y))\n' + OK('o.0 == 3 && o.1') + '\n' + OK('c.a.0 == (k : byte) && c.a.1 == (x > y) && c.b.0 == 3'))
    t(E('msum([x, y, k][:])', 'x + y + k') + '\nvar b : bool = msum([x > y, y > k][:])\n' + OK('b == (x > y || y > k)') + '\nvar v : (int64, bool) = msum([(x, false), (y, x > y)][:])\n' + E('v.0', 'x + y') + '\n' + OK('v.1 == (x > y)') + '\nvar w : ((int64, bool), int64) = msum([((x, false), y), ((y, true), k)][:])\n' + E('w.0.0', 'x + y') + '\n' + E('w.1', 'y + k') + '\n' + OK('w.0.1'))
    t('var e : (int64, int) = evn(5, x), f : ((int64, byte), int) = evn(4, (y, (k : byte)))\n' + E('e.0', 'x') + '\n' + E('(e.1 : int64)', 1) + '\n' + E('f.0.0', 'y') + '\n' + OK('f.0.1 == (k : byte) && f.1 == 0'))
    t('var b : byte = lsum([(x : byte), (y : byte)][:])\n' + E('lsum([x, y][:])', '2*x + 2*y + 3') + '\n' + OK('b == (2*x + 2*y + 3 : byte)'))
    for T in ('int64', 'byte', 'int16'):
        t('vsym.assume((x : %s) != (y : %s))\nvar z = (0 : tree(%s)#), n1 : tree(%s) = [.l=z, .r=z, .k=(x : %s)], n2 : tree(%s) = [.l=z, .r=z, .k=(y : %s)], n3 : tree(%s) = [.l=z, .r=z, .k=(k : %s)], d : %s[3], r\nr = ins(ins(ins(z, &n1), &n2), &n3)\n' % ((T,) * 10) + OK('walk(r, d[:], 0) == 3 && d[0] <= d[1] && d[1] <= d[2]') + '\n' + OK('(d[0] : uint64) + (d[1] : uint64) + (d[2] : uint64) == ((x : %s) : uint64) + ((y : %s) : uint64) + ((k : %s) : uint64)' % (T, T, T)))
    p.register(ck, libs=[], bound='every value of the variables', time=100)
def confused(ck):
    """a function of type @a, @b -> @a has nothing but its argument to return: code that mixes the parameters up must be rejected"""
    B = {'ret': '-> y', 'asg': 'x = y\n\t-> x', 'var': 'var z : @a = y\n\t-> z', 'ptr': 'var p = &x, q = &y\n\tp = q\n\t-> p#', 'arr': 'var v = [y, x]\n\t-> v[0]', 'tup': 'var t : (@b, @a), u : (@a, @b) = (x, y)\n\tt = u\n\t-> t.1', 'box': 'var b : bx(@b) = [.v=x]\n\tvar c : bx(@a) = b\n\t-> c.v',
         'rec': 'if k == 0\n\t\t-> x\n\t;;\n\t-> f(y, x, k - 1)', 'clos': 'var g = {a : @b -> @b; -> a}\n\t-> g(x)', 'cond': '-> k == 1 ? y : x', 'slice': 'var s = [x][:]\n\ts = [y][:]\n\t-> s[0]'}
    for n, b in sorted(B.items()):
        p = Prog('mix_' + n); p.inp('int64'); p.inp('byte'); p.add('type bx(@t) = struct\n\tv : @t\n;;\ngeneric f = {x : @a, y : @b, k : int -> @a\n\t%s\n}' % b)
        p.titles[1] = 'type parameters mixed up (%s): must be rejected' % n
        p.fn(1, 'var x : int64[3] = [in_int64(), in_int64(), in_int64()], y : byte = in_byte(), r : int64[3]\nr = f(x, y, 1)\nvsym.check(%d, r[0] == x[0] && r[1] == x[1] && r[2] == x[2])' % p.id(1))
        h = p.register(ck, expect=False); h.reject = 'incompatible|constrain|infinite|type'
