"""Control flow: random structured programs against the same program in C."""
from gen import *
from gencf import CF
import random, os
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 1000 + 12)
    n = 40 if not ck.thorough() else 240
    for k in range(n // 5): progs(ck, k, rnd)
    order(ck)
    ck.programs = len(ck.hs)
PRE = """type cfst = struct
	a : int64
	b : int64
	c : int64
;;
type counter = struct
	i : int64
	n : int64
	id : int64
;;
var tlog : int64[1024]
var nlog : int64
const tr = {k : int64, v : int64 -> int64
	if nlog < 1024
		tlog[nlog] = v
		tlog[nlog + 1] = k
		nlog += 2
	;;
	-> v
}
const b2i = {b : bool -> int64
	if b
		-> 1
	;;
	-> 0
}
const count = {n : int64, id : int64 -> counter
	-> [.i=0, .n=n, .id=id]
}
impl iterable counter -> int64 =
	__iternext__ = {p, v
		v# = p.i
		tr(p.id, p.i)
		p.i++
		-> v# < p.n
	}
	__iterfin__ = {p, v
		tr(p.id + 1000, v#)
	}
;;
extern const c_done : (id : int, x : int64, l : int64#, n : int64 -> void)
"""
CPRE = """struct cfst { i64 a, b, c; };
static i64 clog[1024]; static i64 cn;
static i64 r_tr(i64 k, i64 v){ if (cn < 1024) { clog[cn] = v; clog[cn + 1] = k; cn += 2; } return v; }
static i64 cret;
void c_done(int id, i64 x, i64 *l, i64 n){ vcheck(id, n == cn); for (i64 i = 0; i < n && i < 1024; i++) vcheck(id, l[i] == clog[i]); vcheck(id, x == cret); vout(x); }
"""
def progs(ck, k, rnd):
    p = Prog('flow%d' % k); p.inp('int64'); p.add(PRE); p.cdef(CPRE if not os.environ.get('CFDBG') else 'void vdbg(u64)__asm__("vsym$dbg");' + CPRE.replace('vcheck(id, l[i] == clog[i]);', '{ vcheck(id, l[i] == clog[i]); vdbg(clog[i]); vdbg(l[i]); if (i & 1) vdbg(0x77777777); }'))
    for c in range(1, 6):
        hs = []; H = []
        g = CF(rnd, str(c)); g.n = 100
        nm = 'h%d_%d' % (k, c); m, cc = g.func(nm, 1, 1, 2); p.add(m); p.cdef(cc)
        g2 = CF(rnd, str(c), helpers=[('r_' + nm, 1)]); g2.n = 100
        nm2 = 'm%d_%d' % (k, c); m, cc = g2.func(nm2, 3, rnd.randint(2, 3), rnd.randint(3, 6)); p.add(m.replace('r_' + nm, nm)); p.cdef(cc.replace('r_r_', 'r_'))
        p.cdef('void c_%s(i64 a,i64 b,i64 c){ cn = 0; cret = r_%s(a,b,c); }' % (nm2, nm2)); p.extern('c_' + nm2, '(a : int64, b : int64, c : int64 -> void)', '')
        p.titles[c] = 'random structured program %d' % (5 * k + c)
        p.fn(c, 'var x : int64 = in_int64(), y : int64 = in_int64(), z : int64 = in_int64(), r\nnlog = 0\nr = %s(x, y, z)\nc_%s(x, y, z)\nc_done(%d, r, (&tlog[0] : int64#), nlog)' % (nm2, nm2, p.id(c)))
    p.register(ck, bound='every value of three 64-bit inputs; loops of at most 4 rounds', time=60, opts=['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000'])

def order(ck):
    """what is evaluated, how often, in which order"""
    p = Prog('order'); p.add(PRE); p.inp('int64'); p.eq('int64'); K = p.id
    p.add("""var gx : int64
type pt = struct
	a : int64
	b : int64
;;
const setgx = {v : int64 -> int64
	gx = v
	-> v
}
const trb = {k : int64, v : bool -> bool
	tr(k, 0)
	-> v
}
const was = {id : int, l : int64[:]
	vsym.check(id, nlog == (2 * l.len : int64))
	for var i = 0; i < l.len; i++
		vsym.check(id, tlog[2*i + 1] == l[i])
	;;
}
const g3 = {a : int64, b : int64, c : int64 -> int64
	tr(90, a)
	-> a + 10*b + 100*c
}
const pick2 = {k : int64 -> (a : int64, b : int64 -> int64)
	tr(k, k)
	-> {a, b; -> a - b}
}
const lst = {k : int64 -> int64[:]
	tr(k, 0)
	-> larr[:]
}
var larr : int64[4]
const nop = {; }
const retearly = {x : int64 -> int64
	for var i : int64 = 0; i < 4; i++
		match i
		| 2:
			if x > 0
				-> tr(1, i)
			;;
		| _:
			while true
				tr(2, i)
				if i == 0
					break
				;;
				if i == 3
					-> tr(3, x)
				;;
				goto out
			;;
			continue
			:out
			tr(4, i)
		;;
	;;
	-> tr(5, 0)
}""")
    c = 1
    def t(title, s, *ls):
        nonlocal c
        I = 'var x : int64 = in_int64(), y : int64 = in_int64(), z : int64 = in_int64()\nnlog = 0\ngx = 0\n'
        if title: p.titles[c] = title
        p.fn(c, I + s)
    W = lambda *l: 'was(%d, [%s][:])' % (K(c), ', '.join('%d' % v for v in l))
    E = lambda a, b: 'eq_int64(%d, %s, %s)' % (K(c), a, b)
    t('operands, arguments and elements from left to right, each once', 'var r = tr(1, x) - tr(2, y) - tr(3, z)\n' + E('r', 'x - y - z') + '\n' + W(1, 2, 3))
    t('', 'var r = tr(1, x) - (tr(2, y) - tr(3, z)) + tr(4, x) * 3\n' + E('r', 'x - y + z + 3*x') + '\n' + W(1, 2, 3, 4))
    t('', 'var r = g3(tr(1, x), tr(2, y), g3(tr(3, z), 1, tr(4, 2)))\n' + E('r', 'x + 10*y + 100*(z + 210)') + '\n' + W(1, 2, 3, 4, 90, 90))
    t('', 'var s : pt = [.b=tr(1, x), .a=tr(2, y)]\n' + E('s.a', 'y') + '\n' + E('s.b', 'x') + '\nvsym.check(%d, nlog == 4)' % K(c))
    t('', 'var s : int64[3] = [tr(1, x), tr(2, y), tr(3, z)], u = (tr(4, x), tr(5, y))\n' + E('s[1]', 'y') + '\n' + E('u.1', 'y') + '\n' + W(1, 2, 3, 4, 5))
    t('', 'larr[1] = x\nvar r = lst(1)[tr(2, 1)] + tr(3, y)\n' + E('r', 'x + y') + '\n' + W(1, 2, 3))
    t('', 'var r = pick2(7)(tr(8, x), tr(9, y))\n' + E('r', 'x - y') + '\n' + W(7, 8, 9))
    t('', 'var r, q\nr = q = tr(1, x)\n' + E('r', 'x') + '\n' + E('q', 'x') + '\n' + W(1))
    t('', 'larr[2] = x\nlarr[tr(1, 2)] += y\n' + E('larr[2]', 'x + y') + '\n' + W(1) + '\nlst(2)[tr(3, 2)] -= 5\n' + E('larr[2]', 'x + y - 5') + '\n' + W(1, 2, 3))
    t('', 'var r = tr(1, x) == tr(2, y), q = tr(3, x) < tr(4, y)\nvsym.check(%d, r == (x == y) && q == (x < y))\n' % K(c) + W(1, 2, 3, 4))
    c = 2
    t('only what is needed: && || ?: if elif match', 'if trb(1, x > 0) && trb(2, y > 0)\n\t%s\nelif x > 0\n\t%s\nelse\n\t%s\n;;' % (W(1, 2), W(1, 2), W(1)))
    t('', 'if trb(1, x > 0) || trb(2, y > 0)\n\tif x > 0\n\t\t%s\n\telse\n\t\t%s\n\t;;\nelse\n\t%s\n;;' % (W(1), W(1, 2), W(1, 2)))
    t('', 'var b = trb(1, x > 0) && trb(2, y > 0) || trb(3, z > 0)\nvsym.check(%d, b == (x > 0 && y > 0 || z > 0))\nif x > 0 && y > 0\n\t%s\nelif x > 0\n\t%s\nelse\n\t%s\n;;' % (K(c), W(1, 2), W(1, 2, 3), W(1, 3)))
    t('', 'var b = !(trb(1, x > 0) || !trb(2, y > 0))\nvsym.check(%d, b == (x <= 0 && y > 0))\nif x > 0\n\t%s\nelse\n\t%s\n;;' % (K(c), W(1), W(1, 2)))
    t('', 'var r = trb(1, x > 0) ? tr(2, y) : tr(3, z)\nif x > 0\n\t%s\n\t%s\nelse\n\t%s\n\t%s\n;;' % (E('r', 'y'), W(1, 2), E('r', 'z'), W(1, 3)))
    t('', 'if trb(1, x > 0)\n\ttr(2, 0)\nelif trb(3, y > 0)\n\ttr(4, 0)\nelif trb(5, z > 0)\n\ttr(6, 0)\nelse\n\ttr(7, 0)\n;;\nif x > 0\n\t%s\nelif y > 0\n\t%s\nelif z > 0\n\t%s\nelse\n\t%s\n;;' % (W(1, 2), W(1, 3, 4), W(1, 3, 5, 6), W(1, 3, 5, 7)))
    t('', 'match tr(1, x & 3)\n| 0:\ttr(2, 0)\n| 1:\ttr(3, 0)\n| _:\ttr(4, 0)\n;;\nif x & 3 == 0\n\t%s\nelif x & 3 == 1\n\t%s\nelse\n\t%s\n;;' % (W(1, 2), W(1, 3), W(1, 4)))
    c = 3
    t('loops: what is evaluated once and what every time', 'for e : lst(1)[tr(2, 0):tr(3, 2)]\n\ttr(4, e)\n;;\n' + W(1, 2, 3, 4, 4))
    t('', 'for var i = tr(1, 0); tr(2, i) < 2; tr(3, i++)\n\ttr(4, i)\n;;\n' + W(1, 2, 4, 3, 2, 4, 3, 2))
    t('', 'for var i = tr(1, 0); tr(2, i) < 3; tr(3, i++)\n\tif i == 0\n\t\tcontinue\n\t;;\n\ttr(4, i)\n\tif i == 1\n\t\tbreak\n\t;;\n;;\n' + W(1, 2, 3, 2, 4))
    t('', 'var i : int64 = 3\nwhile tr(1, i) > 1\n\ti--\n\ttr(2, i)\n;;\n' + W(1, 2, 1, 2, 1))
    t('', 'for e : count(tr(1, 2), 20)\n\ttr(2, e)\n;;\n' + W(1, 20, 2, 1020, 20, 2, 1020, 20))
    t('', 'for e : count(3, 20)\n\tif e == 0\n\t\tcontinue\n\t;;\n\ttr(2, e)\n\tif x == 0\n\t\tbreak\n\t;;\n;;\nif x == 0\n\tvsym.check(%d, nlog >= 8)\nelse\n\t%s\n;;' % (K(c), W(20, 1020, 20, 2, 1020, 20, 2, 1020, 20)))
    t('', 'for 1 : count(3, 20)\n\ttr(2, 0)\n;;\n' + W(20, 1020, 20, 2, 1020, 20, 1020, 20))
    t('', 'for i : count(2, 20)\n\tfor j : count(2, 30)\n\t\tif j == 1 && i == 0\n\t\t\tbreak\n\t\t;;\n\t\ttr(2, j)\n\t;;\n;;\nvsym.check(%d, nlog >= 18)' % K(c))
    t('', E('retearly(x)', 'x > 0 ? 2 : x') + '\nif x > 0\n\t%s\nelse\n\t%s\n;;' % (W(2, 2, 4, 1), W(2, 2, 4, 2, 3)))
    t('', 'larr[0] = 0; larr[1] = 0; larr[2] = 0; larr[3] = 0\nvar n : int64 = 0\nfor e : larr[:3]\n\tlarr[2] = 9\n\tlarr[3] = 9\n\tn += e\n;;\n' + E('n', '9'))
    c = 4
    t('increments after the statement, all of them', 'var a = x, r\nr = a++ + a++\n' + E('r', 'x + x') + '\n' + E('a', 'x + 2'))
    t('', 'var a = x, r\nr = a-- - y\n' + E('r', 'x - y') + '\n' + E('a', 'x - 1') + '\nr = g3(a++, a++, a--)\n' + E('r', '111*(x - 1)') + '\n' + E('a', 'x'))
    t('', 'var i = 0\nlarr[i++] = x\nlarr[i++] = y\n' + E('larr[0]', 'x') + '\n' + E('larr[1]', 'y') + '\nvsym.check(%d, i == 2)' % K(c))
    t('', 'var a : int64 = x & 3\nif a++ == 2\n\t%s\nelse\n\t%s\n;;\n' % (E('a', '3'), E('a', '(x & 3) + 1')))
    t('', 'var a : int64 = x & 3\nif x == 99\n\ttr(1, 0)\nelif a++ == 2\n\t%s\nelse\n\t%s\n;;\n' % (E('a', '3'), E('a', '(x & 3) + 1')))
    t('', 'var a : int64 = x & 3, n = 0\nwhile a-- > 0\n\tn++\n;;\n' + E('a', '-1') + '\nvsym.check(%d, n == (x & 3 : int))' % K(c))
    t('', 'var a : int64 = x & 3, n : int64 = 0\nfor a = 0; a++ < 3; n++\n\ttr(1, a)\n;;\n' + E('a', '4') + '\n' + E('n', '3') + '\n' + W(1, 1, 1))
    t('', 'var a : int64 = x & 1\nmatch a++\n| 0:\t%s\n| _:\t%s\n;;' % (E('a', '1'), E('a', '2')))
    t('', 'var a = x, f\nf = {b : int64; -> b++}\n' + E('f(a)', 'x') + '\nvar s : pt = [.a=x, .b=y], q = &s\nq.a++\ns.b--\nq.b += q.a++\n' + E('s.a', 'x + 2') + '\n' + E('s.b', 'y - 1 + x + 1'))
    t('', 'var a : int8 = (x : int8), b : byte = (y : byte), u : uint16 = (z : uint16)\na++\nb--\nu++\nvsym.check(%d, a == (x + 1 : int8) && b == (y - 1 : byte) && u == (z + 1 : uint16))' % K(c))
    # the base of a slice, its bounds, an element
    p.add('const slf = {p : int64#, r : int64[:] -> int64[:]\n\tp# += 1\n\t-> r\n}')
    t('', 'var a : int64[4] = [x, y, z, 7], n : int64 = 0, s : int64[:]\ns = slf(&n, a[:])[1:]\n' + E('n', '1') + '\n' + E('s[0]', 'y') + '\n' + E('(s.len : int64)', '3') + '\ns = slf(&n, s)[:2]\n' + E('n', '2') + '\n' + E('s[1]', 'z') + '\ns = slf(&n, slf(&n, s)[1:])[:]\n' + E('n', '4') + '\n' + E('(s.len : int64)', '1'))
    t('', 'var a : int64[2][3], b : int64[:][3], i : int64 = 0, s : int64[:]\na[0] = [x, y]\na[1] = [y, z]\na[2] = [z, x]\nb[0] = a[0][:]\nb[1] = a[1][:]\nb[2] = a[2][:]\ns = b[i++][1:]\n' + E('i', '1') + '\n' + E('s[0]', 'y') + '\ns = a[i++][1:]\n' + E('i', '2') + '\n' + E('s[0]', 'z') + '\ns = b[i--][i - 2:]\n' + E('i', '1') + '\n' + E('s[0] + (s.len : int64)', 'z + 2'))
    p.register(ck, bound='every value of the variables', time=60)
    # an operand that names a variable is read when the operator is applied, after calls to its right
    p = Prog('lateread'); p.inp('int64'); p.eq('int64'); K = p.id
    p.add('var gx : int64\nvar larr : int64[4]\nconst setgx = {v : int64 -> int64\n\tgx = v\n\tlarr[1] = v\n\t-> v\n}\nconst sub = {a : int64, b : int64 -> int64; -> a - b}')
    I = 'var x : int64 = in_int64(), y : int64 = in_int64()\ngx = x\nlarr[1] = x\n'
    p.titles[1] = 'a global variable as the left operand of a call that changes it'; p.fn(1, I + 'eq_int64(%d, gx - setgx(y), x - y)' % p.id(1))
    p.titles[2] = 'an element as the left operand of a call that changes it'; p.fn(2, I + 'eq_int64(%d, larr[1] - setgx(y), x - y)' % p.id(2))
    p.titles[3] = 'a global variable as an argument before a call that changes it'; p.fn(3, I + 'eq_int64(%d, sub(gx, setgx(y)), x - y)' % p.id(3))
    p.register(ck, bound='every value of the variables', time=60)
