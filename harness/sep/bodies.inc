type pt(@a) = struct
	p	: @a
	q	: @a
;;
type un(@a) = union
	`U1 @a
	`U2 (@a, int64)
	`U3
;;
generic b_arith = {x : @a, y : @a :: numeric, integral @a
	var z : @a
	z = x * 3 + (y - 7)
	z ^= x << 2
	z |= 1
	z &= ~(y >> 1)
	z += -x
	z -= y
	z *= 2
	z <<= 1
	z >>= 1
	z++
	z--
	-> z + (x & y) - (x | y)
}
generic b_cmp = {x : @a, y : @a :: numeric, integral @a
	var r : int64
	r = 0
	if x < y && x != y || !(x > 5)
		r += 1
	elif x <= y
		r += 2
	else
		r += 4
	;;
	if x == y; r += 8; ;;
	if x >= y; r += 16; ;;
	if true && !false; r += 32; ;;
	-> r
}
generic b_match = {x : @a, y : @a, k : int64
	var u : un(@a), r : @a
	match k
	| 0:	u = `U1 x
	| 1:	u = `U2 (y, 12)
	| -3:	u = `U3
	| _:	u = `U2 (x, k)
	;;
	match u
	| `U1 v:	r = v
	| `U2 (v, 12):	r = v
	| `U2 (v, _):	r = v
	| `U3:	r = y
	;;
	match "abc"
	| "abd":	-> y
	| "abc":	-> r
	| _:	-> x
	;;
}
generic b_loop = {x : @a, n : int64 :: numeric, integral @a
	var s : @a, i : int64, a : @a[4]
	s = 0
	a = [x, x + 1, x + 2, 9]
	for e : a
		if e == 9
			continue
		;;
		s += e
	;;
	for i = 0; i < 4; i++
		if i == 3; break; ;;
		s = s * 3 + a[i]
	;;
	i = 2
	while i > 0
		s ^= a[i]
		i--
	;;
	for e : a[1:3]
		s += e
	;;
	for var j = 0; j < 3; j++
		s += (n : @a)
	;;
:again
	i++
	if i < 3
		goto again
	;;
	-> s + (i : @a)
}
generic b_aggr = {x : @a, y : @a
	var t : (@a, int64, pt(@a)), p : pt(@a), s : @a[:], a : @a[3]
	var q : @a#
	p = [.p = x, .q = y]
	t = (x, 77, p)
	a = [.[1] = y, .[2] = p.p, .[0] = t.2.q]
	s = a[:]
	q = &a[1]
	s[2] = q#
	q# = x
	-> (s[:2][1], a[2], t.0, (s.len : int64) + t.1 + (sizeof(@a) : int64) + (sizeof(pt(@a)) : int64))
}
generic b_lits = {x : @a
	var r : int64, f : flt64, g : flt32, c : char, s : byte[:]
	f = 2.5
	g = 0.125
	c = 'é'
	s = "a\0\xff\"é"
	r = 0x7fffffffffffffff - 1
	-> (x, r, f * 3.0, g, c, s, 'q', 0b101, -12345678901, 100b, true, void, 17ul)
}
generic b_close = {x : @a, y : int64
	var f
	f = {z : int64
		-> (x, y + z)
	}
	-> f(5)
}
generic b_cast = {x : @a :: numeric, integral @a
	-> ((x : int8), (x : uint16), (x : int32), ((x : uint8) : int64), (x : flt64))
}
generic b_tern = {x : @a, y : @a, k : bool
	var p : @a#
	var z : @a
	p = (0 : @a#)
	z = y
	if (p : byte#) == (0 : byte#)
		p = &z
	;;
	if k
		p = &x
	;;
	-> p#
}
generic b_pats = {x : @a, k : int64
	var r : int64, p : pt(int64), t : (int64, byte[:], char, bool), c : int64[2]
	r = 0
	p = [.p = k, .q = k & 3]
	match p
	| [.p = 0x123456789abcdef0]:	r += 1
	| [.q = 2]:	r += 2
	| [.p = -5, .q = 3]:	r += 3
	| _:	r += 4
	;;
	match k & 1
	| 0:	t = (k, "even", 'e', true)
	| _:	t = (-k, "odd", '\u{20ac}', false)
	;;
	match t
	| (3, _, _, _):	r += 10
	| (_, "even", 'e', true):	r += 20
	| (n, "odd", '\u{20ac}', false):	r += n ^ 0x80
	| _:	r += 40
	;;
	c = [k >> 1, 7]
	match &c[0]
	| &5:	r += 100
	| &v:	r -= v * 3
	;;
	match c
	| [1, 7]:	r += 1000
	| [_, _]:	r ^= 0x5000
	;;
	-> (x, r, t.1.len)
}
generic b_nest = {x : @a, y : int64
	var fs : (z : int64 -> int64)[2], g
	const kk = 11
	g = {z : int64
		var h = {w : int64
			-> w * kk + y
		}
		-> h(z) ^ h(y)
	}
	fs = [{z; -> z * 2 + 1}, {z; -> -z}]
	if y < 0
		for f : fs
			g(f(1))
		;;
		-> (x, g(fs[1](3)))
	else
		-> (x, g(fs[0](4)) - (fs.len : int64))
	;;
}
