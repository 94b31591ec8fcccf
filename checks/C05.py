"""Bounds checks: indexing and slicing abort exactly when out of range."""
from gen import *
LIBS = []
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    for t, ct, b, s in INTS:
        if t == 'char': continue
        p = Prog('idx_' + t); I = p.inp(t); p.eq('uint64'); p.eq('int32')
        inr = ('i>=0 && (u64)i<n' if s else '(u64)i<n')
        p.extern('xp', '(i : %s, n : uint64 -> void)' % t, 'void xp(%s i,u64 n){ vexpabort(!(%s)); }' % (ct, inr))
        p.extern('ok', '(id : int, i : %s, n : uint64 -> void)' % t, 'void ok(int id,%s i,u64 n){ vexpabort(0); vcheck(id,%s); }' % (ct, inr))
        sl = 'l>=0 && h>=0 && l<=h && (u64)h<=n' if s else 'l<=h && (u64)h<=n'
        p.extern('xs', '(l : %s, h : %s, n : uint64 -> void)' % (t, t), 'void xs(%s l,%s h,u64 n){ vexpabort(!(%s)); }' % (ct, ct, sl))
        p.extern('oks', '(id : int, l : %s, h : %s, n : uint64 -> void)' % (t, t), 'void oks(int id,%s l,%s h,u64 n){ vexpabort(0); vcheck(id,%s); }' % (ct, ct, sl))
        p.extern('rlen', '(l : %s, h : %s -> uint64)' % (t, t), 'u64 rlen(%s l,%s h){ return (u64)h-(u64)l; }' % (ct, ct))
        p.extern('u64of', '(l : %s -> uint64)' % t, 'u64 u64of(%s l){ return (u64)l; }' % ct)
        p.add('type big = struct\n\ta : int64\n\tb : int64\n\tc : byte\n;;\ntype holder = struct\n\tpre : int32\n\tv : int32[5]\n\ts : int32[:]\n\tpost : int32\n;;\nvar gv : int32[6]\nvar gbig : byte[300]\nvar ghuge : byte[70000]\nvar gbuf : int32[8]')
        h = 'var i : %s = %s\n' % (t, I)
        K = lambda c: p.id(c)
        # 1: index arrays and slices, every access shape
        c = 1; p.titles[c] = 'index of type %s: read' % t
        p.fn(c, h + 'var v : int32[5] = [10, 11, 12, 13, 14]\nxp(i, 5)\nvar r = v[i]\nok(%d, i, 5)\nvsym.check(%d, (r : uint64) == 10 + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'gv = [20, 21, 22, 23, 24, 25]\nxp(i, 6)\nvar r = gv[i]\nok(%d, i, 6)\nvsym.check(%d, (r : uint64) == 20 + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'var v : int32[8] = [10, 11, 12, 13, 14, 15, 16, 17]\nvar n = vsym.pick(0, 6)\nvar s = v[1:n+1]\nxp(i, n)\nvar r = s[i]\nok(%d, i, n)\nvsym.check(%d, (r : uint64) == 11 + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'var v : int32[8] = [10, 11, 12, 13, 14, 15, 16, 17]\nvar n = vsym.range(0, 6)\nvar s = v[1:n+1]\nxp(i, n)\nvar p = &s[i]\nok(%d, i, n)\neq_uint64(%d, (p : uint64), (&v[1] : uint64) + 4*u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'var st : holder = [.v=[1, 2, 3, 4, 5]]\nxp(i, 5)\nvar r = st.v[i]\nok(%d, i, 5)\nvsym.check(%d, (r : uint64) == 1 + u64of(i))\nvar q = &st\nr = q.v[i]\nvsym.check(%d, (r : uint64) == 1 + u64of(i))' % (K(c), K(c), K(c)))
        p.fn(c, h + 'var v : int32[4] = [5, 6, 7, 8]\nvar st : holder = [.s=v[:3]]\nvar q = &st\nxp(i, 3)\nvar r = q.s[i]\nok(%d, i, 3)\nvsym.check(%d, (r : uint64) == 5 + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'xp(i, 5)\nvar r = "abcde"[i]\nok(%d, i, 5)\nvsym.check(%d, (r : uint64) == 97 + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'xp(i, 3)\nvar r = "ab\\0"[i]\nok(%d, i, 3)' % K(c))
        p.fn(c, h + 'xp(i, 0)\nvar s : byte[:] = ""\nvar r = s[i]\nok(%d, i, 0)' % p.xid())
        p.fn(c, h + 'var z : byte[:] = [][:]\nxp(i, 0)\nvar r = z[i]\nok(%d, i, 0)' % p.xid())
        if b == 8: p.fn(c, h + 'gbig[0] = 1\nxp(i, 300)\nvar r = gbig[i]\nok(%d, i, 300)' % K(c)); p.fn(c, h + 'var s = gbig[:]\nxp(i, 300)\nvar p = &s[i]\nok(%d, i, 300)\neq_uint64(%d, (p : uint64), (&gbig[0] : uint64) + u64of(i))' % (K(c), K(c)))
        if b == 16: p.fn(c, h + 'ghuge[0] = 1\nxp(i, 70000)\nvar p = &ghuge[i]\nok(%d, i, 70000)\neq_uint64(%d, (p : uint64), (&ghuge[0] : uint64) + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'var j : %s = %s\nvar m : int32[3][2] = [[1, 2, 3], [4, 5, 6]]\nxp(i, 2)\nvar row = m[i]\nok(%d, i, 2)\nxp(j, 3)\nvar r = m[i][j]\nok(%d, j, 3)\nvsym.check(%d, (r : uint64) == 1 + 3*u64of(i) + u64of(j))' % (t, I, K(c), K(c), K(c)))
        p.fn(c, h + 'var v : big[3]\nv[0].b = 5\nv[1].b = 6\nv[2].b = 7\nxp(i, 3)\nvar r = v[i].b\nok(%d, i, 3)\nvsym.check(%d, (r : uint64) == 5 + u64of(i))' % (K(c), K(c)))
        p.fn(c, h + 'var v : int32[5] = [0, 1, 2, 3, 4]\nxp(i, 5)\nif v[i] > 2\n\tok(%d, i, 5)\n\tvsym.check(%d, u64of(i) > 2)\nelse\n\tok(%d, i, 5)\n\tvsym.check(%d, u64of(i) <= 2)\n;;' % (K(c), K(c), K(c), K(c)))
        # 2: stores
        c = 2; p.titles[c] = 'index of type %s: store' % t
        for stm, exp in (('v[i] = 99', '99'), ('v[i] += 5', '5'), ('v[i]++', '1'), ('p = &v[i]\np# = 42', '42')):
            p.fn(c, h + 'var v : int32[5], a = 0, b = 0, p : int32#, k\nv = [0, 0, 0, 0, 0]\nxp(i, 5)\n%s\nok(%d, i, 5)\nfor k = 0; k < 5; k++\n\ta += v[k]\n\tif (k : uint64) == u64of(i)\n\t\tb = v[k]\n\t;;\n;;\nvsym.check(%d, a == %s)\nvsym.check(%d, b == %s)' % (stm, K(c), K(c), exp, K(c), exp))
        p.fn(c, h + 'var st : holder, n = vsym.range(0, 8)\nst.pre = 7\nst.post = 8\nst.s = gbuf[:n]\nxp(i, n)\nst.s[i] = 77\nok(%d, i, n)\nvsym.check(%d, st.pre == 7)\nvsym.check(%d, st.post == 8)\neq_int32(%d, gbuf[i], 77)' % (K(c), K(c), K(c), K(c)))
        # 3: slices
        c = 3; p.titles[c] = 'slice bounds of type %s' % t
        lh = 'var l : %s = %s\nvar h : %s = %s\n' % (t, I, t, I)
        chk = lambda n, lo, hi, base, sz=4: 'oks(%d, %s, %s, %s)\neq_uint64(%d, r.len, rlen(%s, %s))\neq_uint64(%d, ((r : %s#) : uint64), (%s : uint64) + %d*u64of(%s))' % (K(c), lo, hi, n, K(c), lo, hi, K(c), 'int32' if sz == 4 else 'byte', base, sz, lo)
        p.fn(c, lh + 'var v : int32[6]\nxs(l, h, 6)\nvar r = v[l:h]\n' + chk('6', 'l', 'h', '&v[0]'))
        p.fn(c, lh + 'var n = vsym.range(0, 6)\nvar s = gbuf[2:n+2]\nxs(l, h, n)\nvar r = s[l:h]\n' + chk('n', 'l', 'h', '&gbuf[2]'))
        p.fn(c, lh + 'var n = vsym.range(0, 6)\nvar s = gbuf[2:n+2]\nvar z : %s = (n : %s)\nxs(l, z, n)\nvar r = s[l:]\n' % (t, t) + chk('n', 'l', 'z', '&gbuf[2]'))
        p.fn(c, lh + 'var n = vsym.range(0, 6)\nvar s = gbuf[2:n+2]\nvar z : %s = 0\nxs(z, h, n)\nvar r = s[:h]\n' % t + chk('n', 'z', 'h', '&gbuf[2]'))
        p.fn(c, 'var n = vsym.range(0, 6)\nvar s = gbuf[2:n+2]\nvar r = s[:]\neq_uint64(%d, r.len, n)\nvsym.check(%d, (r : int32#) == &gbuf[2])\neq_uint64(%d, s.len, n)' % (K(c), K(c), K(c)))
        p.fn(c, lh + 'xs(l, h, 5)\nvar r = "hello"[l:h]\noks(%d, l, h, 5)\neq_uint64(%d, r.len, rlen(l, h))' % (K(c), K(c)))
        p.fn(c, lh + 'var st : holder\nvar q = &st\nxs(l, h, 5)\nvar r = q.v[l:h]\n' + chk('5', 'l', 'h', '&q.v[0]'))
        p.fn(c, lh + 'var s = gbuf[:7]\nxs(l, h, 7)\ns = s[l:h]\nvar r = s\n' + chk('7', 'l', 'h', '&gbuf[0]'))
        p.fn(c, lh + 'var s = gbuf[:7]\nvar z : %s = 3\nxs(l, z, 7)\nvar r = s[l:3]\n' % t + chk('7', 'l', 'z', '&gbuf[0]'))
        p.fn(c, lh + 'var s = gbuf[:7]\nvar z : %s = 3\nxs(z, h, 7)\nvar r = s[3:h]\n' % t + chk('7', 'z', 'h', '&gbuf[0]'))
        if b == 8: p.fn(c, lh + 'xs(l, h, 300)\nvar r = gbig[l:h]\n' + chk('300', 'l', 'h', '&gbig[0]', 1))
        # pointers have no length: no abort for 0 <= lo <= hi
        p.fn(c, 'var l : %s = (vsym.range(0, 100) : %s)\nvar h : %s = (vsym.range(0, 100) : %s)\nvar p = &gbuf[0]\nvsym.assume(l <= h)\nvar r = p[l:h]\n' % (t, t, t, t) + chk('1000', 'l', 'h', '&gbuf[0]'))
        p.register(ck, time=40, bound='every index value of the type; sequence lengths 0..8 (300 and 70000 where the index type is narrow)')
    consts(ck)
    # iteration and matching never read outside
    p = Prog('iter'); p.eq('uint64')
    p.titles[1] = 'for over a slice visits exactly its elements'
    p.fn(1, 'var v : int32[8] = [1, 2, 4, 8, 16, 32, 64, 128]\nvar l = vsym.pick(0, 8)\nvar h = vsym.pick(0, 8)\nif l > h\n\t-> void\n;;\nvar s = v[l:h]\nvar t = 0\nfor x : s\n\tt += x\n;;\neq_uint64(%d, (t : uint64), (1 << h) - (1 << l))' % p.id(1))
    p.register(ck)
    ck.programs = len(ck.hs)
def consts(ck):
    """constant and computed indexes and bounds, on every kind of sequence expression"""
    p = Prog('const'); p.eq('uint64'); p.eq('int32'); p.inp('int'); p.inp('uint64'); K = p.id; c = 1
    p.extern('xa', '(c : bool -> void)', 'void xa(u8 c){ vexpabort(c&1); }')
    p.extern('ok', '(id : int, c : bool -> void)', 'void ok(int id,u8 c){ vexpabort(0); vcheck(id,c&1); }')
    p.add('type hold = struct\n\tn : int32\n\ts : int32[:]\n\ta : int32[4]\n;;\nvar gb : int32[8] = [10, 11, 12, 13, 14, 15, 16, 17]\nvar gs : int32[:]\nvar cnt : int\nconst pass = {s : int32[:]\n\tcnt++\n\t-> s\n}\nconst tick = {i : uint64\n\tcnt++\n\t-> i\n}')
    pre = 'var n = vsym.range(0, 6)\ngb = [10, 11, 12, 13, 14, 15, 16, 17]\nvar s = gb[1:n+1]\nvar h : hold = [.s=s, .n=1, .a=[10, 11, 12, 13]]\nvar q = &h\nvar ps = &s\ngs = s\ncnt = 0\n'
    seqs = ['s', 'h.s', 'q.s', 'ps#', 'gs', 'pass(s)', 'gb[1:n+1]', 's[:]']
    p.titles[c] = 'constant and computed indexes of slices'
    for e in seqs:
        for k in (0, 1, 3, 5): p.fn(c, pre + 'xa(%d >= n)\nvar r = %s[%d]\nok(%d, %d < n)\neq_int32(%d, r, %d)' % (k, e, k, K(c), k, K(c), 11 + k))
        p.fn(c, pre + 'var i = vsym.range(0, 7)\nxa(i + 2 >= n)\nvar r = %s[i + 2]\nok(%d, i + 2 < n)\neq_int32(%d, r, (i : int32) + 13)' % (e, K(c), K(c)))
        p.fn(c, pre + 'var i = vsym.range(0, 7)\nxa(i >= n)\nvar r = %s[tick(i)]\nok(%d, i < n && cnt == %d)\neq_int32(%d, r, (i : int32) + 11)' % (e, K(c), 2 if 'pass' in e else 1, K(c)))
        if 'pass' not in e and ':' not in e:
            p.fn(c, pre + 'xa(2 >= n)\n%s[2] = 99\nok(%d, 2 < n)\neq_int32(%d, gb[3], 99)\neq_int32(%d, gb[2], 12)\neq_int32(%d, gb[4], 14)' % (e, K(c), K(c), K(c), K(c)))
            p.fn(c, pre + 'var i = vsym.range(0, 7)\nxa(i >= n)\n%s[tick(i)] += 5\nok(%d, i < n && cnt == 1)\neq_int32(%d, gb[i + 1], (i : int32) + 16)' % (e, K(c), K(c)))
            p.fn(c, pre + 'var i = vsym.range(0, 7)\nxa(i >= n)\nvar j = i\nvar r = %s[j++]\nok(%d, i < n && j == i + 1)\neq_int32(%d, r, (i : int32) + 11)' % (e, K(c), K(c)))
            p.fn(c, pre + 'var i = vsym.range(0, 7), w = 0\nxa(i >= n)\nif %s[i] == 13\n\tw = 1\n;;\nok(%d, i < n && (w == 1) == (i == 2))' % (e, K(c)))
            p.fn(c, pre + 'var i = vsym.range(0, 7), w = 0\nxa(n == 0)\nwhile w < 6 && %s[w] != 13\n\tif w == 2\n\t\tbreak\n\t;;\n\tw++\n\tif w >= n\n\t\tbreak\n\t;;\n;;\nok(%d, n != 0)' % (e, K(c)))
    c = 2; p.titles[c] = 'constant and computed slice bounds'
    for e in seqs:
        for lo, hi in [('', '0'), ('', '1'), ('', '4'), ('0', '3'), ('1', '1'), ('2', '5'), ('3', ''), ('1', ''), ('4', '2'), ('0', ''), ('i', '4'), ('2', 'i'), ('i + 1', ''), ('tick(i)', 'n'), ('n', 'n'), ('0', 'n'), ('i', 'i + 2')]:
            K = (lambda *a: p.xid()) if (lo, hi) == ('4', '2') else lambda *a: p.id(2)
            L = (lo or '0').replace('tick', ''); H = (hi or 'n').replace('tick', '')
            p.fn(c, pre + 'var i = vsym.range(0, 7)\nvar L : uint64 = %s\nvar H : uint64 = %s\nxa(L > H || H > n)\nvar r = %s[%s:%s]\nok(%d, L <= H && H <= n)\neq_uint64(%d, r.len, H - L)\neq_uint64(%d, ((r : int32#) : uint64), (&gb[1] : uint64) + 4*L)%s' % (L, H, e, lo, hi, K(c), K(c), K(c), '\nok(%d, cnt == %d)' % (K(c), 2 if 'pass' in e else 1) if 'tick' in lo else ''))
    K = p.id
    c = 3; p.titles[c] = 'constant and computed indexes and bounds of arrays'
    for e, b in (('gb', 8), ('h.a', 4), ('q.a', 4)):
        v0 = 10
        for k in (0, 1, b - 1): p.fn(c, pre + 'xa(false)\nvar r = %s[%d]\neq_int32(%d, r, %d)' % (e, k, K(c), v0 + k))
        for k in (b, b + 1, b + 100): p.fn(c, pre + 'xa(true)\nvar r = %s[%d]\nok(%d, false)' % (e, k, p.xid()))
        for lo, hi in [('', '2'), ('1', '3'), ('2', ''), ('', ''), ('0', str(b)), (str(b), ''), ('1', str(b + 1)), ('i', '3'), ('1', 'i'), ('3', '2'), ('i + 1', 'i + 3')]:
            p.fn(c, pre + 'var i = vsym.range(0, 9)\nvar L : uint64 = %s\nvar H : uint64 = %s\nxa(L > H || H > %d)\nvar r = %s[%s:%s]\nok(%d, L <= H && H <= %d)\neq_uint64(%d, r.len, H - L)\neq_uint64(%d, ((r : int32#) : uint64), (&%s : uint64) + 4*L)' % (lo or '0', hi or b, b, e, lo, hi, p.xid(), b, p.xid(), p.xid(), e))
        p.fn(c, pre + 'var i = vsym.range(0, 9), j = vsym.range(0, 9)\nvar m = %s[1:%d]\nxa(i > j || j > %d)\nvar t = m[i:j]\nok(%d, i <= j && j <= %d)\neq_uint64(%d, t.len, j - i)\neq_uint64(%d, ((t : int32#) : uint64), (&%s : uint64) + 4*(i + 1))' % (e, b, b - 1, K(c), b - 1, K(c), K(c), e))
    c = 4; p.titles[c] = 'indexes of indexes, nested sequences'
    p.fn(c, pre + 'var i = vsym.range(0, 9)\nvar v : byte[4] = [3, 9, 0, 2]\nvar m : int32[4][2] = [[10, 11, 12, 13], [20, 21, 22, 23]]\nxa(i >= 4 || i == 1)\nvar r = m[1][v[i]]\nok(%d, i < 4 && i != 1)\neq_int32(%d, r, 20 + (v[i] : int32))' % (K(c), K(c)))
    p.fn(c, pre + 'var i = vsym.range(0, 9), j = vsym.range(0, 9)\nvar m : int32[4][2] = [[10, 11, 12, 13], [20, 21, 22, 23]]\nxa(i >= 2)\nvar w = m[i][:]\nok(%d, i < 2)\nxa(j > 4)\nvar u = w[:j]\nok(%d, j <= 4)\neq_uint64(%d, u.len, j)\neq_uint64(%d, ((u : int32#) : uint64), (&m : uint64) + 16*i)' % tuple(K(c) for _ in range(4)))
    p.fn(c, pre + 'var t : int32[:][2]\nvar i = vsym.range(0, 3), j = vsym.range(0, 9)\nt[0] = s\nt[1] = gb[:3]\nxa(i >= 2 || (i == 0 && j >= n) || (i == 1 && j >= 3))\nvar r = t[i][j]\nok(%d, i < 2)\neq_int32(%d, r, (j : int32) + 11 - (i : int32))' % (K(c), K(c)))
    p.fn(c, pre + 'var i = vsym.range(0, 9), j = vsym.range(0, 9)\nxa(i >= n || j >= 8)\ns[i] = gb[j]\nok(%d, i < n && j < 8)\neq_int32(%d, gb[i + 1], (j : int32) + 10)' % (K(c), K(c)))
    p.register(ck, time=60, bound='slice lengths 0..6; indexes and bounds 0..9, constant or computed')
