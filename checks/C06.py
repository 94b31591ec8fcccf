"""match runs the first arm whose pattern matches and binds its variables to the matched parts."""
from genmatch import *
LIBS = []
STRSUM = 'static u64 ROT(u64 s,u64 x){ return (s<<13|s>>51)^x; }\nstatic u64 strsum(u64*L){ u64 s=L[0]<<40; for(u64 i=0;i<3;i++) if(i<L[0]) s=ROT(s,(u8)L[1+i]); return s; }'
def fill(g, p, t, l, n, name):
    """C function that fills the leaves"""
    s = ''
    for i, k in g.leaves(t, l):
        if k == 'len': s += 'L[%d]=vpick(0,3);' % i
        elif isinstance(k, int): s += 'L[%d]=%s;' % (i, 'vrange(0,%d)' % (k - 1) if k > 1 else '0')
        elif k == 'bool': s += 'L[%d]=vu8()&1;' % i
        else: s += 'L[%d]=(u64)(%s)vu%d();' % (i, CT[k], BITS[k])
    p.extern(name, '(l : uint64# -> void)', 'void %s(u64*L){ %s }' % (name, s))
def arms(rnd, g, z, t, l, decl, depth, narm):
    """-> list of (pattern, rows): every row useful, the set exhaustive"""
    out = []; prev = 'false'
    def useful(rows):
        nonlocal prev
        acc = prev
        for r in rows:
            c = g.smt(g.cond(r, t, l))
            if not z.sat(decl, '(and %s (not %s))' % (c, acc)): return False
            acc = '(or %s %s)' % (acc, c)
        prev = acc; return True
    for _ in range(narm):
        pt = g.pat(t, depth); rows = g.rows(pt)
        if len(rows) > 12: continue
        if useful(rows): out.append((pt, rows))
        if not z.sat(decl, '(not %s)' % prev): return out
    if z.sat(decl, '(not %s)' % prev): out.append((('_',), [('_',)]))
    return out
def one(rnd, p, g, z, case, depth, ctx):
    t = g.ty(depth); l, n = g.layout(t)
    while n > 14 or n < 1: t = g.ty(depth); l, n = g.layout(t)
    decl = g.smtdecl(t, l).replace('(assert (<= 0 L%s 3))' % 'x', '')
    for i, k in g.leaves(t, l):
        if k == 'len': decl = decl.replace('(assert (<= 0 L%d 3))' % i, '(assert (<= 0 L%d 18446744073709551615))' % i)
    as_ = arms(rnd, g, z, t, l, decl, depth + 1, rnd.choice([3, 4, 5, 6, 8]))
    if len(as_) < 2: return False
    fn = g.fresh('fill'); fill(g, p, t, l, n, fn); fns = g.fns; bodies = []; consts = []; rcond = []
    for i, (pt, rows) in enumerate(as_):
        caps = []; s = g.src(pt, t, caps, consts); cl = [g.caps(r, t, l, []) for r in rows]
        b = 'r = %d' % i
        for n2, ct in caps: b += '\n\t\ts = (s << 13 | s >> 51) ^ %s(%s)' % (g.sumfn(ct, fns), n2)
        bodies.append('\t| %s:\n\t\t%s' % (s, b))
        for r, c in zip(rows, cl):
            e = '1ULL'
            for ct, cll in c: e = 'ROT(%s,%s)' % (e, g.csum(ct, cll))
            rcond.append((g.ccond(g.cond(r, t, l)), i, e))
    rf = g.fresh('ref'); p.cdef(STRSUM)
    p.extern(rf, '(l : uint64#, s : uint64# -> int)', 'int %s(u64*L,u64*s){ %s *s=0; return -1; }' % (rf, ' '.join('if(%s){ *s=%s; return %d; }' % (c, e, i) for c, i, e in rcond)))
    for d in consts: p.add(d)
    for nm, f in list(fns.values()): p.add(f)
    out = []; e = g.build(t, l, out); pre = 'var L : uint64[%d]\n%s(&L[0])\n' % (max(n, 1), fn) + '\n'.join(out); T = g.name(t); i1, i2 = p.id(case), p.id(case)
    post = '\nvar w\neq_int(%d, r, %s(&L[0], &w))\neq_uint64(%d, s, w)' % (i1, rf, i2); m = '\n'.join(bodies) + '\n;;'
    if ctx == 0: body = '%s\nvar x : %s = %s\nvar r = -1, s = 1\nmatch x\n%s%s' % (pre, T, e, m, post)
    elif ctx == 1: body = '%s\nvar r = -1, s = 1\nvar b : %s = %s\nvar q = &b\nmatch q#\n%s%s' % (pre, T, e, m, post)
    elif ctx == 2:
        f = g.fresh('f'); p.add('const %s = {x : %s, s0 : uint64# -> int\n\tvar r = -1, s = 1\n\tmatch x\n%s\n\ts0# = s\n\t-> r\n}' % (f, T, '\n'.join('\t' + y for y in m.split('\n'))))
        body = '%s\nvar s = 1, b : %s = %s\nvar r = %s(b, &s)%s' % (pre, T, e, f, post)
    elif ctx == 3:
        f = g.fresh('id'); p.add('const %s = {x : %s -> %s\n\t-> x\n}' % (f, T, T)); body = '%s\nvar r = -1, s = 1, b : %s = %s\nmatch %s(b)\n%s%s' % (pre, T, e, f, m, post)
    else: body = '%s\nvar r = -1, s = 1, a : %s[2]\na[1] = %s\nfor var i = 1; i < 2; i++\nmatch a[i]\n%s\n;;%s' % (pre, T, e, m, post)
    p.fn(case, body); p.titles[case] = 'match on %s with %d arms' % (T if len(T) < 80 else 'a nested type', len(as_)); return True
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    nprog = 60 if ck.thorough() else 20; rnd = random.Random(600 + ck.seed); z = Z3()
    for b in range(nprog):
        p = Prog('m_%d' % b); p.eq('int'); p.eq('uint64'); g = M(rnd, 'z'); g.fns = {}; case = 0
        while case < 8:
            k = len(g.defs)
            if one(rnd, p, g, z, case + 1, rnd.choice([1, 2, 2, 3]), rnd.randrange(5)): case += 1
        p.top[0:0] = g.defs
        p.register(ck, time=60, bound='every value of the matched type (all union tags, strings up to 3 bytes)', opts=['--maxpaths', '30000'])
    z.close()
    fixed(ck); ck.programs = len(ck.hs)
def fixed(ck):
    p = Prog('fixed'); p.eq('int'); p.eq('uint64')
    p.cdef('static u64 in(int b){ return b==8?vu8():vu64(); }')
    p.extern('b8', '(-> byte)', 'u8 b8(void){ return vu8(); }'); p.extern('b32', '(-> int)', 'int b32(void){ return vu32(); }'); p.inp('bool')
    c = 1; p.titles[c] = 'side effects of the matched expression happen once, before any arm'
    p.add('var cnt : int = 0\nconst bump = {x : byte -> byte\n\tcnt++\n\t-> x\n}')
    p.extern('r1', '(a : byte -> int)', 'int r1(u8 a){ return a==1?10:a==2||a==3?20:a==200?30:40; }')
    p.fn(c, 'cnt = 0\nvar a = b8(), r = 0\nmatch bump(a)\n| 1: r = 10\n| 2 || 3: r = 20\n| 200: r = 30\n| _: r = 40\n;;\neq_int(%d, r, r1(a))\neq_int(%d, cnt, 1)' % (p.id(c), p.id(c)))
    c = 2; p.titles[c] = 'an arm binds copies: assigning to them or to the value does not interfere'
    p.fn(c, 'var a = b32(), b = b32()\nvar t = (a, b)\nmatch t\n| (x, y):\n\tt = (1, 2)\n\teq_int(%d, x, a)\n\teq_int(%d, y, b)\n\tx = 9\n\tvar u, v\n\t(u, v) = t\n\teq_int(%d, u, 1)\n\teq_int(%d, v, 2)\n;;' % tuple(p.id(c) for _ in range(4)))
    c = 3; p.titles[c] = 'destructuring assignment and for patterns'
    p.extern('r3', '(v : int#, n : uint64 -> int)', 'int r3(int*v,u64 n){ u64 i; unsigned s=0; for(i=0;i<n;i++) if(v[2*i]==7) s=s*3+v[2*i+1]; return s; }')
    p.fn(c, 'var a : (int, int)[3], raw : int[6]\nfor var i = 0; i < 3; i++\n\traw[2*i] = b32()\n\traw[2*i+1] = b32()\n\ta[i] = (raw[2*i], raw[2*i+1])\n;;\nvar s = 0\nfor (7, y) : a[:]\n\ts = s*3 + y\n;;\neq_int(%d, s, r3(&raw[0], 3))\nvar p, q\n(p, q) = a[1]\neq_int(%d, p, raw[2])\neq_int(%d, q, raw[3])\n(p, _) = a[2]\neq_int(%d, p, raw[4])\n(p, q) = (q, p)\neq_int(%d, q, raw[4])\neq_int(%d, p, raw[3])' % tuple(p.id(c) for _ in range(6)))
    c = 4; p.titles[c] = 'matching a large string table'
    words = ['if', 'elif', 'else', 'for', 'while', 'match', 'goto', 'var', 'const', 'generic', 'a', 'ab', 'abc', '']
    p.extern('r4', '(s : byte#, n : uint64 -> int)', 'int r4(u8*s,u64 n){ static const char*w[]={%s}; for(int i=0;i<%d;i++){ u64 k=0; while(w[i][k])k++; if(k!=n) continue; u64 j; for(j=0;j<n&&s[j]==(u8)w[i][j];j++); if(j==n) return i; } return -1; }' % (','.join('"%s"' % w for w in words), len(words)))
    p.fn(c, 'var buf : byte[7], r, n = vsym.pick(0, 7)\nfor var i = 0; i < 7; i++\n\tbuf[i] = b8()\n;;\nmatch buf[:n]\n%s\n| _: r = -1\n;;\neq_int(%d, r, r4(&buf[0], n))' % ('\n'.join('| "%s": r = %d' % (w, i) for i, w in enumerate(words)), p.id(c)))
    c = 5; p.titles[c] = 'large unions and wide integer tables'
    p.add('type big = union\n%s\n;;' % '\n'.join('\t`T%d%s' % (i, ' int' if i % 3 == 0 else '') for i in range(40)))
    p.extern('tagv', '(-> int)', 'int tagv(void){ return vrange(0,39); }'); p.extern('r5', '(t : int, a : int -> int)', 'int r5(int t,int a){ if(t%3==0) return t==9&&a==5?777:t*2+(a==t); return t>30?1:t; }')
    p.fn(c, 'var t = tagv(), a = b32(), u : big, r\n' + '\n'.join('%s t == %d\n\tu = `T%d%s' % ('elif' if i else 'if', i, i, ' a' if i % 3 == 0 else '') for i in range(40)) + '\n;;\nmatch u\n| `T9 5: r = 777\n' + '\n'.join('| `T%d %d: r = %d\n| `T%d _: r = %d' % (i, i, 2 * i + 1, i, 2 * i) if i % 3 == 0 else '| `T%d: r = %d' % (i, 1 if i > 30 else i) for i in range(40)) + '\n;;\neq_int(%d, r, r5(t, a))' % p.id(c))
    c = 6; p.titles[c] = 'long strings, with equal prefixes and every byte value'
    ls = ['a' * 31, 'a' * 30 + 'b', 'a' * 15 + 'b' + 'a' * 15, 'b' + 'a' * 30, 'a' * 40, '\x80' + 'a' * 30, 'a' * 29 + '\xff\x00']
    lit = lambda w: ''.join('\\x%02x' % ord(x) for x in w)
    p.extern('big', '(b : byte# -> void)', 'void big(u8*b){ for(int i=0;i<48;i++) b[i]=vu8(); }')
    p.extern('r6', '(s : byte#, n : uint64 -> int)', 'int r6(u8*s,u64 n){ static const char*w[]={%s}; static const int L[]={%s}; for(int i=0;i<%d;i++){ if(L[i]!=n) continue; int ok=1; for(u64 j=0;j<n;j++) ok&=s[j]==(u8)w[i][j]; if(ok) return i; } return -1; }' % (','.join('"%s"' % lit(w) for w in ls), ','.join(str(len(w)) for w in ls), len(ls)))
    p.fn(c, 'var buf : byte[48], r, n = vsym.pick(29, 41)\nbig(&buf[0])\nmatch buf[:n]\n%s\n| _: r = -1\n;;\neq_int(%d, r, r6(&buf[0], n))' % ('\n'.join('| "%s": r = %d' % (lit(w), i) for i, w in enumerate(ls)), p.id(c)))
    c = 7; p.titles[c] = 'wide tables of bytes, characters and strings in tuples'
    p.extern('r7', '(a : byte -> int)', 'int r7(u8 a){ return a%7; }'); p.extern('chr', '(-> char)', 'unsigned chr(void){ return vu32(); }')
    p.fn(c, 'var a = b8(), r\nmatch a\n%s\n;;\neq_int(%d, r, r7(a))' % ('\n'.join('| %d: r = %d' % (i, i % 7) for i in range(256)), p.id(c)))
    p.extern('r8', '(a : char, n : uint64, s : byte# -> int)', 'int r8(unsigned a,u64 n,u8*s){ int ab=n==2&&s[0]==97&&s[1]==98, e=n==0; if(a>=65&&a<91&&ab) return a; if(a==97&&e) return 1; if((a==0x10fffe||a==0x3b1)&&!ab) return 2; if(a==65) return 3; return ab?4:5; }')
    p.fn(c, 'var a = chr(), buf : byte[3], r, n = vsym.pick(0, 3)\nfor var i = 0; i < 3; i++\n\tbuf[i] = b8()\n;;\nvar t = (a, buf[:n])\nvar ab = n == 2 && buf[0] == 97 && buf[1] == 98\nmatch t\n%s\n| (\'a\', ""): r = 1\n| (\'\\u{3b1}\', "ab"): r = 4\n| (\'\\u{10fffe}\', "ab"): r = 4\n| (\'\\u{3b1}\' || \'\\u{10fffe}\', _): r = 2\n| (\'A\', _): r = 3\n| (_, "ab"): r = 4\n| _: r = 5\n;;\neq_int(%d, r, r8(a, n, &buf[0]))' % ('\n'.join("| ('%c', \"ab\"): r = %d" % (i, i) for i in range(65, 91)), p.id(c)))
    p.register(ck, time=60, bound='all inputs')
