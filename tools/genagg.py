"""Random aggregate types: literals with recorded members, and checks of them."""
from gen import *
SC = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'byte', 'bool', 'char']
# types: ('s', name) ('t', [types]) ('st', [types]) ('a', type, n) ('u', [types or None]) ('sl',)
def size(t):
    if t[0] == 's': return BITS[t[1]] // 8
    return 8
class G:
    def __init__(self, p): self.p = p; self.names = {}; self.n = 0; self.slot = 0
    def name(self, t):
        """the type as written in Myrddin; structs and unions are named"""
        if t[0] == 's': return t[1]
        if t[0] == 'sl': return 'int32[:]'
        if t[0] == 'p': return 'byte#'
        if t[0] == 't': return '(' + ', '.join(self.name(x) for x in t[1]) + ')'
        if t[0] == 'a': return '%s[%d]' % (self.name(t[1]), t[2])
        k = repr(t)
        if k not in self.names:
            self.n += 1; n = self.n; nm = '%s%s' % (t[0], n); self.names[k] = nm
            if t[0] == 'st': self.p.add('type %s = struct\n%s\n;;' % (nm, '\n'.join('\tm%d : %s' % (i, self.name(x)) for i, x in enumerate(t[1]))))
            else: self.p.add('type %s = union\n%s\n;;' % (nm, '\n'.join('\t`T%d_%d%s' % (n, i, ' ' + self.name(x) if x else '') for i, x in enumerate(t[1]))))
        return self.names[k]
    def tag(self, t, i): return '`T%s_%d' % (self.name(t)[1:], i)
    def lit(self, t, rnd, slots):
        """an expression for a fresh value; slots collects how to check it: a tree"""
        if t[0] == 's':
            self.slot += 1; slots.append(self.slot)
            f = 'mk_' + t[1]; c = CT[t[1]]; b = BITS[t[1]]
            self.p.extern(f, '(k : int -> %s)' % t[1], '%s %s(int k){ u64 v=%s; S[k]=v; return (%s)v; }' % (c, f, 'vu8()&1' if t[1] == 'bool' else '(u64)(%s)vu%d()' % (c, b), c))
            return '%s(%d)' % (f, self.slot)
        if t[0] == 'p':
            self.slot += 1; slots.append(self.slot); self.p.extern('mk_p', '(k : int -> byte#)', 'u8*mk_p(int k){ S[k]=vu64(); return (u8*)S[k]; }'); return 'mk_p(%d)' % self.slot
        if t[0] == 'sl':
            self.slot += 2; slots.append((self.slot - 1, self.slot))
            self.p.extern('mk_lo', '(k : int -> uint64)', 'u64 mk_lo(int k){ return S[k]=vrange(0,4); }'); self.p.extern('mk_hi', '(k : int -> uint64)', 'u64 mk_hi(int k){ return S[k]=vrange(4,8); }')
            return 'gbuf[mk_lo(%d):mk_hi(%d)]' % (self.slot - 1, self.slot)
        if t[0] == 't': return '(' + ', '.join(self.lit(x, rnd, slots) for x in t[1]) + (',)' if len(t[1]) == 1 else ')')
        if t[0] == 'a': return '[' + ', '.join(self.lit(t[1], rnd, slots) for _ in range(t[2])) + ']'
        if t[0] == 'st':
            o = list(range(len(t[1]))); rnd.shuffle(o); sub = {}; e = []
            for i in o: sub[i] = []; e.append('.m%d=%s' % (i, self.lit(t[1][i], rnd, sub[i])))
            for i in range(len(o)): slots.extend(sub[i])
            return '[' + ', '.join(e) + ']'
        i = rnd.randrange(len(t[1])); sub = []
        e = self.tag(t, i) + (' ' + self.lit(t[1][i], rnd, sub) if t[1][i] else '')
        slots.append(('u', i, sub)); return e
    def chk(self, t, e, slots, case, ids=None):
        """statements that check that e has the value recorded in slots (consumed)"""
        if t[0] == 's':
            f = 'ck_' + t[1]; self.p.extern(f, '(id : int, k : int, v : %s -> void)' % t[1], 'void %s(int id,int k,%s v){ vcheck(id,(u64)v==S[k]); }' % (f, CT[t[1]]))
            return ['%s(%d, %d, %s)' % (f, self.p.id(case), slots.pop(0), e)]
        if t[0] == 'p':
            self.p.extern('ck_p', '(id : int, k : int, v : byte# -> void)', 'void ck_p(int id,int k,u8*v){ vcheck(id,(u64)v==S[k]); }'); return ['ck_p(%d, %d, %s)' % (self.p.id(case), slots.pop(0), e)]
        if t[0] == 'sl':
            self.p.extern('ck_sl', '(id : int, a : int, b : int, n : uint64, p : int32#, q : int32# -> void)', 'void ck_sl(int id,int a,int b,u64 n,int*p,int*q){ vcheck(id,n==S[b]-S[a]&&p==q+S[a]); }')
            a, b = slots.pop(0); return ['ck_sl(%d, %d, %d, (%s.len : uint64), (%s : int32#), &gbuf[0])' % (self.p.id(case), a, b, e, e)]
        out = []
        if t[0] == 't':
            for i, x in enumerate(t[1]): out += self.chk(x, '%s.%d' % (e, i), slots, case)
        elif t[0] == 'a':
            for i in range(t[2]): out += self.chk(t[1], '%s[%d]' % (e, i), slots, case)
        elif t[0] == 'st':
            for i, x in enumerate(t[1]): out += self.chk(x, '%s.m%d' % (e, i), slots, case)
        else:
            _, i, sub = slots.pop(0); sub = list(sub); self.n += 1; v = 'cv%d' % self.n
            if t[1][i]:
                out = ['match %s' % e, '| %s %s:' % (self.tag(t, i), v)] + ['\t' + s for s in self.chk(t[1][i], v, sub, case)]
            else: out = ['match %s' % e, '| %s:' % self.tag(t, i), '\tvsym.check(%d, true)' % self.p.id(case)]
            if len(t[1]) > 1: out += ['| _:', '\tvsym.check(%d, false)' % self.p.xid()]
            out += [';;']
        return out
    def zero(self, t, e, case):
        if t[0] == 's': return ['vsym.check(%d, %s)' % (self.p.id(case), '!' + e if t[1] == 'bool' else '%s == %s' % (e, "'\\0'" if t[1] == 'char' else '0'))]
        if t[0] == 'p': return ['vsym.check(%d, %s == (0 : byte#))' % (self.p.id(case), e)]
        if t[0] == 'sl': return ['vsym.check(%d, %s.len == 0)' % (self.p.id(case), e)]
        if t[0] == 't': return sum((self.zero(x, '%s.%d' % (e, i), case) for i, x in enumerate(t[1])), [])
        if t[0] == 'st': return sum((self.zero(x, '%s.m%d' % (e, i), case) for i, x in enumerate(t[1])), [])
        if t[0] == 'a': return sum((self.zero(t[1], '%s[%d]' % (e, i), case) for i in range(t[2])), [])
        return []
def rtype(rnd, d, top=False):
    k = rnd.random()
    if d == 0 or (not top and k < 0.45): return ('s', rnd.choice(SC)) if rnd.random() < 0.85 else rnd.choice([('sl',), ('p',)])
    k = rnd.choice(['t', 'st', 'st', 'a', 'u'])
    if k == 'a': return ('a', rtype(rnd, d - 1), rnd.choice([1, 2, 3]))
    if k == 'u': return ('u', [None if rnd.random() < 0.3 else rtype(rnd, d - 1) for _ in range(rnd.randint(1, 3))])
    return (k, [rtype(rnd, d - 1) for _ in range(rnd.randint(1 if k == 'st' else 2, 4))])
S = lambda n: ('s', n)
FIXED = [
    ('st', [S('int8'), S('int64')]), ('st', [S('byte')]), ('st', [S('byte'), S('byte'), S('byte')]), ('st', [S('int16'), S('byte'), S('int32'), S('byte')]),
    ('st', [S('int64'), S('int64')]), ('st', [S('int64'), S('int64'), S('byte')]), ('st', [S('int64')] * 5), ('t', [S('byte'), S('int64')]), ('t', [S('int32'), S('int16'), S('byte'), S('byte')]),
    ('t', [S('bool'), S('char'), ('sl',)]), ('a', S('byte'), 1), ('a', S('byte'), 3), ('a', S('int16'), 5), ('a', S('int32'), 2), ('a', S('int64'), 3), ('a', S('byte'), 17), ('sl',), ('p',),
    ('u', [None, S('byte')]), ('u', [None, None]), ('u', [S('int64'), S('byte')]), ('u', [('sl',), None]), ('u', [('t', [S('byte'), S('int64')]), S('int32')]), ('u', [('st', [S('byte'), S('byte'), S('byte')])]),
    ('st', [('u', [None, S('int16')]), S('byte')]), ('a', ('u', [None, S('int64')]), 2), ('t', [('u', [S('byte'), None]), ('u', [S('byte'), None])]), ('u', [('u', [S('byte'), None]), S('byte')]),
    ('st', [('st', [S('byte'), S('int32')]), S('byte'), ('t', [S('byte'), S('int16')])]), ('a', ('a', S('byte'), 3), 2), ('a', ('st', [S('byte'), S('int16'), S('byte')]), 3), ('t', [('a', S('byte'), 3), S('byte')]),
    ('st', [S('uint16')] * 3), ('st', [S('int32')] * 3), ('st', [S('int32')] * 4), ('st', [('a', S('byte'), 9)]), ('st', [('a', S('byte'), 16)]), ('st', [('a', S('int64'), 20)]),
]
