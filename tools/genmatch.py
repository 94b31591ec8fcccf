"""Random match statements: types, patterns, an independent oracle (conditions over leaf variables), usefulness."""
from gen import *
IL = ['int', 'int8', 'uint8', 'byte', 'int16', 'uint16', 'uint32', 'int64', 'uint64', 'char', 'bool', 'int32']
class M:
    """type constructors as tuples: ('i',name) ('t',[..]) ('s',name,[(f,T)]) ('a',n,T) ('u',name,[(tag,T|None)]) ('p',T) ('str',)"""
    def __init__(self, rnd, pre): self.rnd = rnd; self.pre = pre; self.defs = []; self.n = 0
    def fresh(self, s='t'): self.n += 1; return '%s%s%d' % (self.pre, s, self.n)
    def ty(self, d, strs=True):
        r = self.rnd; k = r.random()
        if d == 0 or k < .25:
            if strs and r.random() < .15: return ('str',)
            return ('i', r.choice(IL))
        if k < .42: return ('t', [self.ty(d - 1, strs) for _ in range(r.choice([2, 2, 3]))])
        if k < .56:
            n = self.fresh(); fs = [('f%d' % i, self.ty(d - 1, strs)) for i in range(r.choice([1, 2, 3]))]
            self.defs.append('type %s = struct\n%s\n;;' % (n, '\n'.join('\t%s : %s' % (f, self.name(t)) for f, t in fs))); return ('s', n, fs)
        if k < .64: return ('a', r.choice([1, 2, 3]), self.ty(d - 1, strs))
        if k < .70: return ('p', self.ty(d - 1, strs))
        n = self.fresh('u'); cs = [('%sC%d' % (n.capitalize(), i), None if r.random() < .35 else self.ty(d - 1, strs)) for i in range(r.choice([1, 2, 3, 3, 5]))]
        self.defs.append('type %s = union\n%s\n;;' % (n, '\n'.join('\t`%s%s' % (c, '' if t is None else ' ' + self.name(t)) for c, t in cs))); return ('u', n, cs)
    def name(self, t):
        k = t[0]
        if k == 'i': return t[1]
        if k == 'str': return 'byte[:]'
        if k == 't': return '(' + ', '.join(self.name(x) for x in t[1]) + ')'
        if k in 'su': return t[1]
        if k == 'a': return '%s[%d]' % (self.name(t[2]), t[1])
        return self.name(t[1]) + '#'
    # leaves: every union payload has leaves of its own
    def layout(self, t, base=0):
        """-> (tree of leaf numbers, next)"""
        k = t[0]
        if k == 'i': return base, base + 1
        if k == 'str': return base, base + 4
        if k in ('t', 's', 'a'):
            ts = t[1] if k == 't' else [x for _, x in t[2]] if k == 's' else [t[2]] * t[1]; out = []
            for x in ts: l, base = self.layout(x, base); out.append(l)
            return out, base
        if k == 'p': return self.layout(t[1], base)
        out = [base]; base += 1
        for c, x in t[2]:
            if x is None: out.append(None)
            else: l, base = self.layout(x, base); out.append(l)
        return out, base
    def leaves(self, t, l):
        """constraints: list of (leaf, kind)"""
        k = t[0]
        if k == 'i': return [(l, t[1])]
        if k == 'str': return [(l, 'len')] + [(l + i, 'byte') for i in (1, 2, 3)]
        if k in ('t', 's', 'a'):
            ts = t[1] if k == 't' else [x for _, x in t[2]] if k == 's' else [t[2]] * t[1]; return [y for x, m in zip(ts, l) for y in self.leaves(x, m)]
        if k == 'p': return self.leaves(t[1], l)
        return [(l[0], len(t[2]))] + [y for (c, x), m in zip(t[2], l[1:]) if x is not None for y in self.leaves(x, m)]
    def build(self, t, l, out, L='L'):
        """statements building the value from leaves -> expression"""
        k = t[0]; v = 'v%d' % len(out)
        if k == 'i':
            e = '%s[%d] != 0' % (L, l) if t[1] == 'bool' else '(%s[%d] : %s)' % (L, l, t[1])
            out.append('var %s : %s = %s' % (v, t[1], e)); return v
        if k == 'str':
            out.append('var %s : byte[3] = [(%s[%d] : byte), (%s[%d] : byte), (%s[%d] : byte)]' % (v, L, l + 1, L, l + 2, L, l + 3)); return '%s[:%s[%d]]' % (v, L, l)
        if k == 't': es = [self.build(x, m, out, L) for x, m in zip(t[1], l)]; v = 'v%d' % len(out); out.append('var %s : %s = (%s)' % (v, self.name(t), ', '.join(es))); return v
        if k == 's': es = [self.build(x, m, out, L) for (f, x), m in zip(t[2], l)]; v = 'v%d' % len(out); out.append('var %s : %s = [%s]' % (v, t[1], ', '.join('.%s=%s' % (f, e) for (f, x), e in zip(t[2], es)))); return v
        if k == 'a': es = [self.build(t[2], m, out, L) for m in l]; v = 'v%d' % len(out); out.append('var %s : %s = [%s]' % (v, self.name(t), ', '.join(es))); return v
        if k == 'p':
            e = self.build(t[1], l, out, L); v = 'v%d' % len(out); out.append('var %s : %s = %s' % (v, self.name(t[1]), e)); return '&' + v
        es = [None if x is None else self.build(x, m, out, L) for (c, x), m in zip(t[2], l[1:])]; v = 'v%d' % len(out)
        s = 'var %s : %s' % (v, t[1])
        for i, ((c, x), e) in enumerate(zip(t[2], es)): s += '\n%s %s[%d] == %d\n\t%s = `%s%s' % ('elif' if i else 'if', L, l[0], i, v, c, '' if e is None else ' ' + (e if e.startswith('v') and '[' not in e else '(%s)' % e))
        out.append(s + '\n;;'); return v
    # checksums of captured values
    def sumfn(self, t, fns):
        k = t[0]; key = self.name(t)
        if key in fns: return fns[key][0]
        n = '%ssum%d' % (self.pre, len(fns)); fns[key] = (n, None)
        if k == 'i': b = '\tif x\n\t\t-> 1\n\t;;\n\t-> 0' if t[1] == 'bool' else '\t-> (x : uint64)'
        elif k == 'str': b = '\tvar s = x.len << 40\n\tfor var i = 0; i < x.len; i++\n\t\ts = (s << 13 | s >> 51) ^ (x[i] : uint64)\n\t;;\n\t-> s'
        elif k == 't': fs = [self.sumfn(x, fns) for x in t[1]]; b = '\tvar %s\n\t(%s) = x\n\tvar s = 7\n%s\n\t-> s' % (', '.join('q%d' % i for i in range(len(fs))), ', '.join('q%d' % i for i in range(len(fs))), '\n'.join('\ts = (s << 13 | s >> 51) ^ %s(q%d)' % (f, i) for i, f in enumerate(fs)))
        elif k == 's': b = '\tvar s = 7\n%s\n\t-> s' % '\n'.join('\ts = (s << 13 | s >> 51) ^ %s(x.%s)' % (self.sumfn(y, fns), f) for f, y in t[2])
        elif k == 'a': b = '\tvar s = 7\n%s\n\t-> s' % '\n'.join('\ts = (s << 13 | s >> 51) ^ %s(x[%d])' % (self.sumfn(t[2], fns), i) for i in range(t[1]))
        elif k == 'p': b = '\t-> %s(x#)' % self.sumfn(t[1], fns)
        else: b = '\tmatch x\n%s\n\t;;\n\t-> 0' % '\n'.join('\t| `%s%s: -> %d%s' % (c, '' if y is None else ' y', (i + 1) * 1000, '' if y is None else ' ^ (' + self.sumfn(y, fns) + '(y) << 11)') for i, (c, y) in enumerate(t[2]))
        fns[key] = (n, 'const %s = {x : %s -> uint64\n%s\n}' % (n, key, b)); return n
    def csum(self, t, l):
        k = t[0]
        if k == 'i': return '(u64)(L[%d]!=0)' % l if t[1] == 'bool' else '(u64)(%s)L[%d]' % (CT[t[1]], l)
        if k == 'str': return 'strsum(L+%d)' % l
        if k == 'p': return self.csum(t[1], l)
        if k in ('t', 's', 'a'):
            ts = t[1] if k == 't' else [x for _, x in t[2]] if k == 's' else [t[2]] * t[1]; s = '7ULL'
            for x, m in zip(ts, l): s = 'ROT(%s,%s)' % (s, self.csum(x, m))
            return s
        s = '0ULL'
        for i in reversed(range(len(t[2]))):
            c, y = t[2][i]; s = '(L[%d]==%d?%s:%s)' % (l[0], i, '%dULL' % ((i + 1) * 1000) if y is None else '(%dULL^(%s<<11))' % ((i + 1) * 1000, self.csum(y, l[i + 1])), s)
        return s
    # patterns
    def lit(self, t):
        r = self.rnd; n = t[1]
        if n == 'bool': return r.choice([0, 1])
        if n == 'char': return r.choice([0x61, 0x7a, 0x20ac, 0x1f600, 0x30])
        b, s = BITS[n], SGN[n]; c = [0, 1, 2, 3, 5, 2 ** (b - 1) - 1, 100]
        c += [-1, -5, -(2 ** (b - 1)) + 1] if s else [2 ** b - 1, 2 ** (b - 1)]
        return r.choice(c)
    def pat(self, t, d, cap=True, path=()):
        r = self.rnd; k = t[0]; x = r.random()
        if d == 0 or x < .22: return ('_',)
        if x < .36 and cap: return ('v', None, t)
        if x < .47 and d > 0: return ('or', [self.pat(t, max(d - 1, 1), False) for _ in range(r.choice([2, 2, 3]))])
        if k == 'i': return ('l', self.lit(t), r.random() < .15)
        if k == 'str': return ('str', bytes(r.choice([97, 98, 0xc3]) if r.random() < .9 else 0 for _ in range(r.choice([0, 1, 2, 2, 3]))))
        if k == 't': return ('c', [self.pat(y, d - 1, cap) for y in t[1]])
        if k == 's': return ('c', [self.pat(y, d - 1, cap) if r.random() < .8 else ('omit',) for f, y in t[2]])
        if k == 'a': return ('c', [self.pat(t[2], d - 1, cap) for _ in range(t[1])])
        if k == 'p': return ('p', self.pat(t[1], d, cap))
        i = r.randrange(len(t[2])); y = t[2][i][1]; return ('u', i, None if y is None else self.pat(y, d - 1, cap))
    def litsrc(self, v, t):
        if t[1] == 'bool': return 'true' if v else 'false'
        if t[1] == 'char': return {0x61: "'a'", 0x7a: "'z'", 0x30: "'0'"}.get(v) or "'\\u{%x}'" % v
        return '%d' % v if v >= 0 else '-%d' % -v
    def src(self, p, t, caps, consts):
        k = p[0]; tk = t[0]
        if k == '_' or k == 'omit': return '_'
        if k == 'v': n = 'x%d' % len(caps); caps.append((n, t)); return n
        if k == 'l':
            s = self.litsrc(p[1], t)
            if p[2]: n = self.fresh('k'); consts.append('const %s : %s = %s' % (n, t[1], s)); return n
            return s
        if k == 'str': return '"' + ''.join('\\x%02x' % c for c in p[1]) + '"'
        if k == 'or': return '(' + ' || '.join(self.src(q, t, caps, consts) for q in p[1]) + ')'
        if k == 'p': return '&' + (lambda s: s if s[0] in '([' or s.isalnum() else '(%s)' % s)(self.src(p[1], t[1], caps, consts))
        if k == 'u':
            c, y = t[2][p[1]]
            if y is None: return '`' + c
            s = self.src(p[2], y, caps, consts); return '`%s %s' % (c, s if s[0] in '([' or s.isalnum() or s == '_' else '(%s)' % s)
        if tk == 't': return '(' + ', '.join(self.src(q, y, caps, consts) for q, y in zip(p[1], t[1])) + ')'
        if tk == 's':
            fs = [(f, q, y) for q, (f, y) in zip(p[1], t[2]) if q[0] != 'omit']
            if not fs: return '_'
            return '[' + ', '.join('.%s=%s' % (f, self.src(q, y, caps, consts)) for f, q, y in fs) + ']'
        return '[' + ', '.join(self.src(q, t[2], caps, consts) for q in p[1]) + ']'
    def sub(self, t):
        k = t[0]; return t[1] if k == 't' else [x for _, x in t[2]] if k == 's' else [t[2]] * t[1]
    def cond(self, p, t, l):
        """list of atoms ('=',leaf,value,kind) in and/or tree"""
        k = p[0]
        if k in ('_', 'v', 'omit'): return ('and', [])
        if k == 'l': return ('=', l, p[1], t[1])
        if k == 'str': return ('and', [('=', l, len(p[1]), 'len')] + [('=', l + 1 + i, c, 'byte') for i, c in enumerate(p[1])])
        if k == 'or': return ('or', [self.cond(q, t, l) for q in p[1]])
        if k == 'p': return self.cond(p[1], t[1], l)
        if k == 'u': y = t[2][p[1]][1]; return ('and', [('=', l[0], p[1], 'tag')] + ([] if y is None else [self.cond(p[2], y, l[p[1] + 1])]))
        return ('and', [self.cond(q, y, m) for q, y, m in zip(p[1], self.sub(t), l)])
    def ccond(self, c):
        if c[0] == '=': return '(L[%d]%s)' % (c[1], '!=0' if c[3] == 'bool' and c[2] else '==0' if c[3] == 'bool' else '==%dULL' % (c[2] & (2 ** 64 - 1)) if c[3] in ('tag', 'len') else '==(u64)(%s)%dULL' % (CT[c[3]], c[2] & (2 ** 64 - 1)))
        if not c[1]: return '1' if c[0] == 'and' else '0'
        return '(' + ('&&' if c[0] == 'and' else '||').join(self.ccond(x) for x in c[1]) + ')'
    def smt(self, c):
        if c[0] == '=': return '(= L%d %s)' % (c[1], c[2] if c[2] >= 0 else '(- %d)' % -c[2])
        if not c[1]: return 'true' if c[0] == 'and' else 'false'
        return '(%s %s)' % (c[0], ' '.join(self.smt(x) for x in c[1]))
    def smtdecl(self, t, l):
        o = ''
        for n, k in self.leaves(t, l):
            lo, hi = (0, 3) if k == 'len' else (0, k - 1) if isinstance(k, int) else (0, 1) if k == 'bool' else (-(2 ** (BITS[k] - 1)), 2 ** (BITS[k] - 1) - 1) if SGN[k] else (0, 2 ** BITS[k] - 1)
            o += '(declare-const L%d Int)(assert (<= %s L%d %d))\n' % (n, lo if lo >= 0 else '(- %d)' % -lo, n, hi)
        return o
    def caps(self, p, t, l, out):
        k = p[0]
        if k == 'v': out.append((t, l))
        elif k == 'p': self.caps(p[1], t[1], l, out)
        elif k == 'u' and p[2] is not None: self.caps(p[2], t[2][p[1]][1], l[p[1] + 1], out)
        elif k == 'c':
            for q, y, m in zip(p[1], self.sub(t), l): self.caps(q, y, m, out)
        return out
    # rows: or-patterns expanded, as the compiler counts them
    def rows(self, p):
        k = p[0]
        if k == 'or': return [r for q in p[1] for r in self.rows(q)]
        if k == 'p': return [('p', r) for r in self.rows(p[1])]
        if k == 'u': return [('u', p[1], r) for r in self.rows(p[2])] if p[2] is not None else [p]
        if k == 'c':
            out = [[]]
            for q in p[1]: out = [o + [r] for o in out for r in self.rows(q)]
            return [('c', o) for o in out]
        return [p]
class Z3:
    def __init__(self):
        import subprocess
        self.p = subprocess.Popen(['z3', '-in', '-t:20000'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True); self.n = 0
    def sat(self, decl, f):
        self.p.stdin.write('(push)\n%s(assert %s)\n(check-sat)\n(pop)\n' % (decl, f)); self.p.stdin.flush(); self.n += 1
        r = self.p.stdout.readline().strip()
        if r not in ('sat', 'unsat'): raise RuntimeError('z3: ' + r)
        return r == 'sat'
    def close(self): self.p.stdin.close(); self.p.wait()
