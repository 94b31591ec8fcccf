"""Random structured programs: the same statements in Myrddin and in C, with every evaluation spelled out in the C."""
import random
PREC = {'<<': 9, '>>': 9, '*': 8, '/': 8, '%': 8, '+': 7, '-': 7, '&': 6, '|': 5, '^': 5, '==': 4, '!=': 4, '<': 4, '<=': 4, '>': 4, '>=': 4, '&&': 3, '||': 2}
class CF:
    def __init__(self, rnd, tag, helpers=()):
        self.r = rnd; self.tag = tag; self.n = 0; self.fresh = 0; self.helpers = list(helpers); self.incs = []
    def name(self, p='v'): self.fresh += 1; return '%s_%d' % (p, self.fresh)
    # expressions: tuples ('v', name) ('k', n) ('b', op, l, r) ('u', op, e) ('t', c, a, b) ('call', f, args) ('idx', arr, e) ('m', s, f) ('inc', name, op)
    def ex(self, d, sc):
        r = self.r; k = r.random()
        if d <= 0 or k < .2:
            k = r.random()
            if k < .45: return ('v', r.choice(sc['ints']))
            if k < .6: return ('v', r.choice(sc['ins']))
            if k < .7 and sc['arrs']: return ('idx', r.choice(sc['arrs']), self.index(sc))
            if k < .8 and sc['sts']: return ('m', r.choice(sc['sts']), r.choice('abc'))
            return ('k', r.choice([0, 1, 2, 3, 7, 10, 100, 255, 4096, 0x12345678, 0x7fffffffffffffff]))
        if k < .35: return ('call', 'tr', [('k', self.tid()), self.ex(d - 1, sc)])
        if k < .4 and self.helpers: f = r.choice(self.helpers); return ('call', f[0], [self.ex(d - 2, sc) for _ in range(f[1])])
        if k < .45: return ('u', r.choice(['-', '~']), self.ex(d - 1, sc))
        if k < .5: return ('cast', self.bx(d - 1, sc, False))
        if k < .55: return ('b', r.choice(['<<', '>>']), self.ex(d - 1, sc), ('k', r.randint(0, 9)))
        if k < .62: return ('b', '*', ('v', r.choice(sc['ctrs'])) if sc['ctrs'] else ('k', 3), ('k', r.choice([1, 3, 5, 10])))
        return ('b', r.choice(['+', '-', '&', '|', '^', '+', '-']), self.ex(d - 1, sc), self.ex(d - 1, sc))
    def index(self, sc): return ('b', '&', ('v', self.r.choice(sc['ctrs'])), ('k', 3)) if sc['ctrs'] and self.r.random() < .6 else ('k', self.r.randint(0, 3))
    def tid(self): self.n += 1; return self.n
    def top(self, d, sc):   # where a ternary may stand
        if self.r.random() < .15: return ('t', self.bx(2, sc), self.ex(d - 1, sc), self.ex(d - 1, sc))
        return self.ex(d, sc)
    def cmp(self, sc):
        """conditions mostly on inputs and counters, so that paths stay few"""
        r = self.r; k = r.random(); x = ('v', r.choice(sc['ins']))
        if k < .35 and sc['ctrs']:
            a = ('v', r.choice(sc['ctrs'])); return ('b', r.choice(['==', '!=', '<', '<=', '>', '>=']), a, ('k', r.randint(0, 3)) if r.random() < .5 else ('b', '&', x, ('k', 3)))
        if k < .55: return ('b', r.choice(['<', '<=', '>', '>=', '==']), x, ('k', r.choice([0, 1, 5, 100])))
        if k < .75: return ('b', r.choice(['==', '!=']), ('b', '&', x, ('k', r.choice([1, 2, 3]))), ('k', r.choice([0, 1, 2])))
        if k < .82: return ('b', '==', ('call', 'tr', [('k', self.tid()), ('b', '&', x, ('k', 1))]), ('k', 1))
        if k < .9 and sc['bools']: return ('v', r.choice(sc['bools']))
        return ('b', r.choice(['<', '==']), x, ('v', r.choice([i for i in sc['ins']])))
    def bx(self, d, sc, top=True):
        r = self.r; k = r.random()
        if d <= 0 or k < .5: return self.cmp(sc)
        if k < .6: return ('u', '!', self.bx(d - 1, sc))
        if k < .65: return ('b', r.choice(['==', '!=']), self.bx(d - 1, sc), ('bk', r.random() < .5))
        return ('b', r.choice(['&&', '||']), self.bx(d - 1, sc), self.bx(d - 1, sc))
    # Myrddin text with as few parentheses as the documented precedence allows
    def m(self, e, p=0):
        k = e[0]
        if k == 'v': return e[1]
        if k == 'k': return str(e[1])
        if k == 'bk': return 'true' if e[1] else 'false'
        if k == 'b':
            q = PREC[e[1]]; s = '%s %s %s' % (self.m(e[2], q), e[1], self.m(e[3], q + 1)); return '(%s)' % s if q < p else s
        if k == 'u':
            s = self.m(e[2], 10); return e[1] + ('(%s)' % s if s[0] == '-' else s)
        if k == 't': return '%s ? %s : %s' % (self.m(e[1], 1), self.m(e[2], 1), self.m(e[3], 1))
        if k == 'call': return '%s(%s)' % (e[1], ', '.join(self.m(a) for a in e[2]))
        if k == 'cast': return 'b2i(%s)' % self.m(e[1])
        if k == 'idx': return '%s[%s]' % (e[1], self.m(e[2]))
        if k == 'm': return '%s.%s' % (e[1], e[2])
        if k == 'inc': return e[1] + e[2]
        raise Exception(k)
    # C: statements that evaluate e in order; returns the name (or literal) with its value
    def c(self, e, o, incs=None):
        k = e[0]
        if k == 'v': return e[1]
        if k == 'k': return '%dLL' % e[1]
        if k == 'bk': return '%d' % e[1]
        if k == 'm': return '%s.%s' % (e[1], e[2])
        if k == 'inc': incs.append((e[1], e[2])); return e[1]
        t = self.name('t')
        if k == 'b' and e[1] in ('&&', '||'):
            a = self.c(e[2], o, incs); o.append('u8 %s=%s; if (%s%s) {' % (t, a, '' if e[1] == '&&' else '!', t)); b = self.c(e[3], o, incs); o.append('%s=%s; }' % (t, b)); return t
        if k == 'b':
            a = self.c(e[2], o, incs); b = self.c(e[3], o, incs); q = e[1]
            if q in ('==', '!=', '<', '<=', '>', '>='): o.append('u8 %s=%s %s %s;' % (t, a, q, b))
            elif q in ('/', '%', '>>'): o.append('i64 %s=(i64)(%s) %s (%s);' % (t, a, q, b))
            else: o.append('i64 %s=(i64)((u64)(%s) %s (u64)(%s));' % (t, a, q, b))
            return t
        if k == 'u':
            a = self.c(e[2], o, incs); o.append('u8 %s=!(%s);' % (t, a) if e[1] == '!' else 'i64 %s=(i64)(%s(u64)(%s));' % (t, e[1], a)); return t
        if k == 't':
            a = self.c(e[1], o, incs); o.append('i64 %s; if (%s) {' % (t, a)); b = self.c(e[2], o, incs); o.append('%s=%s; } else {' % (t, b)); b = self.c(e[3], o, incs); o.append('%s=%s; }' % (t, b)); return t
        if k == 'call':
            a = [self.c(x, o, incs) for x in e[2]]; o.append('i64 %s=r_%s(%s);' % (t, e[1] if e[1] in ('tr',) else e[1], ','.join(a))); return t
        if k == 'cast': a = self.c(e[1], o, incs); o.append('i64 %s=(i64)(%s);' % (t, a)); return t
        if k == 'idx': a = self.c(e[2], o, incs); o.append('i64 %s=%s[%s];' % (t, e[1], a)); return t
        raise Exception(k)
    # statements: append to M (Myrddin lines) and C (C lines)
    def block(self, d, sc, M, C, ind, loop, n=None):
        sc = {k: list(v or []) for k, v in sc.items()}; sc['decl'] = []
        for _ in range(n or self.r.randint(1, 3)): self.stmt(d, sc, M, C, ind, loop); sc['decl'] = None
    def asg(self, sc, M, C, ind):
        r = self.r; k = r.random(); T = '\t' * ind; op = r.choice(['=', '=', '=', '+=', '-=', '|=', '&=', '^='])
        incs = []; o = []
        e = self.ex(3, sc) if op != '=' else self.top(3, sc)
        if k < .55 or not sc['arrs']: l = ('v', r.choice(sc['ints']))
        elif k < .8: l = ('idx', r.choice(sc['arrs']), self.index(sc))
        else: l = ('m', r.choice(sc['sts']), r.choice('abc'))
        # increments due after the statement: of a variable that is not assigned by it
        free = [v for v in sc['ints'] if v != l[1]]
        if r.random() < .12 and free and op == '=' and e[0] != 't':
            e = ('b', r.choice('+-'), e, ('inc', r.choice(free), r.choice(['++', '--'])))
            if r.random() < .3: e = ('b', '+', e, ('inc', e[3][1], r.choice(['++', '--'])))
        M.append('%s%s %s %s' % (T, self.m(l), op, self.m(e)))
        if l[0] == 'idx': i = self.c(l[2], o); L = '%s[%s]' % (l[1], i)
        else: L = self.m(l)
        v = self.c(e, o, incs)
        o.append('%s=%s;' % (L, v) if op == '=' else '%s=(i64)((u64)%s%s(u64)(%s));' % (L, L, op[:-1], v))
        C.append('{' + ' '.join(o) + ''.join('%s=(i64)((u64)%s%s1);' % (x, x, y[0]) for x, y in incs) + '}')
    def stmt(self, d, sc, M, C, ind, loop):
        r = self.r; k = r.random(); T = '\t' * ind
        if d <= 0 or k < .3: return self.asg(sc, M, C, ind)
        if k < .36:
            e = self.ex(2, sc); i = self.tid(); o = []; v = self.c(e, o); M.append('%str(%d, %s)' % (T, i, self.m(e))); C.append('{%s r_tr(%d, %s);}' % (' '.join(o), i, v)); return
        if k < .40:   # a new variable, possibly shadowing one
            n = self.name('s'); s2 = sc
            if sc['decl'] is not None:   # the first statement of a block
                n = r.choice(sc['ints']); s2 = dict(sc, ints=[x for x in sc['ints'] if x != n])
                if n in sc['decl'] or not s2['ints'] or n[0] == 'x': return self.asg(sc, M, C, ind)
            e = self.top(2, s2); o = []; v = self.c(e, o)
            M.append('%svar %s : int64 = %s' % (T, n, self.m(e))); C.append('%s i64 %s=%s;' % (' '.join(o), n, v)); sc['ints'].append(n); return
        if k < .58:   # if
            first = True; n = r.randint(1, 3); close = 0
            for i in range(n):
                b = self.bx(2, sc); o = []; v = self.c(b, o)
                M.append('%s%s %s' % (T, 'if' if first else 'elif', self.m(b))); C.append(('' if first else 'else {') + ' {' + ' '.join(o) + ' if (%s) {' % v); close += 1; first = False
                self.block(d - 1, sc, M, C, ind + 1, loop); C.append('}')
            if r.random() < .6: M.append(T + 'else'); C.append('else {'); self.block(d - 1, sc, M, C, ind + 1, loop); C.append('}')
            C.append('}' * (2 * close - 1)); M.append(T + ';;'); return
        if k < .64:   # match on a few bits
            x = r.choice(sc['ins']); M.append('%smatch %s & 3' % (T, x)); C.append('switch (%s & 3) {' % x); vals = r.sample(range(4), r.randint(1, 3))
            for v in vals:
                M.append('%s| %d:' % (T, v)); C.append('case %d: {' % v); self.block(d - 1, sc, M, C, ind + 1, loop); C.append('} break;')
            M.append('%s| _:' % T); C.append('default: {'); self.block(d - 1, sc, M, C, ind + 1, loop); C.append('}}'); M.append(T + ';;'); return
        if k < .70 and loop:   # break, continue under a condition
            b = self.cmp(sc); o = []; v = self.c(b, o); w = r.choice(['break', 'continue']); lab = loop[-1][0 if w == 'break' else 1]; loop[-1][2].add(lab)
            M += ['%sif %s' % (T, self.m(b)), '%s\t%s' % (T, w), T + ';;']; C.append('{%s if (%s) goto %s;}' % (' '.join(o), v, lab)); return
        if k < .74:   # return
            b = ('b', '&&', self.cmp(sc), self.cmp(sc)); o = []; v = self.c(b, o); e = self.top(2, sc); o2 = []; w = self.c(e, o2)
            M += ['%sif %s' % (T, self.m(b)), '%s\t-> %s' % (T, self.m(e)), T + ';;']; C.append('{%s if (%s) {%s return %s;}}' % (' '.join(o), v, ' '.join(o2), w)); return
        if k < .78:   # goto
            b = self.cmp(sc); o = []; v = self.c(b, o); l = self.name('l' + self.tag)
            if r.random() < .6:
                M += ['%sif %s' % (T, self.m(b)), '%s\tgoto %s' % (T, l), T + ';;']; C.append('{%s if (%s) goto %s;}' % (' '.join(o), v, l))
                self.block(d - 1, sc, M, C, ind, loop, n=1) if r.random() < .5 else self.asg(sc, M, C, ind)
                M.append('%s:%s' % (T, l)); C.append('%s:;' % l)
            else:
                w = self.name('g'); M += ['%svar %s = 0' % (T, w), '%s:%s' % (T, l)]; C.append('i64 %s=0; %s:;' % (w, l)); s2 = {k: v if v is None else list(v) for k, v in sc.items()}
                self.asg(s2, M, C, ind); M += ['%s%s++' % (T, w), '%sif %s < 3 && %s' % (T, w, self.m(b)), '%s\tgoto %s' % (T, l), T + ';;']; C.append('%s++; if (%s < 3) {%s if (%s) goto %s;}' % (w, w, ' '.join(o), v, l))
            return
        if d < 1: return self.asg(sc, M, C, ind)
        # loops
        brk, cnt = self.name('B'), self.name('N'); k = r.random(); used = set(); lp = loop + [(brk, cnt, used)]; s2 = {k: v if v is None else list(v) for k, v in sc.items()}
        if k < .45:
            i = self.name('i'); n = r.randint(1, 3); x = r.choice(sc['ins']); form = r.randint(0, 3)
            if form == 0: h, ch = 'for var %s : int64 = 0; %s < %d; %s++' % (i, i, n, i), '{i64 %s=0; for (;%s<%d;%s++) {' % (i, i, n, i)
            elif form == 1: h, ch = 'for var %s : int64 = 0; %s < %s & 3; %s++' % (i, i, x, i), '{i64 %s=0; for (;%s<(%s&3);%s++) {' % (i, i, x, i)
            elif form == 2: h, ch = 'for var %s : int64 = %d; %s > 0; %s--' % (i, n, i, i), '{i64 %s=%d; for (;%s>0;%s--) {' % (i, n, i, i)
            else: h, ch = 'for var %s : int64 = 0; %s < %d && %s > 2; %s += 2' % (i, i, n + 1, x, i), '{i64 %s=0; for (;%s<%d&&%s>2;%s+=2) {' % (i, i, n + 1, x, i)
            M.append(T + h); C.append(ch); s2['ctrs'].append(i); self.block(d - 1, s2, M, C, ind + 1, lp); C.append((cnt + ':;' if cnt in used else '') + '} }' + (brk + ':;' if brk in used else '')); M.append(T + ';;')
        elif k < .65:
            w = self.name('w'); n = r.randint(1, 3); M.append('%svar %s : int64 = 0' % (T, w)); b = self.cmp(sc); o = []; v = self.c(b, o); form = r.randint(0, 2)
            if form == 0: M += ['%swhile %s++ < %d' % (T, w, n)]; C.append('i64 %s=0; while (%s++ < %d) {' % (w, w, n))
            elif form == 1: M += ['%swhile %s < %d && %s' % (T, w, n, self.m(b)), '%s\t%s++' % (T, w)]; C.append('i64 %s=0; for (;;) { if (!(%s < %d)) break; {%s if (!(%s)) break;} %s++;' % (w, w, n, ' '.join(o), v, w))
            else: M += ['%swhile true' % T, '%s\t%s++' % (T, w), '%s\tif %s >= %d' % (T, w, n + 1), '%s\t\tbreak' % T, '%s\t;;' % T]; C.append('i64 %s=0; for (;;) { %s++; if (%s >= %d) break;' % (w, w, w, n + 1))
            s2['ctrs'].append(w); self.block(d - 1, s2, M, C, ind + 1, lp); C.append((cnt + ':;' if cnt in used else '') + '}' + (brk + ':;' if brk in used else '')); M.append(T + ';;'); sc['ctrs'].append(w)
        elif k < .85 and sc['arrs']:
            # over an array, a slice of it, or a literal; the elements are read when their turn comes for slices
            x, i = self.name('x'), self.name('j'); a = r.choice(sc['arrs']); lo = r.randint(0, 2); hi = r.randint(lo, 4); form = r.randint(0, 2)
            if form == 0: M.append('%sfor %s : %s[%d:%d]' % (T, x, a, lo, hi)); C.append('for (int %s=%d;%s<%d;%s++) { i64 %s=%s[%s];' % (i, lo, i, hi, i, x, a, i))
            elif form == 1:
                vs = [r.randint(0, 9) for _ in range(r.randint(1, 3))]; M.append('%sfor %s : [%s]' % (T, x, ', '.join('(%d : int64)' % v for v in vs))); C.append('for (int %s=0;%s<%d;%s++) { i64 %s=(i64[]){%s}[%s];' % (i, i, len(vs), i, x, ','.join(map(str, vs)), i))
            else:
                vs = [(r.randint(0, 1), r.randint(0, 9)) for _ in range(r.randint(1, 4))]; f = r.randint(0, 1)
                M.append('%sfor (%d, %s) : [%s]' % (T, f, x, ', '.join('(%d, (%d : int64))' % v for v in vs))); C.append('for (int %s=0;%s<%d;%s++) { static const i64 K[][2]={%s}; i64 %s=K[%s][1]; if (K[%s][0]!=%d) continue;' % (i, i, len(vs), i, ','.join('{%d,%d}' % v for v in vs), x, i, i, f))
            s2['ints'].append(x); self.block(d - 1, s2, M, C, ind + 1, lp); C.append((cnt + ':;' if cnt in used else '') + '}' + (brk + ':;' if brk in used else '')); M.append(T + ';;')
        else:
            # a user-defined iterator; __iterfin__ runs for each element that the body is done with
            x, i = self.name('x'), self.name('j'); n = r.randint(0, 3); a, b = self.tid(), self.tid(); f = r.random() < .3
            if f: kk = r.randint(0, 2); M.append('%sfor %d : count(%d, %d)' % (T, kk, n, a))
            else: M.append('%sfor %s : count(%d, %d)' % (T, x, n, a))
            C.append('for (i64 %s=0;;%s++) { i64 %s=%s; r_tr(%d, %s); if (%s >= %d) break;' % (i, i, x, i, a, i, i, n))
            if f: C.append('if (%s == %d) {' % (x, kk))
            else: s2['ctrs'].append(x)
            self.block(d - 1, s2, M, C, ind + 1, lp); C.append(('%s:;' % cnt if cnt in used else '') + ('}' if f else '') + ' r_tr(%d, %s); }' % (a + 1000, x) + (brk + ':;' if brk in used else '')); M.append(T + ';;')
    def func(self, name, nargs, depth, n):
        """a whole function of int64 arguments"""
        ins = ['p%d' % i for i in range(nargs)]; M = ['const %s = {%s -> int64' % (name, ', '.join(p + ' : int64' for p in ins))]; C = ['static i64 r_%s(%s) {' % (name, ', '.join('i64 ' + p for p in ins))]
        M += ['\tvar v0 : int64 = 1, v1 : int64 = p0, v2 : int64 = -3, a0 : int64[4] = [1, 2, 3, 4], a1 : int64[4] = [p0, 5, p0, 7], q0 : cfst = [.a=1, .b=p0, .c=2]']; C += ['i64 v0=1,v1=p0,v2=-3,a0[4]={1,2,3,4},a1[4]={p0,5,p0,7}; struct cfst q0={1,p0,2};']
        sc = {'ints': ['v0', 'v1', 'v2'], 'ins': ins, 'ctrs': [], 'arrs': ['a0', 'a1'], 'sts': ['q0'], 'bools': [], 'decl': None}
        for _ in range(n): self.stmt(depth, sc, M, C, 1, [])
        M += ['\tfor x : a0[:]', '\t\ttr(1, x)', '\t;;', '\ttr(2, a1[0]); tr(3, a1[1]); tr(4, a1[2]); tr(5, a1[3]); tr(6, q0.a); tr(7, q0.b); tr(8, q0.c); tr(9, v1); tr(10, v2)', '\t-> v0', '}']
        C += ['for (int i=0;i<4;i++) r_tr(1,a0[i]); r_tr(2,a1[0]); r_tr(3,a1[1]); r_tr(4,a1[2]); r_tr(5,a1[3]); r_tr(6,q0.a); r_tr(7,q0.b); r_tr(8,q0.c); r_tr(9,v1); r_tr(10,v2); return v0;', '}']
        return '\n'.join(M), '\n'.join(C)
