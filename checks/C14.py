"""Separate compilation: the files of two packages, each compiled alone, their .use files merged in many orders, and a program that uses both."""
import itertools, os, random, shutil, build as B
LIBS = ['std']
SRC = os.path.join(B.VERIF, 'harness', 'sep')
P = ['tr', 'ge', 'mo']
def make(order, split):
    def f(d):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d); objs = []
        def cc(n):
            shutil.copyfile(os.path.join(SRC, n + '.myr'), os.path.join(d, n + '.myr')); B.compile_myr(n + '.myr', d, LIBS); objs.append(os.path.join(d, n + '.o'))
        def muse(name, files):
            try: B.sh([B.tool('muse'), '-o', os.path.join(d, 'lib%s.use' % name), '-p', name] + [os.path.join(d, x + '.use') for x in files], cwd=d)
            except B.BuildError as e: raise B.CompileFail('muse: %s' % e)
        for n in P: cc(n)
        muse('p', order); cc('qq'); muse('q', ['qq']); cc('main')
        if split: objs = objs[::-1]
        elf = os.path.join(d, 'h'); B.link(elf, d, objs, LIBS); return elf
    return f
T = {1: ('initialisation', [1, 2, 3]), 2: ('constants, variables, functions', range(4, 13)), 3: ('types', range(13, 20)), 4: ('unions', range(20, 25)), 5: ('traits', range(25, 34)), 6: ('generics, traits of two types', range(34, 45))}
def setup(ck):
    ck.level = 'translation_validation'; ck.compile_is_violation = True
    for i, o in enumerate(itertools.permutations(P)):
        h = ck.harness('merge-' + '-'.join(o), [], [], LIBS, prebuilt=make(list(o), i % 2))
        for k, (t, e) in T.items(): ck.case(h, k, '%s (merged as %s)' % (t, ', '.join(o)), 'every value of three 64-bit variables', expect=list(e), time=60)
    ck.programs = 6
    src = lambda n: open(os.path.join(SRC, n)).read()
    def bodies(d):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(os.path.join(d, 'bo.myr'), 'w').write(src('bo.head') + src('bodies.inc'))
        open(os.path.join(d, 'bmain.myr'), 'w').write('use std\nuse vsym\nuse bp\n' + src('bodies.inc') + src('bmain.tail'))
        B.compile_myr('bo.myr', d, LIBS)
        try: B.sh([B.tool('muse'), '-o', os.path.join(d, 'libbp.use'), '-p', 'bp', 'bo.use'], cwd=d)
        except B.BuildError as e: raise B.CompileFail('muse: %s' % e)
        B.compile_myr('bmain.myr', d, LIBS); elf = os.path.join(d, 'h')
        B.link(elf, d, [os.path.join(d, 'bo.o'), os.path.join(d, 'bmain.o')], LIBS); return elf
    h = ck.harness('bodies', [], [], LIBS, prebuilt=bodies)
    G = 'bodies of exported generics behave as the same text in the program itself, used at %s'
    for k, t in enumerate(['int64', 'byte', 'int16', 'uint32']): ck.case(h, k + 1, G % t, 'every value of three variables, of which the loop bodies are fixed', expect=range(1, 13), time=200)
    ck.case(h, 5, 'exported constants of every kind of literal', 'the listed constants', expect=range(1, 7), time=60)
    ck.case(h, 6, 'an exported type with members of every kind', 'every value of the members', expect=range(1, 6), time=60)
    ck.case(h, 7, 'exported unions; variadic arguments', 'every 64-bit value', expect=range(1, 7), time=60)
    def bad(name, text):
        def f(d):
            make(P, 0)(d)
            open(os.path.join(d, 'bad.myr'), 'w').write(text); B.compile_myr('bad.myr', d, LIBS)
            elf = os.path.join(d, 'bad'); B.link(elf, d, [os.path.join(d, x + '.o') for x in P + ['qq', 'bad']], LIBS); return elf
        h = ck.harness(name, [], [], LIBS, prebuilt=f); ck.case(h, 1, 'must be rejected: ' + name, 'the program', expect=[], time=60); h.reject = 'could not find|undefined|undeclared|no declaration|unresolved|private|unknown|no type|incompatible|not visible'; return h
    for n, t in BAD.items(): bad(n, 'use std\nuse vsym\nuse p\nuse q\n%s\n' % t)
    ck.programs = 7 + len(BAD)
M = 'const main = {\n\tvar x : int64\n\tx = (vsym.u64() : int64)\n\t%s\n\tvsym.check(99, false)\n\tvsym.done()\n}'
BAD = {'hidden-variable': M % 'x = p.priv', 'pkglocal-function': M % 'x = p.local(x)', 'function-of-another-package': M % 'x = q.area(1, x)', 'unqualified': M % 'x = summer([x, x, x])', 'indirectly-used-package': M % 'x = (sys.getpid() : int64)'}
