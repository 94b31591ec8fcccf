"""Build a private, up-to-date copy of /repo's toolchain and libraries in /verif/work.

The copy is driven by content: on every run every source file of /repo is hashed and whatever
differs from the copy is replaced, then the C toolchain is rebuilt by the repository's own
makefiles and each library that is affected is recompiled by the freshly built compiler, from
its bld.sub.  Nothing is written under /repo."""
import os, sys, subprocess, hashlib, shutil, re, fcntl, json, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, 'work'))
TREE = os.path.join(WORK, 'tree'); OBJ = os.path.join(WORK, 'obj'); ENG = os.path.join(WORK, 'eng')
TAGS = {'linux', 'posixy', 'x64', 'sse2', 'sse4', 'fma', 'fsbase', 'futex'}
CDIRS = ['util', 'parse', 'mi', '6', 'muse', 'rt']
SRC = CDIRS + ['mk', 'lib', 'mbld', 'test', 'doc']

class BuildError(Exception): pass

def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout.decode(errors='replace')

def fhash(p):
    h = hashlib.sha256()
    with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()

def sync():
    """copy changed sources; returns set of changed top-level dirs"""
    want = {}
    gen = {'parse/gram.c', 'parse/gram.h', 'rt/_myrrt.s', 'rt/start.s', 'rt/abort.s', 'config.h', 'config.mk', 'mbld/config.myr', '6/config.h'}
    for d in SRC:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ('.deps', 'obj', '.git')]
            for f in files:
                r = os.path.relpath(os.path.join(root, f), REPO)
                if r in gen or f.endswith(('.o', '.a', '.use', '.d')) or r in ('6/6m', 'muse/muse'): continue
                p = os.path.join(root, f)
                if os.path.islink(p) and not os.path.exists(p): continue
                if os.path.isfile(p): want[r] = p
    for f in ('configure', 'Makefile', 'bld.tags', 'bld.proj'):
        p = os.path.join(REPO, f)
        if os.path.exists(p): want[f] = p
    man = os.path.join(WORK, 'manifest.json'); old = {}
    if os.path.exists(man):
        try: old = json.load(open(man))
        except ValueError: old = {}
    new = {}; changed = set()
    for r, p in want.items():
        h = fhash(p); new[r] = h; t = os.path.join(TREE, r)
        if old.get(r) != h or not os.path.exists(t):
            os.makedirs(os.path.dirname(t) or TREE, exist_ok=True)
            shutil.copyfile(p, t); shutil.copymode(p, t); os.utime(t, None); changed.add(r)
    for r in old:
        if r not in new:
            changed.add(r)
            try: os.remove(os.path.join(TREE, r))
            except OSError: pass
    return new, changed, man

def toolchain(changed):
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root', 'LC_ALL': 'C.UTF-8'}
    if 'configure' in changed or not os.path.exists(os.path.join(TREE, 'config.h')):
        sh(['./configure', '--prefix=/usr/local'], cwd=TREE, env=env)
    if any(c.endswith('.h') or c.split('/')[0] in CDIRS for c in changed) or not os.path.exists(os.path.join(TREE, '6/6m')):
        removed = [c for c in changed if not os.path.exists(os.path.join(TREE, c))]
        if removed or any(c.endswith('.h') for c in changed):
            for d in CDIRS:
                for f in os.listdir(os.path.join(TREE, d)) if os.path.isdir(os.path.join(TREE, d)) else []:
                    if f.endswith(('.o', '.a')): os.remove(os.path.join(TREE, d, f))
        for d in ('parse', 'mi', 'util', '6', 'muse', 'rt'):
            sh(['make', '-j8', '-C', d], cwd=TREE, env=env)

def tagsel(files):
    best = {}
    for f in files:
        stem, ext = f.rsplit('.', 1)
        base, _, attr = stem.partition('+')
        attrs = [a for a in attr.split('-') if a] if attr else []
        ok = True
        for a in attrs:
            if a.split(':')[0] not in TAGS: ok = False
        if not ok: continue
        n = len(attrs)
        if base not in best or best[base][0] < n: best[base] = (n, f)
    return [v[1] for v in best.values()]

def parse_sub(path):
    """-> list of (kind, name, attrs, files, libs)"""
    txt = re.sub(r'#[^\n]*', '', open(path).read()); out = []
    for m in re.finditer(r'\b(lib|bin)\s+([\w.-]+)\s*(\{[^}]*\})?\s*=(.*?);;', txt, re.S):
        toks = m.group(4).split(); files = []; libs = []; i = 0
        while i < len(toks):
            if toks[i] == 'lib': libs.append(toks[i + 1]); i += 2
            else: files.append(toks[i]); i += 1
        out.append((m.group(1), m.group(2), m.group(3) or '', files, libs))
    return out

_libinfo = None
def libinfo():
    global _libinfo
    if _libinfo is None:
        _libinfo = {}
        for d in sorted(os.listdir(os.path.join(TREE, 'lib'))):
            p = os.path.join(TREE, 'lib', d, 'bld.sub')
            if not os.path.exists(p): continue
            for kind, name, attrs, files, libs in parse_sub(p):
                if kind != 'lib': continue
                deps = [l.split(':')[-1].split('/')[-1] for l in libs]
                _libinfo[name] = (d, tagsel(files), deps)
    return _libinfo

def uses(path):
    loc = []; lib = []
    for m in re.finditer(r'^\s*use\s+("?)([\w./+:-]+)"?', open(path, errors='replace').read(), re.M):
        (loc if m.group(1) else lib).append(m.group(2))
    return loc, lib

def tool(n): return os.path.join(TREE, {'6m': '6/6m', 'muse': 'muse/muse'}[n])

def toolkey():
    h = hashlib.sha256()
    for t in ('6m', 'muse'): h.update(fhash(tool(t)).encode())
    for f in ('rt/_myrrt.o',): h.update(fhash(os.path.join(TREE, f)).encode())
    return h.hexdigest()

def alldeps(name, acc=None):
    acc = acc if acc is not None else []
    for d in libinfo()[name][2]:
        if d not in acc and d in libinfo():
            alldeps(d, acc); acc.append(d) if d not in acc else None
    return acc

_keys = {}
def libkey(name, tk, man):
    if name in _keys: return _keys[name]
    d, files, deps = libinfo()[name]; h = hashlib.sha256(); h.update(tk.encode())
    for f in sorted(files): h.update(f.encode()); h.update(man.get('lib/%s/%s' % (d, f), '?').encode())
    for x in alldeps(name): h.update(libkey(x, tk, man).encode())
    _keys[name] = h.hexdigest(); return _keys[name]

def boot_order(d):
    """the order in which the repository's own bootstrap merges a library's .use files (the merge is order-sensitive)"""
    p = os.path.join(TREE, 'mk/bootstrap/bootstrap+Linux-x86_64.sh')
    if os.path.exists(p):
        m = re.search(r'muse -o obj/lib/%s/lib\S+ -p \S+ (.*)' % d, open(p).read())
        if m: return [os.path.basename(x)[:-4] for x in m.group(1).split()]
    return []

def compile_lib(name, tk, man, log):
    d, files, deps = libinfo()[name]; out = os.path.join(OBJ, name); key = libkey(name, tk, man); kf = os.path.join(out, '.key')
    if os.path.exists(kf) and open(kf).read() == key: return False
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    src = os.path.join(TREE, 'lib', d); inc = []
    for x in alldeps(name): inc += ['-I', os.path.join(OBJ, x)]
    bases = {f.split('+')[0].rsplit('.', 1)[0] if '+' in f else f.rsplit('.', 1)[0]: f for f in files if f.endswith('.myr')}
    done = set(); objs = []; usefiles = []
    # every object lands in one directory: compile from a flat copy without the tag suffixes
    for f in files:
        ext = f.rsplit('.', 1)[1]; base = f.split('+')[0] if '+' in f else f.rsplit('.', 1)[0]
        shutil.copyfile(os.path.join(src, f), os.path.join(out, base + '.' + ext) if ext != 's' else os.path.join(out, base + '.asm'))
    pending = dict(bases); running = {}; deps_of = {b: [u[:-4] if u.endswith('.use') else u for u in uses(os.path.join(out, b + '.myr'))[0]] for b in bases}
    objnames = []
    for f in files:
        if f.endswith('.s'):
            b = f.split('+')[0] if '+' in f else f.rsplit('.', 1)[0]
            sh(['as', '-g', '-o', os.path.join(out, b + '.s.o'), os.path.join(out, b + '.asm')]); objs.append(os.path.join(out, b + '.s.o'))
    while pending or running:
        ready = [b for b in pending if all(x in done or x not in bases for x in deps_of[b])]
        if not ready and not running: raise BuildError('dependency cycle in lib %s: %s' % (name, list(pending)))
        for b in ready[:max(0, 8 - len(running))]:
            del pending[b]
            running[b] = subprocess.Popen([tool('6m')] + inc + [b + '.myr'], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for b in list(running):
            try: running[b].wait(timeout=0.004)
            except subprocess.TimeoutExpired: continue
            p = running.pop(b)
            if p.returncode != 0: raise BuildError('6m failed on lib/%s/%s: %s' % (d, bases[b], p.stdout.read().decode(errors='replace')[-1500:]))
            done.add(b)
    for b in bases:
        objs.append(os.path.join(out, b + '.o'))
        if os.path.exists(os.path.join(out, b + '.use')): usefiles.append(os.path.join(out, b + '.use'))
    rank = {os.path.join(out, b + '.use'): i for i, b in enumerate(boot_order(d))}
    usefiles.sort(key=lambda u: (rank.get(u, 1 << 20), u))
    sh(['ar', '-rcs', os.path.join(out, 'lib%s.a' % name)] + objs)
    sh([tool('muse'), '-o', os.path.join(out, 'lib%s.use' % name), '-p', name] + usefiles)
    open(kf, 'w').write(key); log.append(name); return True

def build(libs=(), verbose=False):
    """bring the private build up to date; returns dict of facts"""
    os.makedirs(WORK, exist_ok=True); os.makedirs(TREE, exist_ok=True); os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time(); man, changed, manf = sync()
        if changed and os.path.exists(manf):
            os.remove(manf)   # an interrupted build starts over
        pend = os.path.join(WORK, 'pending.json')
        ch = set(changed)
        if os.path.exists(pend): ch |= set(json.load(open(pend)))
        json.dump(sorted(ch), open(pend, 'w'))
        json.dump(man, open(manf, 'w'))
        toolchain(ch); os.remove(pend)
        tk = toolkey(); log = []; order = []
        for l in libs:
            for x in alldeps(l) + [l]:
                if x not in order: order.append(x)
        for x in order: compile_lib(x, tk, man, log)
        rt(tk)
        return {'changed': sorted(ch)[:50], 'rebuilt_libs': log, 'build_s': round(time.time() - t0, 2), 'toolkey': tk}
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

CFLAGS = ['-O1', '-c', '-ffreestanding', '-fno-stack-protector', '-mgeneral-regs-only', '-fno-pic', '-fno-pie', '-fcf-protection=none', '-fno-asynchronous-unwind-tables', '-fno-jump-tables', '-fwrapv', '-fno-strict-aliasing', '-w']
def rt(tk):
    out = os.path.join(OBJ, '_rt'); os.makedirs(out, exist_ok=True); src = os.path.join(VERIF, 'harness', 'rt')
    key = tk + fhash(os.path.join(src, 'vsym.myr')) + fhash(os.path.join(src, 'vsym.c')); kf = os.path.join(out, '.key')
    if os.path.exists(kf) and open(kf).read() == key: return
    shutil.copyfile(os.path.join(src, 'vsym.myr'), os.path.join(out, 'vsym.myr'))
    sh([tool('6m'), 'vsym.myr'], cwd=out); shutil.copyfile(os.path.join(out, 'vsym.use'), os.path.join(out, 'libvsym.use'))
    sh(['gcc'] + CFLAGS + ['-fno-reorder-functions', '-mno-red-zone', os.path.join(src, 'vsym.c'), '-o', os.path.join(out, 'vsymc.o')]); sh(['objcopy', '--rename-section', '.text=vsymtext', os.path.join(out, 'vsymc.o')])
    open(kf, 'w').write(key)

CCFLAGS = ['-O1', '-c', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-builtin', '-fno-pic', '-fno-pie', '-fcf-protection=none', '-fno-asynchronous-unwind-tables', '-fno-jump-tables', '-fwrapv', '-fno-strict-aliasing', '-fno-tree-vectorize', '-fno-tree-slp-vectorize', '-mno-sse4', '-w', '-ffunction-sections', '-fdata-sections']
def ccunits(dirs=('util', 'parse', 'mi')):
    """the compiler's own C code, compiled for the engine: an archive"""
    lock = open(os.path.join(WORK, 'cclock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        out = os.path.join(OBJ, '_cc'); os.makedirs(out, exist_ok=True); jobs = []; ar = os.path.join(out, 'libcc_%s.a' % '_'.join(dirs))
        for d in dirs:
            sd = os.path.join(TREE, d); hs = ''
            for x in ('util', 'parse', 'mi', '6'):
                for f in sorted(os.listdir(os.path.join(TREE, x))):
                    if f.endswith(('.h', '.def')): hs += fhash(os.path.join(TREE, x, f))
            for f in sorted(os.listdir(sd)):
                if not f.endswith('.c') or f.endswith('_test.c') or f == 'main.c': continue
                o = os.path.join(out, d + '_' + f[:-2] + '.o'); k = hashlib.sha256((hs + fhash(os.path.join(sd, f)) + ' '.join(CCFLAGS)).encode()).hexdigest(); kf = o + '.key'
                if not (os.path.exists(o) and os.path.exists(kf) and open(kf).read() == k): jobs.append((sd, f, o, k, kf))
        ps = []
        for i in range(0, len(jobs), 8):
            ps = [(j, subprocess.Popen(['gcc'] + CCFLAGS + ['-I', TREE] + sum([['-I', os.path.join(TREE, x)] for x in ('util', 'parse', 'mi', '6')], []) + [j[1], '-o', j[2]], cwd=j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for j in jobs[i:i + 8]]
            for j, p in ps:
                o = p.communicate()[0]
                if p.returncode: raise BuildError('gcc failed on %s: %s' % (j[1], o.decode(errors='replace')[-800:]))
                open(j[4], 'w').write(j[3])
        objs = []
        for d in dirs:
            for f in sorted(os.listdir(os.path.join(TREE, d))):
                if f.endswith('.c') and not f.endswith('_test.c') and f != 'main.c': objs.append(os.path.join(out, d + '_' + f[:-2] + '.o'))
        if jobs or not os.path.exists(ar):
            if os.path.exists(ar): os.remove(ar)
            sh(['ar', '-rcs', ar] + objs)
        return ar
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def ccharness(name, csrcs, outdir, dirs=('util', 'parse', 'mi')):
    """harness of C sources (h_main is the entry) over the compiler's C code"""
    os.makedirs(outdir, exist_ok=True); ar = ccunits(dirs); objs = []; src = os.path.join(VERIF, 'harness', 'cc')
    m = os.path.join(outdir, 'ccmain.myr'); open(m, 'w').write('use vsym\nextern const h_main : (-> void)\nconst main = {\n\th_main()\n\tvsym.done()\n}\n')
    compile_myr('ccmain.myr', outdir, []); objs.append(m[:-4] + '.o')
    inc = sum([['-I', os.path.join(TREE, x)] for x in ('', 'util', 'parse', 'mi', '6')], [])
    for c in list(csrcs) + [os.path.join(src, 'libc.c')]:
        o = os.path.join(outdir, os.path.basename(c) + '.o')
        sh(['gcc'] + CCFLAGS + inc + ['-I', src, c, '-o', o]); objs.append(o)
    elf = os.path.join(outdir, name)
    link(elf, outdir, objs + [ar], [], ['--unresolved-symbols=ignore-all']); return elf

class CompileFail(Exception):
    """the compiler under test rejected, or crashed on, a harness program"""

def compile_myr(src, cwd, libs, timeout=60):
    inc = ['-I', os.path.join(OBJ, '_rt'), '-I', cwd]; order = []
    for l in libs:
        for x in alldeps(l) + [l]:
            if x not in order: order.append(x)
    for x in order: inc += ['-I', os.path.join(OBJ, x)]
    try:
        p = subprocess.run([tool('6m')] + inc + [src], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CompileFail('6m did not finish on %s' % src)
    if p.returncode != 0: raise CompileFail('6m failed on %s (status %d): %s' % (src, p.returncode, p.stdout.decode(errors='replace')[-1500:]))

def link(out, cwd, objs, libs, flags=()):
    order = []
    for l in libs:
        for x in alldeps(l) + [l]:
            if x not in order: order.append(x)
    args = ['ld', '--gc-sections', '-z', 'noexecstack', '--no-warn-rwx-segments', '-o', out, os.path.join(TREE, 'rt/_myrrt.o')] + objs + [os.path.join(OBJ, '_rt', 'vsymc.o')]
    for x in reversed(order): args += ['-L' + os.path.join(OBJ, x), '-l' + x]
    sh(args + list(flags), cwd=cwd)

def harness(name, srcs, csrcs, libs, outdir, extra_objs=(), flags=()):
    """srcs: Myrddin files in dependency order (last has main); csrcs: C files"""
    os.makedirs(outdir, exist_ok=True); objs = []
    for s in srcs:
        b = os.path.basename(s); t = os.path.join(outdir, b)
        if os.path.abspath(s) != t: shutil.copyfile(s, t)
        o = t[:-4] + '.o'
        if os.path.exists(o): os.remove(o)
        compile_myr(b, outdir, libs); objs.append(o)
    for c in csrcs:
        o = os.path.join(outdir, os.path.basename(c) + '.o')
        fl = [x for x in CFLAGS if x != '-mgeneral-regs-only'] if '/* floats */' in open(c).read(20000) else CFLAGS
        sh(['gcc'] + fl + ['-I', os.path.dirname(os.path.abspath(c)), '-I', os.path.join(VERIF, 'harness', 'rt'), c, '-o', o]); objs.append(o)
    elf = os.path.join(outdir, name)
    link(elf, outdir, objs + list(extra_objs), libs, flags); return elf

if __name__ == '__main__':
    t = time.time(); r = build(sys.argv[1:]); print(r)
