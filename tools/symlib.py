"""Check framework: run harness cases under the symbolic engine, replay what it reports against the
native binary, and write evidence.  A check module defines setup(ck); check.py runs it."""
import os, sys, subprocess, json, time, hashlib, shutil, threading, queue, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from build import VERIF, REPO, WORK, BuildError, CompileFail
MYSYM = os.path.join(WORK, 'eng', 'mysym')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
SCALE = float(os.environ.get('VERIF_TIMESCALE', '1'))

class Case:
    def __init__(self, h, num, title, bound, time=60, expect=(), threads=False, known=None, opts=(), noreplay=False, wit=4, maxpaths=2000000, group=None):
        self.h = h; self.num = num; self.title = title; self.bound = bound; self.time = time; self.expect = expect
        self.threads = threads; self.known = known; self.opts = list(opts); self.wit = wit; self.maxpaths = maxpaths; self.group = group
        self.res = None; self.err = None; self.viol = []; self.unrep = []; self.validated = 0; self.mismatch = []

class Harness:
    def __init__(self, name, myr, c, libs, extra=None, prebuilt=None, flags=()):
        self.name = name; self.myr = myr; self.c = c; self.libs = libs; self.cases = []; self.elf = None; self.fail = None; self.extra = extra; self.prebuilt = prebuilt; self.flags = list(flags); self.reject = None; self.rejected = None

class Check:
    def __init__(self, pid):
        self.pid = pid; self.hs = []; self.level = 'model_checking'; self.assumptions = []; self.outside = []; self.note = ''; self.compile_is_violation = False
        self.tier = TIER; self.seed = SEED; self.out = os.path.join(WORK, 'chk', pid); self.programs = 0; self.post = []; self.extra_libs = []
    def thorough(self): return self.tier == 'thorough'
    def harness(self, name, myr, c=(), libs=('std',), extra=None, prebuilt=None, flags=()):
        hd = os.path.join(VERIF, 'harness')
        f = lambda x: x if os.path.isabs(x) else os.path.join(hd, x)
        myr = [myr] if isinstance(myr, str) else list(myr); c = [c] if isinstance(c, str) else list(c)
        h = Harness(name, [f(x) for x in myr], [f(x) for x in c], list(libs), extra, prebuilt, flags); self.hs.append(h); return h
    def case(self, h, num, title, bound='', **kw):
        k = Case(h, num, title, bound, **kw); h.cases.append(k); return k

def native_env(elf): return {}

def run_native(elf, data, timeout=20, sched=None):
    """run the real binary on a recorded input stream; -> (status, outs, failed check ids, expabort)"""
    r, w = os.pipe(); tr, tw = os.pipe()
    sf = None
    if sched:
        import tempfile, array
        sf = tempfile.TemporaryFile(); sf.write(array.array('i', sched).tobytes()); sf.flush(); sf.seek(0)
    def pre():
        if sf: os.dup2(sf.fileno(), 207)
        os.dup2(r, 209); os.dup2(tw, 208); os.dup2(209, 9); os.dup2(208, 8)
        if sf: os.dup2(207, 7)
        else: os.closerange(7, 8)
        os.closerange(10, 256)
        import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20)); resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        os.setgid(65534); os.setgroups([]); os.setuid(65534)
    def feed():
        try:
            v = memoryview(data)
            while v: n = os.write(w, v[:65536]); v = v[n:]
        except OSError: pass
        os.close(w)
    acc = []
    def drain():
        n = 0
        while True:
            b = os.read(tr, 65536)
            if not b: break
            if n < 4 << 20: acc.append(b); n += len(b)
        os.close(tr)
    try:
        p = subprocess.Popen([elf], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre, close_fds=False, cwd='/', env={})
    finally:
        os.close(r); os.close(tw)
    t1 = threading.Thread(target=feed); t2 = threading.Thread(target=drain); t1.start(); t2.start()
    try: st = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); st = 'timeout'
    t1.join(); t2.join()
    if sf: sf.close()
    outs = []; fails = []; xp = 0
    for l in b''.join(acc).decode('ascii', 'replace').split('\n'):
        if l[:2] == 'o ': outs.append(str(int(l[2:], 16)))
        elif l[:2] == 'F ': fails.append(int(l[2:], 16))
        elif l[:2] == 'X ': xp = int(l[2:], 16)
    return st, outs, fails, xp

_nat = threading.Lock()
def native(elf, data, timeout=20, sched=None):
    with _nat: return run_native(elf, data, timeout, sched)

def stream(num, hexin): return bytes.fromhex(hexin)  # starts with the case index

def engine(elf, num, opts, tlimit):
    p = subprocess.run([MYSYM, elf, '--case', str(num), '--time', str(tlimit)] + opts, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tlimit * 2 + 60, preexec_fn=stacklim)
    if p.returncode != 0: raise RuntimeError('engine status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-400:]))
    return json.loads(p.stdout)

def stacklim():
    import resource
    try: resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, 1 << 30))
    except (ValueError, OSError): pass

ABN = ('memory-fault-read', 'memory-fault-write', 'divide-error', 'divide-overflow', 'abort', 'illegal')
def run_case(ck, c):
    opts = ['--witness', str(c.wit), '--maxpaths', str(c.maxpaths), '--seed', str(ck.seed)] + c.opts
    try: c.res = engine(c.h.elf, c.num, opts, c.time * SCALE)
    except (RuntimeError, subprocess.TimeoutExpired, ValueError) as e: c.err = str(e)[:300]; return
    r = c.res
    for w in r['witnesses']:
        st, outs, fails, xp = native(c.h.elf, stream(c.num, w['input']), sched=w.get('sched'))
        e = w['end']; ok = outs == w['outs'] and not fails
        if e in ('exit0', 'done'): ok = ok and st == 0
        elif e == 'expected-abort': ok = ok and xp == 1 and st != 0 and st != 'timeout'
        if ok: c.validated += 1
        else: c.mismatch.append({'input': w['input'][:400], 'engine': [e, w['outs'][:20]], 'native': [str(st), outs[:20], fails, xp]})
    for v in r['violations']:
        st, outs, fails, xp = native(c.h.elf, stream(c.num, v['input']), 10 if v['kind'] == 'no-termination' else 20, v.get('sched'))
        v['native'] = [str(st), outs[:20], fails, xp]
        if v['kind'] == 'check': ok = fails == [v['id']] and st == 99
        elif v['kind'] == 'no-termination': ok = st == 'timeout'
        elif v['kind'] == 'deadlock': ok = st == 98
        else: ok = (st != 0 and st not in (75, 77, 98, 99, 'timeout') and xp == 0) or (st == 99 and fails != [])
        if not ok and v['kind'] != 'no-termination' and st == 99 and fails: ok = True
        (c.viol if ok else c.unrep).append(v)

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): out.append(json.loads(l))
    return out

def pmap(fn, items, n=NPROC):
    q = queue.Queue()
    for x in items: q.put(x)
    def w():
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            try: fn(x)
            except Exception as e:
                import traceback; traceback.print_exc()
                if hasattr(x, 'err'): x.err = repr(e)[:300]
    ts = [threading.Thread(target=w) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()

def build_harness(ck, h):
    d = os.path.join(ck.out, h.name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        if h.prebuilt: h.elf = h.prebuilt(d)
        else: h.elf = B.harness('h', h.myr, h.c, h.libs, d, h.extra(d) if h.extra else (), h.flags)
    except CompileFail as e:
        h.fail = str(e)
        if h.reject and 'did not finish' not in h.fail and '(status -' not in h.fail: h.rejected = h.fail; h.fail = None
    except BuildError as e: h.fail = 'link/build: ' + str(e)[-600:]

def save_replay(ck, n, c, v):
    d = os.path.join(WORK, 'replay', ck.pid); os.makedirs(d, exist_ok=True); b = os.path.join(d, '%d' % n); shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
    with open(os.path.join(b, 'input.bin'), 'wb') as f: f.write(stream(c.num, v.get('input', '')))
    if v.get('sched'):
        import array
        with open(os.path.join(b, 'sched.bin'), 'wb') as f: f.write(array.array('i', v['sched']).tobytes())
    if c.h.elf: shutil.copyfile(c.h.elf, os.path.join(b, 'h')); os.chmod(os.path.join(b, 'h'), 0o755)
    for s in c.h.myr + c.h.c: shutil.copyfile(s, os.path.join(b, os.path.basename(s)))
    json.dump({'property': ck.pid, 'harness': c.h.name, 'case': c.num, 'title': c.title, 'violation': v}, open(os.path.join(b, 'info.json'), 'w'), indent=1)
    with open(os.path.join(b, 'replay.sh'), 'w') as f: f.write('#!/bin/sh\n# exit 99: the check named on fd 8 failed; another nonzero status: abnormal end\ncd "$(dirname "$0")" && ./h 9<input.bin 8>&1%s\n' % (' 7<sched.bin' if v.get('sched') else ''))
    os.chmod(os.path.join(b, 'replay.sh'), 0o755); return b

def main(pid, mod):
    t0 = time.time(); ck = Check(pid); shutil.rmtree(os.path.join(WORK, 'replay', pid), ignore_errors=True); os.makedirs(ck.out, exist_ok=True)
    mod.setup_early(ck) if hasattr(mod, 'setup_early') else None
    try:
        libs = set(getattr(mod, 'LIBS', ['std']))
        bi = B.build(sorted(libs))
    except BuildError as e:
        print('BUILD-ERROR %s' % e); sys.exit(2)
    mod.setup(ck)
    only = os.environ.get('VERIF_ONLY')
    if only:
        hs = only.split(','); ck.hs = [h for h in ck.hs if any(h.name == x.split(':')[0] for x in hs)]
        for h in ck.hs: h.cases = [c for c in h.cases if any(x.split(':')[0] == h.name and (':' not in x or int(x.split(':')[1]) == c.num) for x in hs)]
    pmap(lambda h: build_harness(ck, h), ck.hs)
    tb = time.time(); viol = []; known = []; incon = []
    kf = known_findings()
    for h in ck.hs:
        if h.fail:
            if ck.compile_is_violation and not h.fail.startswith('link/build'):
                c = Case(h, 0, 'harness program compiles', ''); viol.append((c, {'kind': 'compile-fail', 'id': 0, 'input': '', 'where': h.fail[-300:], 'text': ''}))
            else: incon.append('%s: harness did not build: %s' % (h.name, h.fail[-300:]))
        if h.rejected and not re.search(h.reject, h.rejected): incon.append('%s: rejected, but not with %r: %s' % (h.name, h.reject, h.rejected[-300:]))
    cases = [c for h in ck.hs if h.elf for c in h.cases]
    cases.sort(key=lambda c: -c.time)
    pmap(lambda c: run_case(ck, c), cases)
    if cases and all(c.err for c in cases): print('ENGINE-ERROR %s' % cases[0].err); sys.exit(2)
    tot = dict(paths=0, instrs=0, forks=0, merges=0, checks=0, checks_trivial=0, queries=0, table_queries=0, cache_hits=0, unknown=0, solver_s=0.0, sched_points=0, validated=0, replayed=0)
    funcs = set(); rows = []; samples = []
    for c in cases:
        nm = '%s/%d' % (c.h.name, c.num)
        if c.err: incon.append('%s (%s): %s' % (nm, c.title, c.err)); continue
        r = c.res
        for k in ('paths', 'instrs', 'forks', 'merges', 'checks', 'checks_trivial', 'queries', 'table_queries', 'cache_hits', 'unknown', 'sched_points'): tot[k] += r[k]
        tot['solver_s'] += r['solver_s']; tot['validated'] += c.validated; funcs.update(r['functions'])
        for k, n in r['inconclusive'].items(): incon.append('%s (%s): %s x%d' % (nm, c.title, k, n))
        for m in c.mismatch: incon.append('%s (%s): native run differs from the encoding: %s' % (nm, c.title, json.dumps(m)[:600]))
        for v in c.unrep: incon.append('%s (%s): counterexample did not reproduce: %s' % (nm, c.title, json.dumps({k: v.get(k) for k in ('kind', 'id', 'where', 'input', 'native')})[:600]))
        for i in c.expect:
            if not r['check_ids'].get(str(i)) and not c.viol: incon.append('%s (%s): assertion %d was never reached' % (nm, c.title, i))
        seen = set()
        for v in c.viol:
            tot['replayed'] += 1; key = (v['kind'], v['id'])
            if key in seen: continue
            seen.add(key); k = None
            for e in kf:
                if e['property'] == ck.pid and e['harness'] == c.h.name and e['case'] == c.num and e['kind'] == v['kind'] and e['id'] == v['id']: k = e
            if k: known.append((c, v, k))
            else: viol.append((c, v))
        rows.append({'case': nm, 'what': c.title, 'bound': c.bound, 'paths': r['paths'], 'assertions': r['checks'], 'solver_queries': r['queries'], 'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 1), 'complete': not r['inconclusive'], 'native_validated': c.validated})
        for w in r['witnesses'][:1]:
            if len(samples) < 12: samples.append({'case': nm, 'what': c.title, 'path_input_hex': w['input'][:160], 'end': w['end'], 'observed': w['outs'][:8]})
    for p in ck.post: p(ck, cases, viol, incon)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    repo_funcs = sorted(f for f in funcs if not f.startswith(('ref_', 'h$', 'main', 'v_')) )
    cov = {'functions_encoded_count': len(repo_funcs), 'functions_encoded': repo_funcs[:500], 'paths': tot['paths'], 'instructions_executed_symbolically': tot['instrs'],
           'queries_discharged': tot['queries'] + tot['table_queries'], 'z3_queries': tot['queries'], 'exhaustive_byte_table_queries': tot['table_queries'], 'solver_s': round(tot['solver_s'], 2), 'assertions_decided': tot['checks'], 'assertions_constant': tot['checks_trivial'],
           'unknown_answers': tot['unknown'], 'cases': rows[:120], 'cases_count': len(rows), 'programs_rejected_as_required': sum(1 for h in ck.hs if h.rejected), 'cases_complete': sum(1 for x in rows if x['complete']), 'inconclusive': incon[:40], 'outside_the_bounds': ck.outside, 'samples': samples,
           'known_findings_seen': [k['what'] for c, v, k in known], 'build': {'seconds': bi['build_s'], 'rebuilt_libs': bi['rebuilt_libs']}}
    if ck.level == 'model_checking': cov.update(states=tot['paths'] + tot['sched_points'], transitions=tot['forks'] + tot['merges'] + tot['paths'], traces_validated_against_impl=tot['validated'] + tot['replayed'])
    elif ck.level == 'translation_validation': cov.update(programs=ck.programs or len(ck.hs), disagreements_checked=tot['checks'], traces_validated_against_impl=tot['validated'] + tot['replayed'])
    ev = {'property': ck.pid, 'tier': ck.tier, 'seed': ck.seed, 'level': ck.level, 'coverage': cov, 'assumptions': ck.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and len(cov['cases']) > 5: cov['cases'] = cov['cases'][:len(cov['cases']) * 2 // 3]; cov['functions_encoded'] = cov['functions_encoded'][:200]; s = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: f.write(s)
    for x in incon: print('INCONCLUSIVE %s %s' % (pid, x.replace('\n', ' ')))
    for c, v, k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    slow = sorted(rows, key=lambda x: -x['wall_s'])[:3]
    print('%s: %d cases, %d paths, %d assertions, %d+%d queries, solver %.1fs, validated %d, build %.1fs, wall %.1fs; slowest %s' % (pid, len(rows), tot['paths'], tot['checks'], tot['queries'], tot['table_queries'], tot['solver_s'], tot['validated'], tb - t0, time.time() - t0, [(x['case'], x['wall_s']) for x in slow]))
    if viol:
        for n, (c, v) in enumerate(viol[:20]):
            p = save_replay(ck, n, c, v)
            print('# %s/%d %s: %s %s at %s input=%s native=%s' % (c.h.name, c.num, c.title, v['kind'], v['id'], v.get('where'), v['input'][:120], v.get('native')))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        sys.exit(1)
    sys.exit(0)
