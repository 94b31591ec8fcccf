"""mkseed(id, property, edits, prog, needs, breaks): write seeded/<id> from textual edits of /repo's HEAD and a demo program"""
import os, subprocess, json, shutil
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/sh
# compile and run the demonstration against the built tree; exit 0 when it behaves
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here"/*.myr "$t"/ && cd "$t" || exit 3
inc=""; for l in %(libs)s; do inc="$inc -I $repo/obj/lib/$l"; done
"$repo/6/6m" $inc demo.myr > log 2>&1 || { cat log; echo "does not compile"; exit 2; }
args=""; for l in %(rlibs)s; do args="$args -L$repo/obj/lib/$l -l$l"; done
ld --gc-sections -o demo "$repo/rt/_myrrt.o" demo.o $args || exit 3
timeout 60 ./demo; st=$?
[ $st = 0 ] || echo "demo status $st"
exit $st
'''
REJECT = '''#!/bin/sh
# good.myr must compile, bad.myr must be rejected
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here"/*.myr "$t"/ && cd "$t" || exit 3
"$repo/6/6m" good.myr || exit 1
if "$repo/6/6m" bad.myr; then echo "bad.myr was accepted"; exit 1; fi
exit 0
'''
def mkseed(id, prop, edits, prog, needs, breaks, libs=('std', 'sys'), demo=None, files=None):
    d = os.path.join(V, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for f, a, b in edits:
            p = os.path.join(R, f); s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a); open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    finally: subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if prog: open(os.path.join(d, 'demo.myr'), 'w').write(prog)
    for n, s in (files or {}).items(): open(os.path.join(d, n), 'w').write(s)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo or DEMO % {'libs': ' '.join(libs), 'rlibs': ' '.join(libs)})
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
