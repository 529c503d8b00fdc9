#!/usr/bin/env python3
"""Make and test planted bugs.  usage: mkseeds.py make [ID...] | test [ID...]   (tools/seeds/*.py hold the specs)
make: write seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json}.  test: apply in /repo, build, run tests, demo and the check, undo."""
import glob, json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(id, prop, file, edits, needs, breaks, demo, flags=''):
    S.append(dict(id=id, property=prop, file=file, edits=edits if isinstance(edits, list) else [edits], needs=needs, breaks=breaks, demo=demo, flags=flags))
for f in sorted(glob.glob(os.path.join(H, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap 'find "$out" -delete' EXIT
g++ -std=c++17 -I. -fno-exceptions -DDEBUG -D_DEBUG -D_LINUX -DPOSIX -O1 -g -w%s "$here/demo.cpp" -o "$out/demo" -lpthread -ldl || exit 98
cd "$out" && timeout 120 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def make(s):
    d = os.path.join(H, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        sh(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, a, b in [(e if len(e) == 3 else (s['file'],) + tuple(e)) for e in s['edits']]:
            p = os.path.join(t, 'r', f)
            x = open(p).read()
            assert x.count(a) == 1, (s['id'], f, x.count(a), a)
            open(p, 'w').write(x.replace(a, b))
        r = sh(['git', '-C', t + '/r', 'diff'])
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (' ' + s['flags'] if s['flags'] else ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def test(s, check=True):
    d = os.path.join(H, 'seeded', s['id'])
    r = sh(['bash', d + '/demo.sh'], cwd='/repo')
    ok = r.returncode
    a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode:
        print(s['id'], 'patch does not apply', a.stdout); return
    try:
        b = sh(['bash', '/opt/vp/build.sh'])
        j = tempfile.mktemp()
        t = sh(['bash', '/opt/vp/test.sh', j]).stdout.strip().split('\n')[-1]
        e = sh(['bash', d + '/demo.sh'], cwd='/repo')
        c = sh(['./check', s['property'], 'quick'], cwd=H) if check else None
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    vl = [l for l in (c.stdout.split('\n') if c else []) if 'VIOLATION' in l]
    print('%-28s %s demo clean=%d build=%d tests=[%s] demo patched=%d check=%s %s' % (s['id'], s['property'], ok, b.returncode, t, e.returncode, c.returncode if c else '-', vl), flush=True)
    if ok or not e.returncode:
        print('   ', r.stdout[-500:], e.stdout[-500:])
mode, ids = sys.argv[1], sys.argv[2:]
for s in S:
    if ids and s['id'] not in ids and s['property'] not in ids:
        continue
    if mode == 'make':
        make(s)
    else:
        test(s)
if mode == 'test':
    sh(['bash', '/opt/vp/build.sh'])
