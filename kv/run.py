"""Run the check of one property: extract, generate and discharge obligations, replay, report."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .harness import *

EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')

TRUSTED = [
    'clang 18 front end: C++ to LLVM IR (optimisation passes disabled)',
    'the obligation generator /verif/kv (symbolic semantics of LLVM IR, loop cutting, memory model: distinct objects '
    'do not overlap, a fresh allocation is disjoint from every other object, addresses below 2^47)',
    'z3 5.3.2 and, for multiplications and divisions of variables, cvc5 1.1.2',
]


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def child(conn, mod, target, deadline, tier, contracts, timeout):
    sys.setrecursionlimit(20000)
    try:
        r = run_target(mod, target, deadline, tier, contracts, timeout)
    except BaseException as e:
        r = {'name': target.name, 'doc': target.doc, 'obligations': [], 'functions': [], 'assumed': [], 'paths': 0,
             'undecided': 'internal: %r' % e, 'wall': 0}
    conn.send(r)
    conn.close()


def run_all(jobs, tier, contracts, budget, timeout, workers=8):
    """jobs: [(mod, target)] -> results in order"""
    ctx = mp.get_context('fork')
    res = [None] * len(jobs)
    running = {}
    nxt = 0
    t_end = time.time() + budget
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < workers:
            a, b = ctx.Pipe(False)
            mod, t = jobs[nxt]
            tl = min(t.timeout or budget, max(5, t_end - time.time()))
            p = ctx.Process(target=child, args=(b, mod, t, time.time() + tl, tier, contracts, timeout))
            p.start()
            b.close()
            running[nxt] = (p, a, time.time() + tl + 25)
            nxt += 1
        done = []
        for i, (p, a, dl) in running.items():
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = None
                done.append(i)
            elif not p.is_alive():
                done.append(i)
            elif time.time() > dl:
                p.kill()
                res[i] = {'name': jobs[i][1].name, 'doc': jobs[i][1].doc, 'obligations': [], 'functions': [], 'assumed': [],
                          'paths': 0, 'undecided': 'time budget exhausted', 'wall': 0}
                done.append(i)
        for i in done:
            p, a, dl = running.pop(i)
            p.join()
            a.close()
            if res[i] is None:
                res[i] = {'name': jobs[i][1].name, 'doc': jobs[i][1].doc, 'obligations': [], 'functions': [], 'assumed': [],
                          'paths': 0, 'undecided': 'verifier process ended', 'wall': 0}
        if not done:
            time.sleep(0.02)
    return res


def native(pid, bdir, seconds, seed, hints, tier):
    """bounded search on the real code.  -> dict"""
    src = os.path.join(HERE, 'replay', pid + '.cpp')
    if not os.path.exists(src):
        return {'status': 'none'}
    exe = os.path.join(bdir, pid + '.replay')
    flags, cxx = [], 'g++'
    with open(src) as f:
        for l in f:
            if l.startswith('// CXX:'):
                cxx = l.split(':', 1)[1].strip()
            if l.startswith('// FLAGS:'):
                flags += l.split(':', 1)[1].split()
    cmd = [cxx, '-std=c++17', '-I' + REPO, '-I' + os.path.join(HERE, 'replay'), '-fno-exceptions', '-DDEBUG', '-D_DEBUG',
           '-D_LINUX', '-DPOSIX', '-fno-threadsafe-statics', '-O1', '-g1', '-w', '-fsanitize=address,undefined',
           '-fno-sanitize-recover=undefined', src, '-o', exe, '-lpthread', '-ldl'] + flags
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        return {'status': 'nobuild', 'output': p.stdout[-3000:]}
    scratch = os.path.join(bdir, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_leaks=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98'
    if '-fno-sanitize=leak' in flags:
        env['ASAN_OPTIONS'] += ':detect_leaks=0'
    args = [exe, '--seconds', str(seconds), '--seed', str(seed), '--tier', tier]
    if hints:
        args += ['--hints', ','.join(str(x) for x in hints[:60])]
    outf = os.path.join(bdir, 'native.out')
    t0 = time.time()
    for attempt in (0, 1):
        with open(outf, 'w') as f:
            try:
                p = subprocess.run(args, stdout=f, stderr=subprocess.STDOUT, cwd=scratch, env=env, timeout=seconds * 3 + 60)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -100
        with open(outf, errors='replace') as f:
            out = f.read()
        if 'LeakSanitizer has encountered a fatal error' not in out and 'LeakSanitizer does not work under' not in out:
            break
        # leak checking needs privileges that are missing here
        env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
    if 'FATAL: ThreadSanitizer' in out and 'FAIL' not in out:
        return {'status': 'none', 'output': out[-500:]}
    cases = 0
    for l in out.split('\n'):
        if l.startswith('CASES '):
            cases = int(l.split()[1])
    st = 'ok' if rc == 0 else 'fail'
    if rc not in (0, 1, 97, 98, 99) and rc > 0 and 'FAIL' not in out and 'ERROR' not in out:
        st = 'fail'
    return {'status': st, 'rc': rc, 'cases': cases, 'output': out[-6000:] if st == 'fail' else out[-500:],
            'cmd': ' '.join(cmd), 'args': args[1:], 'wall': time.time() - t0}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', '--verbose', action='count', default=0)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = a.budget
    timeout = 20.0 if tier == 'quick' else 60.0
    os.makedirs(EVID, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix='kv-%s-' % pid)
    os.chmod(bdir, 0o755)
    try:
        return check(a, pid, tier, t0, seed, budget, timeout, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check(a, pid, tier, t0, seed, budget, timeout, bdir):
    sys.path.insert(0, HERE)
    cm = importlib.import_module('contracts.' + pid)
    budget = budget or (getattr(cm, 'BUDGET', 420) if tier == 'quick' else 2400)
    srcs = getattr(cm, 'SRCS', [pid])
    configs = [True] + ([False] if tier == 'thorough' and getattr(cm, 'NDEBUG', True) else [])
    jobs, notes, broken = [], [], []
    for dbg in configs:
        for s in srcs:
            src = os.path.join(HERE, 'inst', s + '.cpp')
            try:
                mod = extract(src, os.path.join(bdir, s + ('.d' if dbg else '.n') + '.ll'), getattr(cm, 'CXXFLAGS', ()), dbg)
            except (ExtractionError, SyntaxError) as e:
                broken.append('%s: %s' % (s, str(e)[-1500:]))
                continue
            T = cm.targets(mod, s) if hasattr(cm, 'targets') else cm.T
            for t in T.items:
                if a.only and a.only not in t.name:
                    continue
                if not dbg:
                    t2 = Target(t.name + ' [NDEBUG]', t.fn, t.doc, t.vacuous, dict(t.opts), t.timeout, t.replay)
                    t2.opts['ndebug'] = True
                    t = t2
                if a.verbose:
                    t.opts['verbose'] = a.verbose
                jobs.append((mod, t))
    t1 = time.time()
    results = run_all(jobs, tier, getattr(cm, 'CONTRACTS', []), budget, timeout)
    known = known_findings(pid)
    obl = disc = triv = 0
    refuted, unknown, undecided, knownhit = [], [], [], {}
    hints = []
    for r in results:
        for o in r['obligations']:
            obl += 1
            if o['status'] == 'proved':
                disc += 1
                triv += o['trivial']
            else:
                key = '%s/%s' % (r['name'].replace(' [NDEBUG]', ''), o['label'])
                hit = [k for k in known if k[0] == key]
                if hit:
                    knownhit[hit[0]] = o
                    obl -= 1
                    continue
                (refuted if o['status'] == 'refuted' else unknown).append((r['name'], o))
                hints += [v for v in o['inputs'].values() if isinstance(v, int)]
        if r['undecided']:
            undecided.append((r['name'], r['undecided']))
        if a.verbose:
            bad = [o for o in r['obligations'] if o['status'] != 'proved']
            print('%-50s %3d obl %3d bad  paths %d  q %s  %.1fs %s' %
                  (r['name'], len(r['obligations']), len(bad), r['paths'], r.get('queries'), r['wall'], r['undecided'] or ''))
            if r.get('trace') and a.verbose > 1:
                print(r['trace'])
            for o in bad[:6]:
                print('    %s %s: %s @%s (%.1fs) %s %s' % (o['status'], o['kind'], o['label'], o['where'], o['time'], o['detail'][:300], o['inputs']))
    bounded_always = getattr(cm, 'BOUNDED', {})     # component -> reason; never counted as proved
    need = bool(refuted or unknown or undecided or broken or bounded_always) or tier == 'thorough'
    nat = None
    if not a.no_native:
        # when everything is proved: a short run of the replay harness, as a check on the trusted base
        secs = getattr(cm, 'NATIVE_SECONDS', 12) if need else 3
        if tier == 'thorough':
            secs = max(secs * 10, 120)
        nat = native(pid, bdir, secs, seed, hints, tier)
    viol = False
    lines = []
    for k in known:
        if k in knownhit:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    rfile = os.path.join(EVID, 'replay-%s.txt' % pid)
    failed = ['%s: obligation "%s" (%s) at %s: %s%s' % (n, o['label'], o['kind'], o['where'], o['status'],
              '; counterexample inputs %s' % o['inputs'] if o['inputs'] else '') + '\n      goal: ' + o['detail']
              for n, o in refuted + unknown]
    if nat is not None and nat['status'] == 'fail':
        viol = True
        with open(rfile, 'w') as f:
            f.write('property %s violated: failing input on the real code\n\n%s\n' % (pid, nat['output']))
            f.write('\nreproduce (in a scratch directory): %s\n   then run it with %s\n' % (nat['cmd'], nat['args']))
            f.write('\nfailed or open obligations:\n  ' + '\n  '.join(failed) + '\n')
            f.write('undecided targets: %s\nextraction: %s\n' % (undecided, broken))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rfile))
    elif refuted or (broken and (nat is None or nat['status'] in ('nobuild', 'none'))):
        viol = True
        with open(rfile, 'w') as f:
            f.write('property %s: obligation not discharged, no failing input found\n\nfailed obligations:\n  %s\n' %
                    (pid, '\n  '.join(failed)))
            f.write('undecided targets: %s\nextraction: %s\n' % (undecided, broken))
            f.write('native search: %s\n' % (nat,))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rfile))
    elif os.path.exists(rfile):
        os.unlink(rfile)
    funcs = sorted({x for r in results for x in r['functions']})
    amtl_funcs = [x for x in funcs if x.startswith('ke::') or ' ke::' in x or 'ke::' in x[:60] or 'args::' in x]
    assumed = sorted({x for r in results for x in r['assumed']} | set(getattr(cm, 'ASSUMPTIONS', [])))
    backends, btime = {}, 0.0
    for r in results:
        for k, v in (r.get('backends') or {}).items():
            backends[k] = backends.get(k, 0) + v
        btime += r.get('solver_s') or 0
    boundednotes = ['%s: %s' % x for x in undecided] + ['extraction failed: %s' % b[:300] for b in broken] + \
        ['%s: %s' % x for x in bounded_always.items()] + \
        ['obligation open: %s %s' % (n, o['label']) for n, o in unknown]
    cov = {
        'obligations': obl, 'discharged': disc, 'trivially_true': triv,
        'checker_cmd': 'python3-vt -m kv.run %s --tier %s' % (pid, tier),
        'trusted_base': TRUSTED,
        'targets': [{'name': r['name'], 'contract': r['doc'], 'obligations': len(r['obligations']),
                     'discharged': sum(o['status'] == 'proved' for o in r['obligations']), 'paths': r['paths'],
                     'loops': r.get('loops', {}), 'wall_s': round(r['wall'], 2), 'undecided': r['undecided']} for r in results],
        'functions_under_contract': amtl_funcs,
        'backends_queries': backends, 'solver_s': round(btime, 2),
        'obligation_kinds': {},
        'bounded_stand_ins': boundednotes,
        'samples': [{'target': r['name'], 'obligation': o['label'], 'kind': o['kind'], 'at': o['where']}
                    for r in results for o in r['obligations'][-1:] if o['status'] == 'proved'][:8],
    }
    for r in results:
        for o in r['obligations']:
            cov['obligation_kinds'][o['kind']] = cov['obligation_kinds'].get(o['kind'], 0) + 1
    if nat is not None:
        cov['native_bounded'] = {'status': nat['status'], 'cases': nat.get('cases', 0),
                                 'bound': getattr(cm, 'NATIVE_BOUND', 'see /verif/replay/%s.cpp' % pid)}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': assumed,
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    if not a.no_evidence:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d obligations, %d discharged, %d targets, %d undecided, %d open%s, %.1f s' %
          (pid, tier, obl, disc, len(results), len(undecided), len(unknown) + len(refuted),
           '' if nat is None else ', native %s (%s cases)' % (nat['status'], nat.get('cases', 0)), time.time() - t0))
    for x in undecided:
        print('  undecided %s: %s' % x)
    if nat is not None and nat['status'] in ('nobuild',) and a.verbose:
        print(nat['output'])
    if broken and a.verbose:
        print('\n'.join(broken))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
