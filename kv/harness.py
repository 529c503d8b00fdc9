"""Targets: one per function (or small call sequence) under contract."""
import os
import subprocess
import sys
import time
import traceback
import z3
from .prove import *
from .core import *
from .exec import Exec, Missed, Obligation
from . import ir, lib

REPO = os.environ.get('KV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFLAGS = ['-std=c++17', '-I' + REPO, '-I' + os.path.join(HERE, 'inst'), '-fno-exceptions', '-D_LINUX', '-DPOSIX',
          '-gline-tables-only', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
          '-fno-threadsafe-statics', '-fno-access-control', '-Wno-everything', '-S', '-emit-llvm']
DEBUG = ['-DDEBUG', '-D_DEBUG']


class ExtractionError(Exception):
    pass


def extract(src, out, extra=(), debug=True):
    cmd = ['clang++-18'] + CFLAGS + (DEBUG if debug else ['-DNDEBUG']) + list(extra) + [src, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise ExtractionError(p.stdout[-3000:])
    with open(out) as f:
        return ir.Module(f.read())


class Target:
    def __init__(self, name, fn, doc='', vacuous=False, opts=None, timeout=None, replay=None):
        self.name, self.fn, self.doc, self.vacuous = name, fn, doc, vacuous
        self.opts = opts or {}
        self.timeout = timeout
        self.replay = replay


class Targets:
    def __init__(self):
        self.items = []

    def add(self, name, doc='', **kw):
        def deco(fn):
            self.items.append(Target(name, fn, doc, **kw))
            return fn
        return deco


class H:
    """what a target's specification works with"""

    def __init__(self, mod, target, deadline=None, tier='quick', contracts=(), timeout=20.0):
        o = {'timeout': timeout}
        o.update(target.opts)
        self.ex = Exec(mod, opts=o)
        self.ex.deadline = deadline
        self.mod = mod
        self.st = State()
        self.inputs = {}
        self.target = target
        self.tier = tier
        self.reached = 0
        for c in contracts:
            self.use(c)
        self.use(lib.rt)
        self.ex.loop_specs.append(lib.fill_templates)

    def use(self, c):
        self.ex.handlers = self.ex.handlers + c.items
        self.ex.hcache = {}

    def bv(self, name, n=64):
        v = z3.BitVec(name, n)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return v

    def assume(self, *c):
        self.st.assume(*c)

    def run(self, fname, *args, st=None):
        """call fname in st; -> final states"""
        s = (st or self.st).copy()
        args = [BV(a) if isinstance(a, int) else a for a in args]
        depth = len(s.frames) + 1
        f = self.mod.funcs.get(fname)
        if f is None:
            raise Unsupported('no function ' + fname)
        if len(args) != len(f.params):
            raise Unsupported('%s takes %d arguments' % (fname, len(f.params)))
        self.ex.start(fname, args, s)
        out = self.ex.explore([s], depth)
        r = out['ret']
        self.ex.finish_loops()
        res = [x for x in r if not x.dead]
        return res

    def seq(self, states, fname, mkargs):
        """run fname from each of the states"""
        out = []
        for s in states:
            out += self.run(fname, *mkargs(s), st=s)
        return out

    def check(self, st, goal, label, **kw):
        if not st.dead:
            self.reached += 1
        return self.ex.oblige(st, goal, 'post', label, **kw)

    def arbitrary(self, name, size, kind='param', st=None):
        """an object whose bytes are arbitrary"""
        st = st or self.st
        p = st.new_cells(name, size, kind)
        o = st.w(p.obj)
        o.user = dict(o.user)
        cache = {}

        def lazy(ex, s, ob, off, n, t):
            # one fresh value per location of this object, shared by all paths
            v = cache.get((off, n))
            if v is None:
                v = cache[(off, n)] = fresh_bv('%s.%d' % (name, off), n * 8)
            cell_write(s.w(ob.id), off, n, v)
            return v
        o.user['lazy'] = lazy
        return p

    def raw(self, name, size, kind='param', st=None):
        """uninitialised storage"""
        return (st or self.st).new_cells(name, size, kind)

    def const(self, name):
        """value of an integer constant defined in the instantiation file"""
        c, ty, init = self.mod.parse_global(name)
        return init[1]

    def strlit(self, st, p):
        return st.mem[p.obj].user['bytes']


def model_inputs(h, model):
    out = {}
    if model is None:
        return out
    for k, v in h.inputs.items():
        try:
            x = model.eval(v, model_completion=True)
            out[k] = x.as_long() if z3.is_bv_value(x) else str(x)
        except Exception:
            pass
    return out


def run_target(mod, target, deadline, tier, contracts, timeout):
    """-> plain result dict"""
    t0 = time.time()
    res = {'name': target.name, 'doc': target.doc, 'error': None, 'obligations': [], 'functions': [], 'assumed': [],
           'paths': 0, 'undecided': None}
    h = None
    try:
        h = H(mod, target, deadline, tier, contracts, timeout)
        target.fn(h)
        if not h.reached and not target.vacuous and not any(o.status != 'proved' for o in h.ex.obligations):
            res['undecided'] = 'no path reaches a postcondition (vacuous)'
    except Missed:
        target.opts = dict(target.opts, all=True)
        return run_target(mod, target, deadline, tier, contracts, timeout)
    except Unsupported as e:
        res['undecided'] = str(e)
        if os.environ.get('KV_TRACE'):
            traceback.print_exc()
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, NotImplementedError, AssertionError,
            RecursionError, SyntaxError, z3.Z3Exception) as e:
        res['undecided'] = 'internal: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
        if os.environ.get('KV_TRACE'):
            traceback.print_exc()
    if h is not None:
        ex = h.ex
        obs = []
        for o in ex.obligations:
            obs.append({'kind': o.kind, 'label': o.label, 'where': o.where, 'status': o.status, 'time': round(o.time, 3),
                        'detail': o.detail if o.status != 'proved' else '', 'trivial': o.detail == 'trivial',
                        'inputs': model_inputs(h, o.model) if o.model is not None else {}})
        res['obligations'] = obs
        res['functions'] = sorted(ex.short(f) for f in ex.used_funcs)
        res['assumed'] = sorted(ex.assumed)
        res['paths'] = ex.paths
        st = ex.prover.stats
        res['queries'], res['solver_s'] = st.queries, st.time
        res['backends'] = st.backends
        res['loops'] = ex.loop_stats
    res['wall'] = time.time() - t0
    return res
