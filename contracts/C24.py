"""C24: thread-local slots return the calling thread's last value.

The system's keys are ghost state: which keys this slot created, which of them still exist, and what each thread stored
under each.  Another thread's complete operation is run at every access to the slot and every system call of an
operation (one per operation: bounded in that direction)."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C]
BOUNDED = {'concurrency': 'one complete operation of one other thread inside an operation, at every point; sequential histories of the slot: proved per operation'}
ASSUMPTIONS = ['weaker memory orders than sequential consistency are not modelled',
               'one operation of another thread inside an operation (not two that both are suspended)']


def key_use(ex, st, k, what):
    """-> index of the live key that k is"""
    live = [i for i, (v, l) in enumerate(st.ghost.get('keys', ())) if l]
    if k is UNDEF or not live:
        ex.oblige(st, FALSE, 'key', '%s uses only the key this slot obtained' % what)
        return None
    ks = st.ghost['keys']
    ex.oblige(st, Or(*[k == ks[i][0] for i in live]), 'key', '%s uses only the key this slot obtained' % what)
    if st.dead:
        return None
    for i in live:
        if ex.must(st, k == ks[i][0]):
            return i
    raise Unsupported('which key is meant')


@C.on(exact('pthread_key_create'), 'pthread_key_create: a key nobody else has, holding null in every thread, or failure that changes nothing')
def create(ex, st, ins, av):
    outs = []
    s2 = st.copy()
    e = fresh_bv('createerr', 32)
    s2.assume(e != 0)
    s2.ghost['failed'] = True
    s2.event('createfail')
    ex.setr(s2, ins, e)
    k = fresh_bv('key', 32)
    for v, l in st.ghost.get('keys', ()):
        if l:
            st.assume(k != v)
    ex.store(st, av[0], ('int', 32), k)
    st.ghost['keys'] = st.ghost.get('keys', ()) + ((k, True),)
    st.event('create')
    ex.setr(st, ins, BV(0, 32))
    return [st, s2]


@C.on(exact('pthread_key_delete'), 'pthread_key_delete: ends a key that exists')
def delete(ex, st, ins, av):
    i = key_use(ex, st, av[0], 'pthread_key_delete')
    if i is None:
        return 'dead'
    ks = list(st.ghost['keys'])
    ks[i] = (ks[i][0], False)
    st.ghost['keys'] = tuple(ks)
    st.event('delete')
    ex.setr(st, ins, BV(0, 32))


@C.on(exact('pthread_getspecific'), "pthread_getspecific: the calling thread's value of a key that exists")
def getsp(ex, st, ins, av):
    i = key_use(ex, st, av[0], 'pthread_getspecific')
    if i is None:
        return 'dead'
    ex.setr(st, ins, dict(st.ghost.get('vals', ())).get((i, st.ghost.get('tid', 0)), NULL))


@C.on(exact('pthread_setspecific'), "pthread_setspecific: stores the calling thread's value of a key that exists, or fails and changes nothing")
def setsp(ex, st, ins, av):
    i = key_use(ex, st, av[0], 'pthread_setspecific')
    if i is None:
        return 'dead'
    s2 = st.copy()
    e = fresh_bv('seterr', 32)
    s2.assume(e != 0)
    s2.ghost['failed'] = True
    ex.setr(s2, ins, e)
    d = dict(st.ghost.get('vals', ()))
    d[(i, st.ghost.get('tid', 0))] = av[1]
    st.ghost['vals'] = tuple(d.items())
    st.event('setspecific')
    ex.setr(st, ins, BV(0, 32))
    return [st, s2]


@C.on(rx(r'^(sched_yield|pthread_yield|usleep|nanosleep)$'), 'waiting for another thread: that schedule is covered where the other thread runs first')
def sched(ex, st, ins, av):
    return 'dead'


def on_abort(ex, st):
    ex.oblige(st, z3.BoolVal(bool(st.ghost.get('failed'))), 'abort', 'the program is stopped only when the system refused a key or a value')
    return 'dead'


OPTS = {'on_abort': on_abort}


class Kind:
    def __init__(self, nm):
        self.nm = nm

    def slot(self, h):
        return h.raw('slot', h.const({'l': 'c24_size', 'i': 'c24_isize', 'u': 'c24_usize'}[self.nm]))

    def value(self, h, st, name):
        """-> (value, pointer to it)"""
        if self.nm == 'l':
            v = st.new_cells(name + '.target', 4)
            p = st.new_cells(name, 8)
            st.put(p, 8, v)
        else:
            n = 4 if self.nm == 'i' else 8
            v = h.bv(name, n * 8)
            p = st.new_cells(name, n)
            st.put(p, n, v)
        return v, p

    @property
    def default(self):
        return {'l': NULL, 'i': BV(0, 32), 'u': BV(0)}[self.nm]

    def same(self, h, s, a, b):
        return h.ex.any_eq(s, a, b)

    def run(self, h, op, *a, st=None):
        return h.run(self.nm + '_' + op, *a, st=st)


def live_keys(s):
    return [v for v, l in s.ghost.get('keys', ()) if l]


def settle(h, k, s, p, want, what):
    """every thread reads what it stored; ending the slot gives its key back"""
    keys = len(live_keys(s))
    h.check(s, z3.BoolVal(keys <= 1), what + ': at most one key')
    for tid, v in want.items():
        s1 = s.copy()
        s1.ghost['tid'] = tid
        s1.log = ()
        for s2 in k.run(h, 'get', p, st=s1):
            h.check(s2, k.same(h, s2, s2.ret, v), '%s: thread %d reads what it stored last' % (what, tid))
            h.check(s2, z3.BoolVal(not events(s2, 'create') and not events(s2, 'setspecific') and not events(s2, 'delete')), 'reading changes nothing')
    s1 = s.copy()
    s1.log = ()
    for s2 in k.run(h, 'end', p, st=s1):
        h.check(s2, z3.BoolVal(len(events(s2, 'delete')) == keys and not live_keys(s2)), what + ': the key is given back exactly once')
        h.check(s2, z3.BoolVal(not events(s2, 'create')), what + ': ending obtains no key')


def seq(nm):
    @T.add('%s history' % {'l': 'pointer', 'i': 'int', 'u': 'uintptr_t'}[nm], 'store, read, allocate, end; key creation succeeding or failing', opts=OPTS)
    def t(h):
        h.ex.no_term = True
        k = Kind(nm)
        p = k.slot(h)
        v, vp = k.value(h, h.st, 'v')
        w, wp = k.value(h, h.st, 'w')
        D = k.default

        def chk(s, want, what):
            settle(h, k, s, p, want, what)
        for s0 in k.run(h, 'new', p):
            h.check(s0, z3.BoolVal(not events(s0, 'create')), 'a new slot has no key')
            chk(s0, {0: D, 1: D}, 'new slot')
            for s1 in k.run(h, 'alloc', p, st=s0):
                ok = len(live_keys(s1)) == 1
                h.check(s1, B(s1.ret) == z3.BoolVal(ok), 'allocate reports whether the slot has a key')
                chk(s1, {0: D, 1: D}, 'after allocate')
                for s2 in k.run(h, 'alloc', p, st=s1):
                    ok2 = len(live_keys(s2)) == 1
                    h.check(s2, z3.BoolVal(ok2 or not ok), 'the key stays')
                    h.check(s2, B(s2.ret) == z3.BoolVal(ok2), 'allocate reports whether the slot has a key')
                    chk(s2, {0: D, 1: D}, 'after allocate twice')
                for s2 in k.run(h, 'set', p, vp, st=s1):
                    h.check(s2, z3.BoolVal(len(live_keys(s2)) == 1), 'storing needs a key')
                    chk(s2, {0: v, 1: D}, 'allocate and store')
            for st_ in ('set', 'assign'):
                for s1 in k.run(h, st_, p, vp, st=s0):
                    h.check(s1, z3.BoolVal(len(events(s1, 'create')) == 1), 'storing obtains one key')
                    chk(s1, {0: v, 1: D}, 'after storing')
                    for s2 in k.run(h, st_, p, wp, st=s1):
                        h.check(s2, z3.BoolVal(len(events(s2, 'create')) == 1), 'the key is reused')
                        chk(s2, {0: w, 1: D}, 'after storing again')
                    s1.ghost['tid'] = 1
                    for s2 in k.run(h, st_, p, wp, st=s1):
                        h.check(s2, z3.BoolVal(len(events(s2, 'create')) == 1), 'the key is shared by all threads')
                        chk(s2, {0: v, 1: w, 2: D}, 'two threads storing')

    @T.add('%s operators' % {'l': 'pointer', 'i': 'int', 'u': 'uintptr_t'}[nm], 'operators read or store the value', opts=OPTS)
    def t2(h):
        h.ex.no_term = True
        k = Kind(nm)
        p = k.slot(h)
        v, vp = k.value(h, h.st, 'v')
        w, wp = k.value(h, h.st, 'w')
        d, dp = k.value(h, h.st, 'd')
        h.st.put(dp, 8 if nm != 'i' else 4, k.default)
        for s0 in k.run(h, 'new', p):
            cases = [(s0, k.default)] + [(s1, v) for s1 in k.run(h, 'set', p, vp, st=s0)]
            for s, cur in cases:
                for op in ('star', 'arrow'):
                    for x in k.run(h, op, p, st=s):
                        h.check(x, k.same(h, x, x.ret, cur), 'operator %s gives the value' % op)
                for x in k.run(h, 'not', p, st=s):
                    h.check(x, B(x.ret) == k.same(h, x, cur, k.default), '! tests for the default')
                for q, val in ((vp, v), (wp, w), (dp, k.default)):
                    for x in k.run(h, 'eq', p, q, st=s):
                        h.check(x, B(x.ret) == k.same(h, x, cur, val), '== compares the value')
                    for x in k.run(h, 'ne', p, q, st=s):
                        h.check(x, B(x.ret) == Not(k.same(h, x, cur, val)), '!= compares the value')


for n in 'liu':
    seq(n)


def conc(outer, start):
    def il(ex, st, ins):
        if st.ghost.get('switched', True):
            return None
        if ins.op != 'call':
            pv = ins.args[1] if ins.op in ('store', 'atomicrmw') else ins.args[0]
            try:
                q = ex.val(st, ('ptr',), pv)
            except (KeyError, Unsupported):
                return None
            if not isinstance(q, Ptr) or q.obj != st.ghost['slot'].obj:
                return None
        outs = []
        for op in ('get', 'set', 'alloc'):
            s2 = st.copy()
            s2.ghost['switched'] = True
            s2.ghost['tid'] = 1
            s2.ghost['other'] = op

            def back(ex, s, v, op=op):
                s.ghost['tid'] = 0
                s.ghost['otherret'] = v
            args = [s2.ghost['slot']] + ([s2.ghost['otherv']] if op == 'set' else [])
            ex.call(s2, 'u_' + op, args, back)
            outs.append(s2)
        return outs

    o = dict(OPTS)
    o.update(interleave=il, switch_calls={'pthread_key_create', 'pthread_getspecific', 'pthread_setspecific'}, max_paths=20000)

    @T.add('another thread during %s of %s slot' % (outer, start), 'a complete operation of another thread at every point', opts=o)
    def t(h):
        h.ex.no_term = True
        k = Kind('u')
        p = k.slot(h)
        v, vp = k.value(h, h.st, 'v')
        w, wp = k.value(h, h.st, 'w')
        D = k.default
        h.st.ghost.update({'slot': p, 'otherv': wp})
        states = k.run(h, 'new', p)
        if start == 'an allocated':
            states = [x for s in states for x in k.run(h, 'alloc', p, st=s)]
        for s0 in states:
            s0 = s0.copy()
            s0.log = ()
            s0.ghost['switched'] = False
            was = len(live_keys(s0))
            for s in k.run(h, outer, *([p, vp] if outer == 'set' else [p]), st=s0):
                s.ghost['tid'] = 0
                s.ghost['switched'] = True
                op = s.ghost.get('other')
                h.check(s, z3.BoolVal(len(events(s, 'create')) + was <= 1), 'at most one key is obtained')
                if outer == 'get':
                    h.check(s, k.same(h, s, s.ret, D), 'reads the default')
                if op == 'get':
                    h.check(s, k.same(h, s, s.ghost['otherret'], D), 'the other thread reads the default')
                if op == 'alloc' or outer == 'alloc':
                    r = s.ghost['otherret'] if op == 'alloc' else s.ret
                    h.check(s, Implies(r, z3.BoolVal(len(live_keys(s)) == 1)), 'allocate reports a key only if there is one')
                settle(h, k, s, p, {0: v if outer == 'set' else D, 1: w if op == 'set' else D}, 'afterwards')


for o_ in ('set', 'get', 'alloc'):
    for s_ in ('a new', 'an allocated'):
        conc(o_, s_)
