"""C30: mutex ownership checks agree with who holds the lock.

The underlying mutex is ghost state: which thread holds it.  The recorded owner is whatever the object keeps beside the
system mutex; it may change only while the thread doing so holds the mutex."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C]
BOUNDED = {'concurrency': 'one complete operation of one other thread inside an operation, at every point; histories of complete operations: proved'}
ASSUMPTIONS = ['weaker memory orders than sequential consistency are not modelled (AssertCurrentThreadOwns of a thread that does not hold the mutex reads the owner without synchronisation)',
               'at any moment at most three threads are looked at: the one acting, the one holding the mutex, and another']


def mine(ex, st, p):
    m = st.ghost.get('mutex')
    if m is None or not isinstance(p, Ptr) or p.obj != m.obj or not norm(p.off).eq(norm(m.off)):
        ex.oblige(st, FALSE, 'mutex', 'only this mutex is operated on')
        return False
    return True


@C.on(exact('pthread_mutex_lock'), 'pthread_mutex_lock: waits until no thread holds the mutex, then the caller does')
def lock(ex, st, ins, av):
    if not mine(ex, st, av[0]):
        return 'dead'
    st.event('lock')
    if st.ghost['holder'] is not None:
        return 'dead'            # waits; covered where the holder runs first
    st.ghost['holder'] = st.ghost['tid']
    ex.setr(st, ins, BV(0, 32))


@C.on(exact('pthread_mutex_trylock'), 'pthread_mutex_trylock: takes the mutex if no thread holds it, else fails and changes nothing')
def trylock(ex, st, ins, av):
    if not mine(ex, st, av[0]):
        return 'dead'
    st.event('trylock')
    if st.ghost['holder'] is None:
        st.ghost['holder'] = st.ghost['tid']
        ex.setr(st, ins, BV(0, 32))
    else:
        ex.setr(st, ins, BV(16, 32))


@C.on(exact('pthread_mutex_unlock'), 'pthread_mutex_unlock: the holder gives the mutex up')
def unlock(ex, st, ins, av):
    if not mine(ex, st, av[0]):
        return 'dead'
    st.event('unlock')
    ex.oblige(st, z3.BoolVal(st.ghost['holder'] == st.ghost['tid']), 'mutex', 'only the holder releases the mutex')
    if st.dead:
        return 'dead'
    st.ghost['holder'] = None
    ex.setr(st, ins, BV(0, 32))


@C.on(exact('pthread_self'), "pthread_self: the calling thread's identity, different for different threads and never zero")
def self_(ex, st, ins, av):
    ex.setr(st, ins, st.ghost['ids'][st.ghost['tid']])


@C.on(exact('pthread_mutex_init', 'pthread_mutex_destroy'), 'pthread_mutex_init/destroy')
def init(ex, st, ins, av):
    ex.setr(st, ins, BV(0, 32))


@C.on(exact('__gthread_active_p', '__gthrw_pthread_key_create'), 'the process has threads')
def active(ex, st, ins, av):
    ex.setr(st, ins, BV(1, 32))


def new(h, il=None):
    ids = [h.bv('thread%d' % i) for i in range(3)]
    h.assume(z3.Distinct(*ids), *[i != 0 for i in ids])
    h.st.ghost.update({'ids': ids, 'tid': 0, 'holder': None, 'noguard': True})
    p = h.raw('mutex', h.const('c30_size'))
    h.st.ghost['mutex'] = p
    ms = h.const('c30_msize')
    sts = h.run('m_new', p)
    outs = []
    for s in sts:
        s.log = ()
        s.ghost.pop('noguard')
        o = s.w(p.obj)
        o.user = dict(o.user)

        def guard(ex, st, o, q, n, write):
            off = simp(q.off)
            if not write or not isval(off) or st.ghost.get('noguard'):
                return
            if off.as_long() + n > ms:
                ex.oblige(st, z3.BoolVal(st.ghost['holder'] == st.ghost['tid']), 'ownership', 'ownership is recorded only while the mutex is held')
        o.user['on_access'] = guard
        outs.append(s)
    return p, outs


def act(h, s, op, p, tid):
    s = s.copy()
    s.ghost['tid'] = tid
    s.log = ()
    return h.run('m_' + op, p, st=s)


def owns(h, s, p, what):
    """the assertion passes for the holder and for nobody else"""
    for t in range(3):
        s1 = s.copy()
        s1.ghost['tid'] = t
        s1.log = ()
        if s.ghost['holder'] == t:
            h.ex.opts['assert_stops'] = None
            r = h.run('m_assert', p, st=s1)
            for x in r:
                h.check(x, z3.BoolVal(not x.log), 'the check operates on no mutex')
        else:
            h.ex.opts['assert_stops'] = lambda m: True
            for x in h.run('m_assert', p, st=s1):
                h.check(x, FALSE, '%s: the check fails for a thread that does not hold the mutex' % what)
            h.ex.opts['assert_stops'] = None
            h.check(s1, TRUE, '%s: the check was made' % what)


def expect(h, s, holder, evs, what):
    h.check(s, z3.BoolVal(s.ghost['holder'] == holder), '%s: held by the right thread' % what)
    h.check(s, z3.BoolVal([e[0] for e in s.log] == evs), '%s: exactly one operation on the underlying mutex' % what)


@T.add('histories', 'every operation in every state, by the holder and by others')
def hist(h):
    p, sts = new(h)
    free = []
    for s in sts:
        owns(h, s, p, 'new mutex')
        free.append(s)
    held = []
    rounds = []
    for rnd in range(2):
        nheld = []
        for s in free:
            for op in ('lock', 'try'):
                for x in act(h, s, op, p, 0):
                    expect(h, x, 0, [{'lock': 'lock', 'try': 'trylock'}[op]], op)
                    if op == 'try':
                        h.check(x, B(x.ret), 'a successful try_lock says so')
                    owns(h, x, p, 'after ' + op)
                    nheld.append(x)
        nfree = []
        for s in nheld:
            for t in (0, 1):
                for x in act(h, s, 'try', p, t):
                    expect(h, x, 0, ['trylock'], 'failed try_lock')
                    h.check(x, Not(B(x.ret)), 'a failed try_lock says so')
                    owns(h, x, p, 'after a failed try_lock')
                    if t == 1:
                        for y in act(h, x, 'unlock', p, 0):
                            owns(h, y, p, 'unlock after a failed try_lock')
            for x in act(h, s, 'unlock', p, 0):
                expect(h, x, None, ['unlock'], 'unlock')
                owns(h, x, p, 'after unlock')
                nfree.append(x)
                for op in ('lock', 'try'):
                    for y in act(h, x, op, p, 1):
                        expect(h, y, 1, [{'lock': 'lock', 'try': 'trylock'}[op]], 'another thread')
                        owns(h, y, p, 'after another thread\'s ' + op)
                        for z in act(h, y, 'unlock', p, 1):
                            expect(h, z, None, ['unlock'], 'unlock')
                            owns(h, z, p, 'after another thread\'s unlock')
        # the abstract state is the object's bytes: going on from one representative of each
        free = nfree[:1]


@T.add('standard guards', 'lock_guard and unique_lock on a Mutex keep the record')
def guards(h):
    p, sts = new(h)
    for s in sts:
        for op, evs in (('guard', ['lock', 'unlock']), ('unique', ['lock', 'unlock', 'lock', 'unlock']), ('utry', ['trylock', 'unlock'])):
            for x in act(h, s, op, p, 0):
                expect(h, x, None, evs, op)
                owns(h, x, p, 'after ' + op)
        for s1 in act(h, s, 'lock', p, 1):
            for x in act(h, s1, 'utry', p, 0):
                expect(h, x, 1, ['trylock'], 'failed unique_lock')
                owns(h, x, p, 'after a failed unique_lock')


def conc(op, start):
    def il(ex, st, ins):
        if st.ghost.get('switched', True):
            return None
        if ins.op != 'call':
            pv = ins.args[1] if ins.op in ('store', 'atomicrmw') else ins.args[0]
            try:
                q = ex.val(st, ('ptr',), pv)
            except (KeyError, Unsupported):
                return None
            if not isinstance(q, Ptr) or q.obj != st.ghost['mutex'].obj:
                return None
        outs = []
        hd = st.ghost['holder']
        for o in (('m_unlock',) if hd == 1 else ('m_lock', 'm_try', 'm_lockunlock') if hd is None else ('m_try',)):
            s2 = st.copy()
            s2.ghost.update({'switched': True, 'tid': 1, 'other': o})

            def back(ex, s, v):
                s.ghost['tid'] = 0
            ex.call(s2, o, [s2.ghost['mutex']], back)
            outs.append(s2)
        return outs

    o = {'interleave': il, 'switch_calls': {'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock'}}

    @T.add('another thread during %s of a mutex held by %s' % (op, start), 'a complete operation of another thread at every point', opts=o)
    def t(h):
        p, sts = new(h)
        if start is not None:
            sts = [x for s in sts for x in act(h, s, 'lock', p, start)]
        for s0 in sts:
            s0 = s0.copy()
            s0.ghost['switched'] = False
            s0.ghost['tid'] = 0
            s0.log = ()
            for s in h.run('m_' + op, p, st=s0):
                s.ghost['switched'] = True
                if op == 'lock':
                    h.check(s, z3.BoolVal(s.ghost['holder'] == 0), 'lock returns only when the caller holds the mutex')
                elif op == 'try':
                    if start != 0:
                        h.check(s, B(s.ret) == z3.BoolVal(s.ghost['holder'] == 0), 'try_lock says whether the caller holds the mutex')
                else:
                    h.check(s, z3.BoolVal(s.ghost['holder'] != 0), 'after unlock the caller does not hold the mutex')
                owns(h, s, p, 'afterwards')


for op_, starts in (('lock', (None, 1)), ('try', (None, 0, 1)), ('unlock', (0,))):
    for s_ in starts:
        conc(op_, s_)
