"""C32: a named thread runs its callable exactly once, in the new thread, named.

The new thread touches only what it was handed (its state object, owned by nobody else) -- shown by running its body where
every object of the starting thread has already ended -- so its steps commute with those of the starting thread, and the two
extreme schedules (the body runs inside the start, the body runs after everything the starter had is gone) stand for all."""
from kv.cxxstd import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
CALL = {'Job': TokSpec('Job', 8), 'Job0': TokSpec('Job0', 24)}
C = Contracts()
CONTRACTS = [tok.ct, C, sc, lc] + [c.ct for c in CALL.values()]
ASSUMPTIONS = ['std::thread::_M_start_thread (libstdc++): takes the state object; a new thread runs its _M_run exactly once and destroys it; '
               'the thread is joinable until joined', 'starting a thread does not fail (the project is built without exceptions)',
               'the callable, its copies and its arguments do not throw']
SELF, NEW = BV(0x7001), BV(0x7002)


@C.on(rx(r'^std::thread::_M_start_thread\(std::unique_ptr<.*>, void \(\*\)\(\)\)$'), 'std::thread::_M_start_thread: hands the state to a new thread')
def start(ex, st, ins, av):
    s = ex.load(st, av[1], ir.PTR)
    if not isinstance(s, Ptr) or s.obj is None:
        ex.oblige(st, FALSE, 'thread', 'a thread is started with a state')
        return 'dead'
    ex.store(st, av[1], ir.PTR, NULL)
    ex.oblige(st, ex.load(st, av[0], ir.I64) == 0, 'thread', 'a thread object starts one thread')
    if st.dead:
        return 'dead'
    ex.store(st, av[0], ir.I64, NEW)
    st.event('start', s.obj)
    st.ghost['state'] = s
    if st.ghost.get('at once'):
        st.ghost['tid'] = 1

        def back(ex, x, v):
            x.ghost['tid'] = 0
            x.ghost['state'] = None
        ex.call(st, 'c32_body', [s], back)
    return [st]


@C.on(rx(r'^std::thread::_State::~_State\(\)$'), 'std::thread::_State::~_State(): nothing to release')
def no_state(ex, st, ins, av):
    pass


@C.on(rx(r'^std::thread::join\(\)$'), 'std::thread::join: waits for a joinable thread, which is then not joinable')
def join(ex, st, ins, av):
    ex.oblige(st, ex.load(st, av[0], ir.I64) == NEW, 'thread', 'only a started thread is joined')
    if st.dead:
        return 'dead'
    ex.store(st, av[0], ir.I64, BV(0))


@C.on(exact('pthread_self'), 'pthread_self: the calling thread')
def self_(ex, st, ins, av):
    ex.setr(st, ins, NEW if st.ghost.get('tid') else SELF)


@C.on(exact('pthread_setname_np'), 'pthread_setname_np: names a thread with a string of this moment')
def setname(ex, st, ins, av):
    f, L = st.ghost['name']
    n = scan(ex, st, av[1], None, B0, 'name')
    if n is None:
        return 'dead'
    g, off = st.mem[av[1].obj].data[0], norm(av[1].off)
    ex.oblige(st, n == L, 'name', 'the name given: length')
    ex.oblige(st, Q('i', lambda i: Implies(ULT(i, L), g(norm(off + i)) == f(i))), 'name', 'the name given: characters')
    st.event('setname', av[0], st.ghost.get('tid', 0))
    ex.setr(st, ins, fresh_bv('setname', 32))
    return 'dead' if st.dead else None


@C.on(rx(r'^(Job|Job0)::operator\(\)\((?:unsigned long, Tok const&)?\)$'), 'running a live callable with live arguments')
def call(ex, st, ins, av):
    cls = ex.dem[ins.args[0][1]].split('::')[0]
    v = CALL[cls].read(ex, st, av[0], 'called object')
    if st.dead:
        return 'dead'
    args = ()
    if len(av) > 2:
        t = tok.read(ex, st, av[2], 'argument')
        if st.dead:
            return 'dead'
        args = (av[1], t)
    st.event('call', cls, v, args, st.ghost.get('tid', 0))
    if ins.res is not None:
        ex.setr(st, ins, fresh_bv('result', 64))


@C.on(exact('plainjob', 'plainjob(unsigned long, Tok const&)'), 'running a plain function')
def plain(ex, st, ins, av):
    t = tok.read(ex, st, av[1], 'argument')
    if st.dead:
        return 'dead'
    st.event('call', 'plain', BV(0, 64), (av[0], t), st.ghost.get('tid', 0))


def ran(h, s, cls, v, args, what):
    """the body: name first, then the callable once, all in the new thread"""
    ev = [e for e in s.log if e[0] in ('setname', 'call')]
    ok = [e[0] for e in ev] == ['setname'] * (len(ev) - 1) + ['call'] and len(ev) > 1
    h.check(s, z3.BoolVal(ok), '%s: named, then the callable runs once' % what)
    if not ok:
        return
    for e in ev[:-1]:
        h.check(s, And(e[1] == NEW, z3.BoolVal(e[2] == 1)), '%s: the new thread is named' % what)
    ev = [None, ev[-1]]
    h.check(s, z3.BoolVal(ev[1][4] == 1), '%s: the callable runs in the new thread' % what)
    h.check(s, z3.BoolVal(ev[1][1] == cls), '%s: the given callable runs' % what)
    if ev[1][1] == cls:
        h.check(s, And(ev[1][2] == v, *[a == b for a, b in zip(ev[1][3], args)]), '%s: the given callable with the given arguments' % what)


def tokens(s):
    n = 0
    for o in s.mem.values():
        if isinstance(o, Cells) and o.live:
            n += sum(1 for (nm, off), v in o.shadow.items() if nm == 'live' and not isfalse(v))
    return n


for _fn in ('lval', 'clval', 'rval', 'plain', 'none'):
    for _once in (True, False):
        @T.add('NewThread %s, body %s' % (_fn, 'runs at once' if _once else 'runs when the starter is gone'), 'named, then run once with copies of its own')
        def t(h, fn=_fn, once=_once):
            h.ex.loop_specs.append(byte_templates())
            L = h.bv('name length')
            nm = cstring(h, 'name', L)
            h.ex.vocab.append(L)
            st = h.st
            st.ghost['name'] = (data(st, nm), L)
            st.ghost['at once'] = once
            out = h.raw('out', 8)
            cls = {'plain': 'plain', 'none': 'Job0'}.get(fn, 'Job')
            own = []
            args = ()
            if cls != 'plain':
                v = h.bv('callable', CALL[cls].size * 8)
                f = st.new_cells('callable', CALL[cls].size, 'param', 8)
                CALL[cls].make(st, f, v)
                own.append((CALL[cls], f, v))
            else:
                v = BV(0)
            a, tv = h.bv('a'), h.bv('t')
            call_args = [own[0][1]] if own else []
            if fn != 'none':
                t = tok.make_obj(st, 't', tv)
                own.append((tok, t, tv))
                args = (a, tv)
                if fn in ('lval', 'clval'):
                    ap = st.new_cells('a', 8)
                    st.put(ap, 8, a)
                    call_args += [ap, t]
                else:
                    call_args += [a, t]
            for s in h.run('c32_' + fn, out, nm, *call_args):
                h.check(s, z3.BoolVal(len(events(s, 'start')) == 1), 'NewThread: one thread is started')
                for spec, p, val in own:
                    h.check(s, spec.live_at(s, p), "NewThread: the caller's objects stay alive")
                    if fn != 'rval':
                        h.check(s, spec.val_at(s, p) == val, "NewThread: the caller's objects keep their values")
                if once:
                    ran(h, s, cls, v, args, 'NewThread')
                    ends = [s]
                else:
                    h.check(s, z3.BoolVal(not [e for e in s.log if e[0] in ('setname', 'call')]), 'NewThread: nothing runs in the starting thread')
                    ends = []
                    state = s.ghost['state']
                    if s.dead or not state:
                        continue
                    # the starter's objects end first
                    for spec, p, val in own:
                        spec.end(h.ex, s, p)
                        s.w(p.obj).live = False
                    s.w(nm.obj).live = False
                    if fn in ('lval', 'clval'):
                        s.w(ap.obj).live = False
                    s.ghost['tid'] = 1
                    for s2 in h.run('c32_body', state, st=s):
                        s2.ghost['tid'] = 0
                        ran(h, s2, cls, v, args, 'NewThread')
                        ends.append(s2)
                for s2 in ends:
                    for s3 in h.run('c32_get', out, st=s2):
                        h.check(s3, Not(h.ex.ptr_eq(s3, s3.ret, NULL)), 'NewThread: a thread is returned')
                        for s4 in h.run('c32_joinable', out, st=s3):
                            h.check(s4, s4.ret, 'NewThread: the thread returned is the one started')
                            for s5 in h.run('c32_join', out, st=s4):
                                for s6 in h.run('c32_drop', out, st=s5):
                                    h.check(s6, z3.BoolVal(not live_objects(s6)), 'NewThread: everything handed over is released')
                                    h.check(s6, z3.BoolVal(tokens(s6) == (len(own) if once else 0)), 'NewThread: every copy made is destroyed')


@T.add('SetThreadName', 'names the calling, or the given, thread')
def names(h):
    L = h.bv('name length')
    nm = cstring(h, 'name', L)
    h.st.ghost['name'] = (data(h.st, nm), L)
    th = h.st.new_cells('thread', 8)
    h.st.put(th, 8, NEW)
    for fn, a, w in (('c32_self', [nm], SELF), ('c32_other', [th, nm], NEW)):
        for s in h.run(fn, *a):
            ev = events(s, 'setname')
            h.check(s, z3.BoolVal(len(ev) == 1), 'SetThreadName: one request')
            if len(ev) == 1:
                h.check(s, ev[0][1] == w, 'SetThreadName: for the right thread')
