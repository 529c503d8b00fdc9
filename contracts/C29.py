"""C29: system wrappers report exactly what the system call said."""
from kv.cxxstd import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C, va, sc, lc]
ASSUMPTIONS = ['stat, mkdir, dlopen, dlclose, dlsym, dlerror and strerror_r (GNU form) behave as their manual pages say; every outcome they may report is considered',
               'system messages have fewer than 2^31 characters']
NULLP = Ptr(None, BV(0))


def given(ex, st, p, name, what):
    """p must be exactly the caller's string"""
    want = st.ghost[name]
    ex.oblige(st, ex.ptr_eq(st, p, want), 'argument', '%s is asked about the given %s' % (what, name))
    return not st.dead


# ---------------------------------------------------------------- file system
@C.on(exact('stat', 'stat64'), 'stat: finds the path and reports its mode, or fails')
def c_stat(ex, st, ins, av):
    if not given(ex, st, av[0], 'path', 'stat'):
        return 'dead'
    r = ex.rng(st, av[1], BV(144), 'stat', True)
    if st.dead:
        return 'dead'
    o, off = r
    k = simp(off).as_long()
    w = st.w(o.id)
    for i in range(0, 144, 8):
        cell_write(w, k + i, 8, fresh_bv('stat', 64))
        st.wr.add(('c', o.id, k + i, 8))
    for i in (24, 28):
        cell_write(w, k + i, 4, st.ghost['mode'] if i == 24 else fresh_bv('stat', 32))
    s2 = st.copy()
    s2.assume(Not(st.ghost['found']))
    st.assume(st.ghost['found'])
    ex.setr(st, ins, BV(0, 32))
    ex.setr(s2, ins, BV(-1, 32))
    st.event('stat')
    s2.event('stat')
    return [x for x in (st, s2) if ex.feasible(x)]


@C.on(exact('mkdir'), 'mkdir: creates the directory with the mode, or fails')
def c_mkdir(ex, st, ins, av):
    if not given(ex, st, av[0], 'path', 'mkdir'):
        return 'dead'
    r = fresh_bv('mkdir', 32)
    st.assume(Or(r == 0, r == -1))
    st.event('mkdir', av[1], r)
    ex.setr(st, ins, r)


def path(h):
    p = cstring(h, 'path', h.bv('length'))
    h.st.ghost['path'] = p
    h.st.ghost['found'] = h.bool('found')
    h.st.ghost['mode'] = h.bv('mode', 32)
    return p


FMT = 0o170000
for _n, _f, _post in (('PathExists', 'c29_exists', lambda f, m: f), ('IsFile', 'c29_file', lambda f, m: And(f, (m & FMT) == 0o100000)),
                      ('IsDirectory', 'c29_dir', lambda f, m: And(f, (m & FMT) == 0o040000))):
    @T.add(_n, 'exactly what stat says')
    def q(h, n=_n, fn=_f, post=_post):
        p = path(h)
        if (h.const('c29_stat'), h.const('c29_mode')) != (144, 24):
            raise Unsupported('layout of struct stat')
        for s in h.run(fn, p):
            h.check(s, (s.ret if z3.is_bool(s.ret) else s.ret == 1) == post(s.ghost['found'], s.ghost['mode']), '%s: exactly when the system says so' % n)


@T.add('CreateDirectory', 'succeeds exactly when mkdir does')
def mk(h):
    p, m = path(h), h.bv('permissions', 32)
    for fn, a in (('c29_mkdir', [m]), ('c29_mkdir0', [])):
        for s in h.run(fn, p, *a):
            ev = events(s, 'mkdir')
            h.check(s, z3.BoolVal(len(ev) == 1), 'CreateDirectory: the system is asked once')
            if len(ev) == 1:
                h.check(s, s.ret == (ev[0][2] == 0), 'CreateDirectory: exactly when the system call succeeds')
                if a:
                    h.check(s, ev[0][1] == m, 'CreateDirectory: with the permissions given')


# ---------------------------------------------------------------- shared libraries
@C.on(exact('dlopen'), 'dlopen: a handle to be closed once, or null and a message')
def c_dlopen(ex, st, ins, av):
    if not given(ex, st, av[0], 'path', 'dlopen'):
        return 'dead'
    s2 = st.copy()
    lib = st.new_cells('library', 1, 'param')
    st.event('open', lib.obj)
    ex.setr(st, ins, lib)
    s2.event('openfail')
    s2.ghost['dlerror'] = True
    ex.setr(s2, ins, NULL)
    return [st, s2]


def handle(ex, st, p, what):
    libs = [e[1] for e in events(st, 'open')]
    closed = [e[1] for e in events(st, 'close')]
    ok = isinstance(p, Ptr) and p.obj in libs and p.obj not in closed and p.null is False
    if not ok and isinstance(p, Ptr) and p.obj is not None and p.obj in libs and p.null is not False:
        ex.oblige(st, Not(p.null), 'handle', '%s of a library that is open' % what)
        return not st.dead
    ex.oblige(st, z3.BoolVal(bool(ok)), 'handle', '%s of a library that is open' % what)
    return not st.dead


@C.on(exact('dlclose'), 'dlclose: ends a handle that is open')
def c_dlclose(ex, st, ins, av):
    if not handle(ex, st, av[0], 'dlclose'):
        return 'dead'
    st.event('close', av[0].obj)
    ex.setr(st, ins, fresh_bv('dlclose', 32))


@C.on(exact('dlsym'), 'dlsym: the address of the symbol, or null')
def c_dlsym(ex, st, ins, av):
    if not handle(ex, st, av[0], 'dlsym'):
        return 'dead'
    if not given(ex, st, av[1], 'symbol', 'dlsym'):
        return 'dead'
    r = Ptr(st.ghost['target'].obj, BV(0), fresh_bool('absent'))
    st.event('sym', r)
    ex.setr(st, ins, r)


@C.on(exact('dlerror'), 'dlerror: the message of the last failure since the last call, else null')
def c_dlerror(ex, st, ins, av):
    if not st.ghost.get('dlerror'):
        ex.setr(st, ins, NULL)
        return None
    st.ghost['dlerror'] = False
    ex.setr(st, ins, st.ghost['message'])


def message(h):
    L = h.bv('message length')
    h.assume(ULT(L, BV(1 << 31)))
    h.st.ghost['message'] = cstring(h, 'message', L)
    return h.st.ghost['message'], L


def umin(a, b):
    return If(ULE(a, b), a, b)


def prefix(h, s, buf, M, old, msg, L, what):
    new = data(s, buf)
    r = umin(L, M - 1)
    h.check(s, Implies(M != 0, new(r) == B0), '%s: the message is NUL-terminated inside the buffer' % what)
    h.check(s, Q('i', lambda i: Implies(And(M != 0, ULT(i, r)), new(i) == msg(i))), "%s: the system's message, as much as fits" % what)
    h.check(s, Q('i', lambda i: Implies(UGE(i, M), new(i) == old(i))), '%s: nothing written at or beyond maxlength' % what)


def released(h, st, lib, opened, what):
    """the returned library has one reference; giving it up closes and frees everything once"""
    h.check(st, z3.BoolVal(not events(st, 'close')), '%s: not closed while referenced' % what)
    for k in (0, 1):
        states = [st]
        for _ in range(k):
            states = [y for x in states for y in h.run('c29_addref', lib, st=x)]
            states = [y for x in states for y in h.run('c29_release', lib, st=x)]
        for x in states:
            h.check(x, z3.BoolVal(not events(x, 'close')), '%s: not closed while referenced' % what)
            for y in h.run('c29_release', lib, st=x):
                h.check(y, z3.BoolVal(sorted(e[1] for e in events(y, 'close')) == sorted(opened)), '%s: closed exactly once when released' % what)
                h.check(y, z3.BoolVal(not live_objects(y)), '%s: freed when released' % what)


def one(v):
    return v if z3.is_bool(v) else v == 1


@T.add('SharedLib::Open', 'a valid library with one reference, or null with the message; closed exactly once')
def op(h):
    p = cstring(h, 'path', h.bv('length'))
    h.st.ghost['path'] = p
    msg, L = message(h)
    N, M = h.bv('buffer'), h.bv('maxlength')
    buf = byteseq(h, 'error', N)
    h.assume(ULE(M, N))
    h.ex.vocab += [M, N, L]
    h.ex.loop_specs.append(byte_templates())
    old = data(h.st, buf)
    for fn, args in (('c29_open', [buf, M]), ('c29_open', [NULL, M]), ('c29_open1', [])):
        for s in h.run(fn, p, *args):
            r = s.ret
            opened = [e[1] for e in events(s, 'open')]
            asked = len(opened) + len(events(s, 'openfail'))
            h.check(s, z3.BoolVal(asked == 1), 'Open: the system is asked once')
            new = data(s, buf)
            if opened:
                h.check(s, Not(h.ex.ptr_eq(s, r, NULL)), 'Open: a library that opens is returned')
                h.check(s, Q('i', lambda i: new(i) == old(i)), 'Open: the error buffer is left alone')
                if s.dead or r.obj is None:
                    continue
                for v in ('c29_valid', 'c29_bool'):
                    for x in h.run(v, r, st=s):
                        h.check(x, one(x.ret), 'Open: the library is valid')
                released(h, s, r, opened, 'Open')
            else:
                h.check(s, h.ex.ptr_eq(s, r, NULL), 'Open: null when the library does not open')
                h.check(s, z3.BoolVal(not events(s, 'close')), 'Open: a library that did not open is never closed')
                h.check(s, z3.BoolVal(not live_objects(s)), 'Open: nothing is left behind')
                if args[:1] == [buf]:
                    prefix(h, s, buf, M, old, data(s, msg), L, 'Open')


@T.add('SharedLib constructors', 'close what they were given or opened exactly once; lookups ask the system')
def ctors(h):
    p = cstring(h, 'path', h.bv('length'))
    h.st.ghost['path'] = p
    sym = cstring(h, 'symbol', h.bv('symbol length'))
    h.st.ghost['symbol'] = sym
    h.st.ghost['target'] = h.st.new_cells('the symbol', 4)
    lib = h.st.new_cells('library', 1, 'param')
    st1 = h.st.copy()
    st1.event('open', lib.obj)
    runs = [(s, False) for s in h.run('c29_new')]
    runs += [(s, True) for s in h.run('c29_newh', lib, st=st1)]
    runs += [(s, bool(events(s, 'open'))) for s in h.run('c29_newp', p)]
    for s, v in runs:
        l = s.ret
        for f in ('c29_valid', 'c29_bool'):
            for x in h.run(f, l, st=s):
                h.check(x, one(x.ret) == v, 'SharedLib: valid exactly when it has a library')
        if v:
            for f in ('c29_lookup', 'c29_get'):
                for x in h.run(f, l, sym, st=s):
                    ev = events(x, 'sym')
                    h.check(x, z3.BoolVal(len(ev) == 1), 'lookup: the system is asked once')
                    if ev:
                        h.check(x, h.ex.ptr_eq(x, x.ret, ev[0][1]), 'lookup: what the system says')
        released(h, s, l, [e[1] for e in events(s, 'open')], 'SharedLib')


# ---------------------------------------------------------------- error text
@C.on(exact('strerror_r'), "strerror_r (GNU): the message, elsewhere or as much as fits in the buffer")
def c_strerror_r(ex, st, ins, av):
    code, buf, n = av
    ex.oblige(st, code == st.ghost['code'], 'argument', 'strerror_r is asked about the given error code')
    if st.dead:
        return 'dead'
    m, L = st.ghost['message'], st.ghost['length']
    s2 = st.copy()
    ex.setr(st, ins, m)
    g = data(s2, m)
    s2.ghost['inbuf'] = True
    k = simp(If(n == 0, BV(0), umin(L, n - 1) + 1))
    r = ex.rng(s2, buf, k, 'strerror_r', True)
    if s2.dead:
        return [st]
    if r is not None:
        o, off = r
        if isinstance(o, Cells) or o.stride != 1:
            raise Unsupported('strerror_r into %s' % o.name)
        off = norm(off)
        w = s2.w(o.id)
        w.data[0] = w.data[0].guarded(lambda j: And(ULE(off, j), ULT(j - off, k)), lambda j: If(norm(j - off) == k - 1, B0, g(norm(j - off))))
        w.shadow['nul'] = (norm(off + k - 1),) + w.shadow.get('nul', ())
        s2.wr.add(('f', o.id, 0))
    ex.setr(s2, ins, buf)
    return [st, s2]


@C.on(exact('strerror'), 'strerror: the message')
def c_strerror(ex, st, ins, av):
    ex.oblige(st, av[0] == st.ghost['code'], 'argument', 'strerror is asked about the given error code')
    if st.dead:
        return 'dead'
    ex.setr(st, ins, st.ghost['message'])


for _fn, _name in (('c29_code', 'FormatSystemErrorCode'), ('c29_err', 'FormatSystemError')):
    @T.add(_name, "the system's message, inside the buffer")
    def fe(h, fn=_fn, name=_name):
        msg, L = message(h)
        code = h.bv('code', 32)
        h.st.ghost['code'], h.st.ghost['length'] = code, L
        N, M = h.bv('buffer'), h.bv('maxlength')
        buf = byteseq(h, 'error', N)
        h.assume(ULE(M, N))
        h.ex.vocab += [M, N, L]
        h.ex.loop_specs.append(byte_templates())
        old = data(h.st, buf)
        args = [buf, M]
        if fn == 'c29_code':
            args = [code] + args
        else:
            e = h.st.new_cells('errno', 4)
            h.st.put(e, 4, code)
            h.st.ghost['errno'] = e
        for s in h.run(fn, *args):
            prefix(h, s, buf, M, old, data(s, msg), L, name)
