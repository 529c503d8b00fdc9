"""Contracts on dependencies (C and C++ runtime, opaque element types) and small helpers for contract files."""
import re
import z3
from .prove import *
from .core import *
from .exec import Exec, NOTHANDLED, Cand, LoopView, bytes_fn
from . import ir


def exact(*names):
    ns = set(names)
    return lambda d, m: m in ns or d in ns or d.split('(')[0] in ns


def rx(p):
    c = re.compile(p)
    return lambda d, m: c.search(d) is not None


class Contracts:
    """handlers with a name each, so that evidence can list which assumed contracts were used"""

    def __init__(self):
        self.items = []

    def on(self, pred, name=None):
        def deco(fn):
            def h(ex, st, ins, av):
                r = fn(ex, st, ins, av)
                if r is not NOTHANDLED:
                    ex.assumed.add(name or fn.__name__)
                return r
            self.items.append((pred, h))
            return fn
        return deco


# ---------------------------------------------------------------- runtime basics
rt = Contracts()


@rt.on(exact('__assert_fail'), 'assert: an assertion that can fail is a violation')
def c_assert(ex, st, ins, av):
    msg = ''
    p = av[0]
    if isinstance(p, Ptr) and p.obj is not None and 'bytes' in st.mem[p.obj].user:
        msg = st.mem[p.obj].user['bytes'].rstrip(b'\0').decode(errors='replace')
    allow = ex.opts.get('assert_stops')
    if allow and allow(msg):
        return 'dead'
    ex.oblige(st, FALSE, 'assertion', 'assertion %s' % msg)
    return 'dead'


@rt.on(exact('abort', 'std::terminate', '__clang_call_terminate', '__cxa_pure_virtual', 'std::__throw_bad_optional_access'), 'abort')
def c_abort(ex, st, ins, av):
    h = ex.opts.get('on_abort')
    if h:
        return h(ex, st)
    ex.oblige(st, FALSE, 'abort', 'the program is not aborted')
    return 'dead'


@rt.on(lambda d, m: d.startswith('std::__throw_') or m.startswith('_ZSt') and '__throw' in d,
       'std::__throw_*: library exception conditions do not arise (exceptions are disabled)')
def c_throw(ex, st, ins, av):
    d = ex.dem.get(ins.args[0][1], '')
    if 'length_error' in d or 'bad_alloc' in d or 'bad_array_new' in d:
        return 'dead'        # more than max_size() elements: outside the modelled memory
    ex.oblige(st, FALSE, 'throw', '%s is not reached' % d)
    return 'dead'


def maybe_fail(ex, st, ins, alloc, may_fail):
    outs = []
    if may_fail:
        s2 = st.copy()
        s2.event('allocfail')
        ex.setr(s2, ins, NULL)
        outs.append(s2)
    ex.setr(st, ins, alloc(st))
    outs.append(st)
    return outs if len(outs) > 1 else None


@rt.on(exact('malloc'), 'malloc: null or fresh storage of the given size')
def c_malloc(ex, st, ins, av):
    n = av[0]

    def alloc(s):
        p = ex.new_heap(s, n, 'malloc', 'heap-free')
        s.event('alloc', p.obj, n)
        return p
    return maybe_fail(ex, st, ins, alloc, ex.opts.get('malloc_fails', True))


@rt.on(exact('calloc'), 'calloc: null or fresh zeroed storage')
def c_calloc(ex, st, ins, av):
    raise Unsupported('calloc')


@rt.on(exact('free'), 'free: releases storage obtained from malloc, null is ignored')
def c_free(ex, st, ins, av):
    p = av[0]
    if isinstance(p, Ptr) and p.obj is not None and p.null is not False:
        s2 = st.copy()
        st.assume(Not(p.null))
        s2.assume(p.null)
        outs = []
        if ex.feasible(st):
            ex.free(st, Ptr(p.obj, p.off), 'free')
            outs.append(st)
        if ex.feasible(s2):
            outs.append(s2)
        return outs
    ex.free(st, p, 'free')
    return 'dead' if st.dead else None


@rt.on(lambda d, m: m in ('_Znwm', '_Znam'), 'operator new: fresh storage of the given size')
def c_new(ex, st, ins, av):
    how = 'heap-delete' if ins.args[0][1] == '_Znwm' else 'heap-delete[]'
    p = ex.new_heap(st, av[0], 'new', how)
    st.event('alloc', p.obj, av[0])
    ex.setr(st, ins, p)


@rt.on(lambda d, m: m in ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'), 'operator new(nothrow): null or fresh storage')
def c_new_nt(ex, st, ins, av):
    how = 'heap-delete' if ins.args[0][1].startswith('_Znwm') else 'heap-delete[]'

    def alloc(s):
        p = ex.new_heap(s, av[0], 'new', how)
        s.event('alloc', p.obj, av[0])
        return p
    return maybe_fail(ex, st, ins, alloc, True)


@rt.on(lambda d, m: m in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'), 'operator delete: releases storage obtained from the matching new')
def c_delete(ex, st, ins, av):
    ex.free(st, av[0], 'delete' if ins.args[0][1].startswith('_Zdl') else 'delete[]')
    return 'dead' if st.dead else None


@rt.on(lambda d, m: m in ('_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'), 'aligned operator delete')
def c_delete_al(ex, st, ins, av):
    ex.free(st, av[0], 'delete-aligned')
    return 'dead' if st.dead else None


@rt.on(lambda d, m: m == '_ZnwmSt11align_val_t', 'aligned operator new: fresh storage with the given alignment')
def c_new_al(ex, st, ins, av):
    p = ex.new_heap(st, av[0], 'new', 'heap-delete-aligned')
    st.event('alloc', p.obj, av[0])
    ex.setr(st, ins, p)


@rt.on(exact('__cxa_atexit'), '__cxa_atexit')
def c_atexit(ex, st, ins, av):
    ex.setr(st, ins, BV(0, 32))


@rt.on(exact('fprintf', 'printf', 'vfprintf', 'puts', 'fputs', 'putchar', 'fflush', 'fputc', 'fwrite'), 'stdio output: no effect on program state')
def c_stdio(ex, st, ins, av):
    if ins.res is not None:
        ex.setr(st, ins, fresh_bv('io', ex.mod.size(ins.ty) * 8))


@rt.on(exact('__errno_location'), 'errno: one thread-local int')
def c_errno(ex, st, ins, av):
    p = st.ghost.get('errno')
    if p is None:
        p = st.new_cells('errno', 4)
        st.put(p, 4, fresh_bv('errno', 32))
        st.ghost['errno'] = p
    ex.setr(st, ins, p)


# ---------------------------------------------------------------- opaque element types
class TokSpec:
    """contracts of an opaque class with declared-only special members.

    An element is its `value` (a ghost bit-vector stored in its bytes) plus a ghost liveness bit."""

    def __init__(self, cls='Tok', size=8, default=0x746f6b64656661):
        self.cls, self.size, self.default = cls, size, default
        self.ct = Contracts()
        c = re.escape(cls)
        P = self.ct

        @P.on(rx(r'^%s::%s\(\)$' % (c, c)), '%s(): makes a live element with the default value' % cls)
        def ctor0(ex, st, ins, av):
            self.begin(ex, st, av[0], BV(self.default, size * 8), 'default')
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::%s\(%s const&\)$' % (c, c, c)), '%s(const %s&): live copy of a live source' % (cls, cls))
        def ctorc(ex, st, ins, av):
            v = self.read(ex, st, av[1], 'copy source')
            if st.dead:
                return 'dead'
            self.begin(ex, st, av[0], v, 'copy')
            st.event('copy', self.cls)
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::%s\(%s&&\)$' % (c, c, c)), '%s(%s&&): takes the value of a live source, which stays live' % (cls, cls))
        def ctorm(ex, st, ins, av):
            v = self.read(ex, st, av[1], 'move source')
            if st.dead:
                return 'dead'
            self.moved(ex, st, av[1])
            self.begin(ex, st, av[0], v, 'move')
            st.event('move', self.cls)
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::%s\((unsigned )?(int|long)\)$' % (c, c)), '%s(n): live element with value n' % cls)
        def ctorv(ex, st, ins, av):
            v = av[1]
            if v.size() < size * 8:
                v = z3.ZeroExt(size * 8 - v.size(), v)
            self.begin(ex, st, av[0], v)
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::~%s\(\)$' % (c, c)), '~%s(): ends a live element' % cls)
        def dtor(ex, st, ins, av):
            self.end(ex, st, av[0])
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::operator=\(%s const&\)$' % (c, c)), '%s = const %s&' % (cls, cls))
        def asgc(ex, st, ins, av):
            v = self.read(ex, st, av[1], 'assignment source')
            if st.dead:
                return 'dead'
            self.write(ex, st, av[0], v)
            st.event('copy', self.cls)
            ex.setr(st, ins, av[0])
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::operator=\(%s&&\)$' % (c, c)), '%s = %s&&' % (cls, cls))
        def asgm(ex, st, ins, av):
            v = self.read(ex, st, av[1], 'assignment source')
            if st.dead:
                return 'dead'
            if not (av[0].obj == av[1].obj and norm(av[0].off).eq(norm(av[1].off))):
                self.moved(ex, st, av[1])
            self.write(ex, st, av[0], v)
            st.event('move', self.cls)
            ex.setr(st, ins, av[0])
            return 'dead' if st.dead else None

        @P.on(rx(r'^%s::operator(==|!=)\(%s const&\) const$' % (c, c)), '%s == %s: equality of values of live elements' % (cls, cls))
        def eq(ex, st, ins, av):
            a = self.read(ex, st, av[0], 'comparison')
            if st.dead:
                return 'dead'
            b = self.read(ex, st, av[1], 'comparison')
            if st.dead:
                return 'dead'
            e = simp(a == b)
            if '!=' in ex.dem[ins.args[0][1]]:
                e = Not(e)
            ex.setr(st, ins, e)

    # -- ghost liveness
    def place(self, ex, st, p, what, write=False):
        a = ex.access(st, p, self.size, what, write)
        if a is None or st.dead:
            st.dead = True
            return None
        return a

    def alive(self, st, a):
        o = st.mem[a[0].id]
        if a[1] == 'cells':
            return o.shadow.get(('live', a[2]), FALSE)
        f = o.shadow.get('live@%d' % a[3])
        return f(a[2]) if f is not None else FALSE

    def set_alive(self, ex, st, a, v):
        o = st.w(a[0].id)
        if a[1] == 'cells':
            o.shadow[('live', a[2])] = v
            st.wr.add(('s', o.id, 'live', a[2]))
            return
        k = 'live@%d' % a[3]
        f = o.shadow.get(k) or const_fn(FALSE)
        o.shadow[k] = f.store(a[2], v)
        st.wr.add(('sf', o.id, k))

    def begin(self, ex, st, p, v, how='value'):
        a = self.place(ex, st, p, 'construction of a %s' % self.cls, True)
        if a is None:
            return
        ex.oblige(st, Not(self.alive(st, a)), 'lifetime', 'no live %s is overwritten by construction' % self.cls)
        if st.dead:
            return
        h = ex.opts.get('on_construct')
        if h:
            h(ex, st, self, a, v, how)
        ex.store_at(st, a, self.size, v)
        self.set_alive(ex, st, a, TRUE)

    def end(self, ex, st, p):
        a = self.place(ex, st, p, 'destruction of a %s' % self.cls, True)
        if a is None:
            return
        ex.oblige(st, self.alive(st, a), 'lifetime', 'only a live %s is destroyed' % self.cls)
        if st.dead:
            return
        h = ex.opts.get('on_destroy')
        if h:
            h(ex, st, self, a)
        self.set_alive(ex, st, a, FALSE)
        st.event('destroy', self.cls)

    def value_at(self, ex, st, a):
        if a[1] == 'cells':
            return cell_read(st.mem[a[0].id], a[2], self.size)
        return ex.seq_read(st, st.mem[a[0].id], a[2], a[3], self.size)

    def read(self, ex, st, p, what):
        a = self.place(ex, st, p, '%s of a %s' % (what, self.cls))
        if a is None:
            return None
        ex.oblige(st, self.alive(st, a), 'lifetime', '%s is a live %s' % (what, self.cls))
        if st.dead:
            return None
        return self.value_at(ex, st, a)

    def write(self, ex, st, p, v):
        a = self.place(ex, st, p, 'assignment to a %s' % self.cls, True)
        if a is None:
            return
        ex.oblige(st, self.alive(st, a), 'lifetime', 'assignment target is a live %s' % self.cls)
        if st.dead:
            return
        self.written(ex, st, a, v)

    def written(self, ex, st, a, v):
        h = ex.opts.get('on_write')
        if h:
            h(ex, st, self, a, v)
        ex.store_at(st, a, self.size, v)

    def moved(self, ex, st, p):
        a = self.place(ex, st, p, 'move from a %s' % self.cls, True)
        if a is None:
            return
        self.written(ex, st, a, fresh_bv('moved', self.size * 8))

    # -- set-up / post-state helpers (no obligations)
    def make(self, st, p, v, off=0):
        st.put(p, self.size, v, off)
        o = st.w(p.obj)
        o.shadow[('live', simp(p.off).as_long() + off)] = TRUE

    def make_obj(self, st, name, v, kind='param'):
        p = st.new_cells(name, self.size, kind)
        self.make(st, p, v)
        return p

    def live_at(self, st, p, off=0):
        o = st.mem[p.obj]
        if not o.live:
            return FALSE
        return B(o.shadow.get(('live', simp(p.off).as_long() + off), FALSE))

    def val_at(self, st, p, off=0):
        v = st.get(p, self.size, off)
        return fresh_bv('undef', self.size * 8) if v is UNDEF else v


def live_objects(st, kinds=('heap',)):
    return [o for o in st.mem.values() if o.live and any(o.kind.startswith(k) for k in kinds)]


def events(st, name):
    return [e for e in st.log if e[0] == name]


# ---------------------------------------------------------------- generic loop invariant templates
def fill_templates(ex, entry, view):
    """liveness prefixes, element-wise copies and constant fills, over every progress view of the loop"""
    cs = []

    def add(nm, fn):
        cs.append(Cand(nm, fn))
    for w in sorted(view.mods, key=str):
        if w[0] == 'sf' and str(w[2]).startswith('live'):
            o = entry.mem[w[1]]
            n, tag = o.n, o.tag
            for tn, tf in view.terms:
                def mk(w=w, tf=tf, n=n, tag=tag, tn=tn):
                    def q(body):
                        def fn(s):
                            t, f = tf(s), ex.loc_value(s, w)
                            if t is None or f is None:
                                return FALSE
                            return Q(tag, lambda i: body(i, t, f), 'live')
                        return fn
                    add('live below %s' % tn, q(lambda i, t, f: Implies(ULT(i, t), f(i))))
                    add('dead below %s' % tn, q(lambda i, t, f: Implies(ULT(i, t), Not(f(i)))))
                    add('live from %s' % tn, q(lambda i, t, f: Implies(And(UGE(i, t), ULT(i, n)), f(i))))
                    add('dead from %s' % tn, q(lambda i, t, f: Implies(And(UGE(i, t), ULT(i, n)), Not(f(i)))))
                mk()
    # loops that count down fill from the end
    starts = [c[1] for c in view.counters if z3.is_expr(c[1])]
    down = any(not (z3.is_bv_value(simp(c)) and simp(c).as_long() < 256) for c in starts)
    srcs = []
    for oid, o in entry.mem.items():
        if isinstance(o, Seq) and o.live:
            for off, k in o.fields.items():
                if k[0] == 'bv' and 'bytes' not in o.user:
                    srcs.append((oid, off, k[1], o.data[off]))
    for w in sorted(view.mods, key=str):
        if w[0] != 'f' or isinstance(w[2], tuple):
            continue
        o = entry.mem[w[1]]
        k = o.fields.get(w[2])
        if not k or k[0] != 'bv' or k[1] < 4:
            continue
        for oid, off, nb, data in srcs:
            if nb != k[1] or (oid == w[1] and off == w[2]):
                continue
            for tn, tf in view.terms:
                def mk(rng=ULT, w=w, tf=tf, data=data, tag=o.tag):
                    def fn(s):
                        t, f = tf(s), ex.loc_value(s, w)
                        if t is None or f is None:
                            return FALSE
                        return Q(tag, lambda i: Implies(rng(i, t), f(i) == data(i)), 'copied')
                    return fn
                add('copied below %s' % tn, mk())
                if down:
                    add('copied from %s' % tn, mk(lambda i, t, n=o.n: And(UGE(i, t), ULT(i, n))))
        for c in ex.opts.get('fill_values', ()):
            for tn, tf in view.terms:
                def mk(rng=ULT, w=w, tf=tf, c=c, tag=o.tag, n=k[1] * 8):
                    def fn(s):
                        t, f = tf(s), ex.loc_value(s, w)
                        if t is None or f is None:
                            return FALSE
                        return Q(tag, lambda i: Implies(rng(i, t), f(i) == BV(c, n)), 'filled')
                    return fn
                add('filled below %s' % tn, mk())
                if down:
                    add('filled from %s' % tn, mk(lambda i, t, n=o.n: And(UGE(i, t), ULT(i, n))))
    # everything seen so far compares equal (search loops)
    for i, (o1, f1, n1, d1) in enumerate(srcs):
        for o2, f2, n2, d2 in srcs[i + 1:]:
            if n1 == n2 and o1 != o2 and n1 >= 4:
                for tn, tf in view.terms:
                    def mk(tf=tf, d1=d1, d2=d2, tag=entry.mem[o1].tag):
                        def fn(s):
                            t = tf(s)
                            if t is None:
                                return FALSE
                            return Q(tag, lambda i: Implies(ULT(i, t), d1(i) == d2(i)), 'equal so far')
                        return fn
                    add('equal below %s' % tn, mk())
    return cs


def elem_hint(stride, fields, tag='i', pad=False):
    """allocations whose size is a multiple of `stride` become sequences of elements"""
    def hint(ex, st, n, name):
        if isval(n) and n.as_long() <= 64 and n.as_long() % stride == 0 and n.as_long() == 0:
            return Seq(name, 'heap', BV(0), stride, fields, tag=tag)
        r = split_index(norm(n), stride)
        if r is None or r[1] != 0:
            return None
        cnt = r[0]
        if not ex.must(st, ULE(cnt, BV(((1 << 64) - 1) // stride))):
            # the byte count may have wrapped: what is really there
            cnt = z3.UDiv(norm(n), BV(stride))
        o = Seq(name, 'heap', cnt, stride, fields, tag=tag)
        o.size = norm(n)
        if pad:
            o.user['padding'] = True
        st.assume(ULE(cnt, BV(((1 << 47)) // stride)))
        return o
    return hint
