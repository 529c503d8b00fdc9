"""C16: FixedArray owns its elements exactly once and copies by value."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
C = Contracts()
CONTRACTS = [tok.ct, C]
OPTS = {'fill_values': (tok.default,)}
LIM = (1 << 44)


@C.on(rx(r'^AP::AP\('), 'allocator policy constructors: no effect on elements')
def ap_ctor(ex, st, ins, av):
    st.put(av[0], 8, fresh_bv('ap', 64), 0) if isval(simp(av[0].off)) else None


@C.on(rx(r'^AP::report'), 'allocator policy reports return')
def ap_report(ex, st, ins, av):
    st.event('report')


@C.on(rx(r'^AP::am_malloc'), 'am_malloc: null or fresh storage of the given size')
def ap_malloc(ex, st, ins, av):
    s2 = st.copy()
    s2.event('allocfail')
    ex.setr(s2, ins, NULL)
    p = ex.new_heap(st, av[1], 'buffer', 'heap-ap')
    st.event('alloc', p.obj)
    ex.setr(st, ins, p)
    return [x for x in (st, s2) if ex.feasible(x)]


@C.on(rx(r'^AP::am_free'), 'am_free: releases storage from am_malloc once, null is ignored')
def ap_free(ex, st, ins, av):
    ex.free(st, av[1], 'ap')
    return 'dead' if st.dead else None


def setup(h):
    h.ex.alloc_hints.append(elem_hint(8, {0: ('bv', 8)}))


def one(h, states):
    states = list(states)
    assert len(states) >= 1
    return states


def view(h, st, p):
    """(state, ok, size, buffer pointer) as the public interface reports them"""
    out = []
    for s in h.run('c16_init', p, st=st):
        ok = s.ret
        for s2 in h.run('c16_len', p, st=s):
            n = s2.ret
            for s3 in h.run('c16_buf', p, st=s2):
                out.append((s3, ok, n, s3.ret))
    return out


def given(h, st, name, kinds=('ok', 'def', 'failed')):
    """arrays in every constructible state, with arbitrary elements -> (state, ptr, n, buffer oid or None, values)"""
    out = []
    p = h.raw(name, h.const('c16_size'), st=st)
    if 'def' in kinds:
        for s in h.run('c16_def', p, st=st):
            s.log = ()
            out.append((s, p, BV(0), None, None))
    n = h.bv(name + '.n')
    for s in h.run('c16_ctor', p, n, st=st):
        for s2, ok, m, b in view(h, s, p):
            good = s2.copy()
            good.assume(ok)
            if 'ok' in kinds and h.ex.feasible(good) and b.obj is not None:
                o = good.w(b.obj)
                f = fresh_fn(name + '.value', 64)
                o.data[0] = f
                good.log = ()
                out.append((good, p, n, b.obj, f))
            bad = s2
            bad.assume(Not(ok))
            if 'failed' in kinds and h.ex.feasible(bad):
                bad.log = ()
                out.append((bad, p, n, None, None))
    return out


def holds(h, s, p, n, vals, what, maybe_failed=False):
    """post: array p has n live elements with the given values in its own buffer (or reports failure)"""
    for s2, ok, m, b in view(h, s, p):
        failed = bool(events(s2, 'allocfail')) or bool(events(s2, 'report'))
        if not failed:
            h.check(s2, ok, '%s: initialize() is true when storage was obtained' % what)
        h.check(s2, Implies(ok, m == n), '%s: length' % what)
        good = s2
        good.assume(ok)
        if not h.ex.feasible(good):
            continue
        if b.isnull_const or b.obj is None:
            h.check(good, m == 0, '%s: has a buffer' % what)
            continue
        o = good.mem[b.obj]
        h.check(good, z3.BoolVal(o.live), '%s: buffer is allocated' % what)
        f = o.shadow.get('live@0') or const_fn(FALSE)
        h.check(good, And(norm(b.off) == 0, ULE(n, o.n)), '%s: buffer holds the elements' % what)
        h.check(good, Q('i', lambda i: Implies(ULT(i, n), f(i))), '%s: every element is live' % what)
        if vals is not None:
            h.check(good, Q('i', lambda i: Implies(ULT(i, n), o.data[0](i) == vals(i))), '%s: element values' % what)


def finish(h, s, ptrs, what):
    """destroying the arrays releases everything exactly once"""
    states = [s]
    for p in ptrs:
        nxt = []
        for x in states:
            nxt += h.run('c16_dtor', p, st=x)
        states = nxt
    for x in states:
        h.check(x, z3.BoolVal(not live_objects(x)), '%s: every buffer is released' % what)


def vals_of(v):
    return v if v is not None else const_fn(BV(0))


@T.add('ctor', 'n default elements, or a reported failure', opts=OPTS)
def ctor(h):
    setup(h)
    for fn in ('c16_ctor', 'c16_ctor_ap'):
        p = h.raw('a', h.const('c16_size'))
        n = h.bv('n')
        args = [p, n]
        if fn.endswith('_ap'):
            args.append(h.raw('ap', 8))
        for s in h.run(fn, *args):
            big = UGT(n, BV(((1 << 64) - 1) // 8))
            for s2, ok, m, b in view(h, s, p):
                h.check(s2, Implies(big, Not(ok)), 'byte size overflow makes initialize() false')
                if events(s2, 'allocfail'):
                    h.check(s2, Implies(n != 0, Not(ok)), 'failed allocation makes initialize() false')
            holds(h, s, p, n, const_fn(BV(tok.default)), 'new array')
            finish(h, s, [p], 'new array')


@T.add('default ctor', 'empty array')
def dctor(h):
    setup(h)
    p = h.raw('a', h.const('c16_size'))
    for s in h.run('c16_def', p):
        holds(h, s, p, BV(0), None, 'default array')
        finish(h, s, [p], 'default array')


def pairs(kind, fn, doc):
    @T.add(kind, doc, opts=OPTS)
    def t(h):
        setup(h)
        # an array whose storage could not be obtained may be moved, assigned to and destroyed, not read
        for s, q, n, oid, v in given(h, h.st, 'src', ('ok', 'def') if fn == 'c16_copy' else ('ok', 'def', 'failed')):
            p = h.raw('a', h.const('c16_size'), st=s)
            for s2 in h.run(fn, p, q, st=s):
                if fn == 'c16_copy':
                    if oid is not None or n.eq(BV(0)):
                        holds(h, s2, p, n, v, 'copy')
                    if oid is not None:
                        holds(h, s2, q, n, v, 'source of the copy')
                    for s3, ok, m, b in view(h, s2, p):
                        h.check(s3, z3.BoolVal(b.obj != oid or oid is None), 'copy has its own buffer')
                else:
                    if oid is not None:
                        holds(h, s2, p, n, v, 'moved-to array')
                    h.check(s2, z3.BoolVal(not events(s2, 'alloc')), 'moving allocates nothing')
                    holds(h, s2, q, BV(0), None, 'moved-from array')
                    for s3, ok, m, b in view(h, s2, q):
                        h.check(s3, And(ok, m == 0), 'moved-from array is empty')
                finish(h, s2, [p, q], kind)
                finish(h, s2, [q, p], kind)


pairs('copy ctor', 'c16_copy', 'equal length and elements in an own buffer, source unchanged')
pairs('move ctor', 'c16_move', 'takes the buffer, source empty')

for _fn in ('c16_asg', 'c16_asgm'):
    for _k in ('ok', 'def', 'failed'):
        for _k2 in ('ok', 'def', 'failed'):
            if _fn == 'c16_asg' and _k2 == 'failed':
                continue        # an array whose storage could not be obtained is not readable

            def mk(fn, k, k2):
                @T.add('%s %s = %s' % ('copy-assign' if fn == 'c16_asg' else 'move-assign', k, k2), 'assignment', opts=OPTS)
                def t(h):
                    setup(h)
                    for s, p, n, oid, v in given(h, h.st, 'dst', (k,)):
                        for s1, q, m, oid2, w in given(h, s, 'src', (k2,)):
                            for s2 in h.run(fn, p, q, st=s1):
                                h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                                if oid2 is not None or k2 == 'def':
                                    holds(h, s2, p, m, w, 'assigned array')
                                if fn == 'c16_asg':
                                    if oid2 is not None:
                                        holds(h, s2, q, m, w, 'source of assignment')
                                    for s3, ok, x, b in view(h, s2, p):
                                        h.check(s3, z3.BoolVal(b.obj != oid2 or oid2 is None), 'copy has its own buffer')
                                else:
                                    for s3, ok, x, b in view(h, s2, q):
                                        h.check(s3, And(ok, x == 0), 'moved-from array is empty')
                                finish(h, s2, [p, q], 'assignment')
            mk(_fn, _k, _k2)


@T.add('self assign', 'self assignment keeps the array', opts=OPTS)
def selfa(h):
    setup(h)
    for fn in ('c16_asg', 'c16_asgm'):
        for s, p, n, oid, v in given(h, h.st.copy(), 'a'):
            for s2 in h.run(fn, p, p, st=s):
                h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                if oid is not None:
                    holds(h, s2, p, n, v, 'self-assigned array')
                finish(h, s2, [p], 'self assignment')


@T.add('compare', 'equal exactly for equal length and elements', opts=OPTS)
def compare(h):
    setup(h)
    for s, p, n, oid, v in given(h, h.st, 'a', ('ok', 'def')):
        for s1, q, m, oid2, w in given(h, s, 'b', ('ok', 'def')):
            va, vb = vals_of(v), vals_of(w)
            for fn in ('c16_eq', 'c16_ne'):
                for s2 in h.run(fn, p, q, st=s1):
                    eq = s2.ret if fn == 'c16_eq' else Not(s2.ret)
                    h.check(s2, Implies(eq, n == m), 'equal arrays have equal length')
                    h.check(s2, Q('i', lambda i: Implies(And(eq, ULT(i, n)), va(i) == vb(i))), 'equal arrays have equal elements')
                    # unequal: show the witness
                    s3 = s2.copy()
                    s3.assume(Not(eq), n == m, Q('i', lambda i: Implies(ULT(i, n), va(i) == vb(i))))
                    h.check(s3, FALSE, 'arrays of equal length and elements compare equal')
                    if oid is not None:
                        holds(h, s2, p, n, v, 'compared array')
        for s2 in h.run('c16_eq', p, p, st=s):
            h.check(s2, s2.ret, 'an array equals itself')


@T.add('access', 'accessors give exactly the elements', opts=OPTS)
def access(h):
    setup(h)
    for s, p, n, oid, v in given(h, h.st, 'a', ('ok', 'def')):
        for s2 in h.run('c16_empty', p, st=s):
            h.check(s2, B(s2.ret) == (n == 0), 'empty() exactly for length 0')
        for fn in ('begin', 'cbegin', 'end', 'cend'):
            for s2 in h.run('c16_' + fn, p, st=s):
                if oid is None:
                    h.check(s2, h.ex.ptrtoint(s2, s2.ret) == 0, '%s of an empty array' % fn)
                else:
                    h.check(s2, And(z3.BoolVal(s2.ret.obj == oid), s2.ret.off == (BV(0) if 'begin' in fn else n * 8)), fn)
        if oid is None:
            continue
        i = h.bv('i')
        for fn in ('at', 'cat', 'idx', 'cidx'):
            s1 = s.copy()
            s1.assume(ULT(i, n))
            for s2 in h.run('c16_' + fn, p, i, st=s1):
                h.check(s2, And(z3.BoolVal(s2.ret.obj == oid), s2.ret.off == i * 8), 'element access gives element i')
        for fn in ('back', 'cback'):
            s1 = s.copy()
            s1.assume(n != 0)
            for s2 in h.run('c16_' + fn, p, st=s1):
                h.check(s2, And(z3.BoolVal(s2.ret.obj == oid), s2.ret.off == (n - 1) * 8), 'back() gives the last element')


@T.add('from vector', 'copies / moves every element of a vector', opts=OPTS)
def fromvec(h):
    setup(h)
    n = h.bv('vec.n')
    for fn in ('c16_vec', 'c16_vecm'):
        st = h.st.copy()
        st.assume(ULE(n, BV(LIM)))
        buf = st.new_seq('vec.buf', n, 8, {0: ('bv', 8)}, kind='param')
        o = st.w(buf.obj)
        o.shadow['live@0'] = const_fn(TRUE)
        vals = o.data[0]
        vec = st.new_cells('vec', 24)
        st.put(vec, 8, buf, 0)
        st.put(vec, 8, Ptr(buf.obj, norm(n * 8)), 8)
        st.put(vec, 8, Ptr(buf.obj, norm(n * 8)), 16)
        p = h.raw('a', h.const('c16_size'), st=st)
        for s2 in h.run(fn, p, vec, st=st):
            holds(h, s2, p, n, vals, 'array from a vector')
            f = s2.mem[buf.obj].shadow['live@0']
            h.check(s2, Q('i', lambda i: Implies(ULT(i, n), f(i))), 'vector elements stay alive')
            if fn == 'c16_vec':
                d = s2.mem[buf.obj].data[0]
                h.check(s2, Q('i', lambda i: Implies(ULT(i, n), d(i) == vals(i))), 'vector elements unchanged')
            finish(h, s2, [p], 'array from a vector')


@T.add('system policy', 'with the system allocator out of memory stops the program', opts=dict(OPTS, on_abort=lambda ex, st: 'dead'))
def sysp(h):
    setup(h)
    p = h.raw('a', h.const('c16_ssize'))
    n = h.bv('n')
    for s in h.run('c16_s_ctor', p, n):
        for s2 in h.run('c16_s_len', p, st=s):
            h.check(s2, s2.ret == n, 'length')
            for s3 in h.run('c16_s_buf', p, st=s2):
                b = s3.ret
                o = s3.mem[b.obj]
                f = o.shadow.get('live@0') or const_fn(FALSE)
                h.check(s3, Q('i', lambda i: Implies(ULT(i, n), f(i))), 'every element is live')
        for s2 in h.run('c16_s_dtor', p, st=s):
            h.check(s2, z3.BoolVal(not live_objects(s2)), 'buffer is released')
