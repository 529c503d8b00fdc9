"""C22: PriorityQueue always serves a highest-priority element and loses none.

Any strict weak ordering of the 2^64 values an element can have is given by ranks: a before b exactly when R(a) < R(b). The heap
property of the vector (no element is outranked by one below it) is the invariant of the queue; CNT is the number of queued
elements that have the value x, for an arbitrary x."""
from kv.cxxvec import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
hp = TokSpec('HP', 8)
vec = VecSpec(tok)
C = Contracts()
CONTRACTS = [C, vec.ct, tok.ct, hp.ct]
R = z3.Function('R', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
ASSUMPTIONS = ['std::vector behaves as its contract says and storage can be obtained; fewer than 2^40 elements',
               'the ordering given to the queue is a strict weak ordering of the values of the elements (every such ordering of the '
               '2^64 values is given by ranks)']


def up(i):
    return norm(z3.LShR(i - 1, 1))


def ordered(r, f, n):
    return Q('i', lambda i: Implies(And(UGE(i, 1), ULT(i, n)), ULE(r(f(up(i))), r(f(i)))), 'heap')


@C.on(exact('HP::operator()(Tok const&, Tok const&) const'), 'the ordering: called with live elements, decides by their values')
def outranks(ex, st, ins, av):
    w = hp.read(ex, st, av[0], 'ordering')
    a = None if st.dead else tok.read(ex, st, av[1], 'element compared')
    b = None if st.dead else tok.read(ex, st, av[2], 'element compared')
    if st.dead:
        return 'dead'
    ex.setr(st, ins, ULT(R(w, a), R(w, b)))


def one(c):
    return If(c, BV(1), BV(0))


def on_write(ex, st, spec, a, v):
    x = st.ghost.get('x')
    if spec is tok and x is not None and a[0].user.get('vec'):
        st.setg('CNT', st.ghost['CNT'] - one(spec.value_at(ex, st, a) == x) + one(v == x))


def on_vec(ex, st, how, oid, what):
    x = st.ghost.get('x')
    if x is None:
        return
    if how == 'in':
        st.setg('CNT', st.ghost['CNT'] + one(what == x))
        return
    lo, hi = what
    ex.oblige(st, norm(hi - lo) == 1, 'pre', 'one element is taken out at a time')
    if not st.dead:
        st.setg('CNT', st.ghost['CNT'] - one(vec.value(st, oid)(lo) == x))


OPTS = {'on_write': on_write, 'on_vec': on_vec,
        'candidates': lambda mods, name: not re.match(r'copied|equal|frame|filled|live |dead |sorted', name)}


def heap_spec(ex, entry, view):
    g = entry.ghost.get('pq')
    cs = []
    if not g:
        return cs
    r, p, x = g['r'], g['p'], entry.ghost['x']

    def slots(s):
        b, fin = s.get(p, 8), s.get(p, 8, 8)
        if not (isinstance(b, Ptr) and isinstance(fin, Ptr)) or b.obj is None or b.obj != fin.obj:
            return None
        q = split_index(norm(fin.off), 8)
        if not q or not s.mem[b.obj].live:
            return None
        return s.mem[b.obj].data[0], q[0]

    if slots(entry) is None:
        return cs
    keys = [(o.id, k[1]) for o in entry.mem.values() if o.live and o.kind not in ('heap-vec', 'param') and isinstance(o, Cells)
            for k, v in o.shadow.items() if isinstance(k, tuple) and k[0] == 'live' and o.size == 8]

    def key(s, k):
        return tok.val_at(s, Ptr(k[0], BV(0)), k[1])

    def rel(name, goal, eqs=False):
        def fn(s):
            d = slots(s)
            return FALSE if d is None else goal(s, *d)
        cs.append(Cand(name, fn))
    cnt0 = entry.ghost['CNT']
    n0 = slots(entry)[1]
    rel('counted', lambda s, f, n: And(s.ghost['CNT'] == cnt0, n == n0))
    rel('heap', lambda s, f, n: ordered(r, f, n))
    for k in keys:
        rel('key %s stays' % (k,), lambda s, f, n, k=k: And(key(s, k) == key(entry, k), n == n0))
    for wn, wf in view.terms:
        if wf(entry) is None:
            continue

        def W(name, goal, wf=wf, wn=wn):
            def g2(s, f, n):
                w = wf(s)
                return FALSE if w is None else goal(s, f, n, w)
            rel('%s %s' % (name, wn), g2)

        def Qi(cond, body, tag):
            return lambda s, f, n, w: Q('i', lambda i: Implies(And(UGE(i, 1), ULT(i, n), cond(i, w)), body(f, i, w)), tag)
        W('inside', lambda s, f, n, w: ULT(w, n))
        W('ordered but above', Qi(lambda i, w: i != w, lambda f, i, w: ULE(r(f(up(i))), r(f(i))), 'A'))
        W('ordered but below', Qi(lambda i, w: up(i) != w, lambda f, i, w: ULE(r(f(up(i))), r(f(i))), 'B'))
        W('ordered but around', Qi(lambda i, w: And(i != w, up(i) != w), lambda f, i, w: ULE(r(f(up(i))), r(f(i))), 'AB'))
        W('grandparents', Qi(lambda i, w: And(w != 0, up(i) == w), lambda f, i, w: ULE(r(f(up(w))), r(f(i))), 'G'))
        for k in keys:
            W('key %s above' % (k,), lambda s, f, n, w, k=k: Q('i', lambda i, v=key(s, k): Implies(And(UGE(i, 1), ULT(i, n), up(i) == w), ULE(r(v), r(f(i)))), 'K'))
            W('key %s below' % (k,), lambda s, f, n, w, k=k: Or(w == 0, ULE(r(f(up(w))), r(key(s, k)))))

            def hole(s, f, n, w, k=k):
                return s.ghost['CNT'] - one(f(w) == x) + one(key(s, k) == x)
            w0 = wf(entry)
            h0 = hole(entry, slots(entry)[0], n0, w0)
            W('counted with key %s at' % (k,), lambda s, f, n, w, k=k, h0=h0: And(ULT(w, n), hole(s, f, n, w, k) == h0))
    return cs


def given(h, name, null=False, n_min=0):
    """a queue of any size in any state it can be in"""
    q = h.raw(name, h.const('q_size'))
    v, oid, n, f = vec.given(h, h.st, name + '.elements', null)
    for k in range(3):
        h.st.put(q, 8, h.st.get(v, 8, 8 * k), h.const('q_vec') + 8 * k)
    w = h.bv(name + '.ordering')
    hp.make(h.st, q, w, h.const('q_hp'))
    x = h.bv('x')
    h.st.ghost['x'] = x
    h.st.setg('CNT', h.bv('copies of x') if f else BV(0))
    p = Ptr(q.obj, BV(h.const('q_vec')))
    r = lambda a: R(w, a)
    if f:
        h.assume(ordered(r, f, n))
    h.st.ghost['pq'] = {'r': r, 'p': p, 'w': w}
    h.ex.loop_specs.append(heap_spec)
    return q, p, oid, n, f, w, r, x


def heap_after(h, s, p, n, r, cnt, what):
    ps = [s.get(p, 8, 8 * k) for k in range(3)]
    if all(isinstance(a, Ptr) and a.isnull_const for a in ps):
        h.check(s, And(n == 0, s.ghost['CNT'] == cnt), what + ': the size and the elements')
        return
    ok = all(isinstance(a, Ptr) and a.obj == ps[0].obj for a in ps) and ps[0].obj is not None and s.mem[ps[0].obj].live
    h.check(s, z3.BoolVal(bool(ok)), what + ': the storage')
    if s.dead or not ok:
        return
    o = s.mem[ps[0].obj]
    live, f = o.shadow['live@0'], o.data[0]
    h.check(s, And(norm(ps[0].off) == 0, norm(ps[1].off) == BV(8) * n), what + ': the number of elements')
    h.check(s, Q('i', lambda i: Implies(ULT(i, o.n), live(i) == ULT(i, n))), what + ': exactly the elements are alive')
    h.check(s, s.ghost['CNT'] == cnt, what + ': which elements are queued')
    h.check(s, ordered(r, f, n), what + ': no element is outranked by one below it')


def has_hp(h, s, q, w, what):
    h.check(s, And(B(hp.live_at(s, q, h.const('q_hp'))), hp.val_at(s, q, h.const('q_hp')) == w), what + ': the ordering')


for nm, fn, how in (('add by move', 'q_add_m', 'm'), ('add a copy', 'q_add_c', 'c'), ('add an lvalue', 'q_add_l', 'c'), ('emplace a value', 'q_emplace', 'v'),
                    ('emplace a copy', 'q_emplace_c', 'c')):
    for null in (False, True):
        def body(h, fn=fn, how=how, null=null):
            q, p, oid, n, f, w, r, x = given(h, 'q', null)
            v = h.bv('item')
            cnt = h.st.ghost['CNT']
            a = v if how == 'v' else tok.make_obj(h.st, 'item', v)
            for s in h.run(fn, q, a):
                heap_after(h, s, p, norm(n + 1), r, cnt + one(v == x), 'add')
                has_hp(h, s, q, w, 'add')
                if how != 'v':
                    h.check(s, B(tok.live_at(s, a)), 'add: the argument is alive')
                if how == 'c':
                    h.check(s, tok.val_at(s, a) == v, 'add: the argument is not changed')
        T.add(nm + (' to a queue that never had any' if null else ''), 'queues exactly the given element', opts=OPTS)(body)


def root_is_first(r, f, n):
    return Q('i', lambda i: Implies(ULT(i, n), ULE(r(f(BV(0))), r(f(i)))), 'root')


@T.add('root lemma', 'in a heap no element outranks the first (induction over the positions)')
def root_lemma(h):
    f = fresh_fn('v', 64, 'i')
    w, n, i = h.bv('ordering'), h.bv('n'), h.bv('i')
    r = lambda a: R(w, a)
    h.assume(ordered(r, f, n), ULT(i, n), ULE(n, MAXLEN))
    h.assume(Q('i', lambda j: Implies(ULT(j, i), ULE(r(f(BV(0))), r(f(j)))), 'induction hypothesis'))
    h.check(h.st, ULE(r(f(BV(0))), r(f(i))), 'the first is not outranked by i')


@T.add('counting lemma', 'how writing, adding and removing an element changes the number of elements with a value (induction over the size)')
def counting(h):
    # C(n), D(n): copies of x among the first n of f and of f with v at i
    f = fresh_fn('v', 64, 'c')
    Cf, Cg = fresh_fn('Cf', 64, 'c'), fresh_fn('Cg', 64, 'c')
    n, i, v, x = h.bv('n'), h.bv('i'), h.bv('value'), h.bv('x')
    g = f.store(i, v)
    h.assume(Cf(BV(0)) == 0, Cg(BV(0)) == 0, ULE(n, MAXLEN), ULE(i, MAXLEN))

    def hyp(k):
        return Cg(k) == Cf(k) + If(ULT(i, k), one(v == x) - one(f(i) == x), BV(0))
    h.check(h.st, hyp(BV(0)), 'none among none')
    s = h.st.copy()
    s.assume(hyp(n), Cf(norm(n + 1)) == Cf(n) + one(f(n) == x), Cg(norm(n + 1)) == Cg(n) + one(g(n) == x))
    h.check(s, hyp(norm(n + 1)), 'one more')


@T.add('peek', 'gives an element that no queued element outranks', opts=OPTS)
def peek(h):
    q, p, oid, n, f, w, r, x = given(h, 'q')
    h.assume(n != 0, root_is_first(r, f, n))
    cnt = h.st.ghost['CNT']
    k = h.bv('k')
    for s in h.run('q_peek', q):
        ok = isinstance(s.ret, Ptr) and s.ret.obj == oid
        h.check(s, z3.BoolVal(ok), 'peek: an element of the queue')
        if s.dead or not ok:
            continue
        i = split_index(norm(s.ret.off), 8)[0]
        h.check(s, ULT(i, n), 'peek: a queued element')
        h.check(s, Implies(ULT(k, n), Not(ULT(r(f(k)), r(f(i))))), 'peek: no queued element outranks it')
        heap_after(h, s, p, n, r, cnt, 'peek')
        has_hp(h, s, q, w, 'peek')


@T.add('pop', 'gives a highest element and removes exactly it', opts=OPTS)
def pop(h):
    q, p, oid, n, f, w, r, x = given(h, 'q')
    h.assume(n != 0, root_is_first(r, f, n))
    cnt = h.st.ghost['CNT']
    k = h.bv('k')
    out = h.raw('out', 8)
    for s in h.run('q_pop', q, out):
        h.check(s, B(tok.live_at(s, out)), 'pop: gives an element')
        v = tok.val_at(s, out)
        h.check(s, Implies(ULT(k, n), Not(ULT(r(f(k)), r(v)))), 'pop: no queued element outranks it')
        heap_after(h, s, p, norm(n - 1), r, cnt - one(v == x), 'pop')
        has_hp(h, s, q, w, 'pop')


for null in (False, True):
    @T.add('empty' + (' without storage' if null else ''), 'whether there is an element', opts=OPTS)
    def empty(h, null=null):
        q, p, oid, n, f, w, r, x = given(h, 'q', null)
        cnt = h.st.ghost['CNT']
        for s in h.run('q_empty', q):
            h.check(s, B(s.ret) == (n == 0), 'empty')
            heap_after(h, s, p, n, r, cnt, 'empty')

    @T.add('move construction' + (' without storage' if null else ''), 'the new queue has the elements and the ordering, the old one none', opts=OPTS)
    def move(h, null=null):
        q, p, oid, n, f, w, r, x = given(h, 'q', null)
        cnt = h.st.ghost['CNT']
        t = h.raw('to', h.const('q_size'))
        for s in h.run('q_move', t, q):
            heap_after(h, s, Ptr(t.obj, BV(h.const('q_vec'))), n, r, cnt, 'move')
            has_hp(h, s, t, w, 'move')
            a, b = s.get(p, 8), s.get(p, 8, 8)
            h.check(s, z3.BoolVal(isinstance(a, Ptr) and isinstance(b, Ptr) and a.isnull_const and b.isnull_const), 'move: the old queue is empty')
            h.check(s, B(hp.live_at(s, q, h.const('q_hp'))), 'move: the old queue can be destroyed')

    @T.add('destruction' + (' without storage' if null else ''), 'destroys every element once', opts=OPTS)
    def end(h, null=null):
        q, p, oid, n, f, w, r, x = given(h, 'q', null)
        for s in h.run('q_end', q):
            h.check(s, z3.BoolVal(not [o for o in s.mem.values() if o.kind == 'heap-vec' and o.live]), 'destruction: the storage is released')
            h.check(s, Not(B(hp.live_at(s, q, h.const('q_hp')))), 'destruction: the ordering is destroyed')


for fn in ('q_new', 'q_new0'):
    @T.add('construction ' + fn, 'an empty queue with the given ordering', opts=OPTS)
    def new(h, fn=fn):
        q = h.raw('q', h.const('q_size'))
        w = h.bv('ordering')
        h.st.setg('CNT', BV(0))
        h.st.ghost['x'] = h.bv('x')
        args = []
        if fn == 'q_new':
            args = [hp.make_obj(h.st, 'given', w)]
        else:
            w = BV(hp.default)
        for s in h.run(fn, q, *args):
            heap_after(h, s, Ptr(q.obj, BV(h.const('q_vec'))), BV(0), lambda a: R(w, a), BV(0), 'construction')
            has_hp(h, s, q, w, 'construction')
