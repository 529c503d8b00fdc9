"""The hash table's representation invariant and contracts, shared by C11-C14.

A table is its words (capacity, counts, minimum, storage) and one sequence of slots (stored hash, element).  Ghost state:
LOC(key) the slot of a key, CL(i)/CR(i) the number of live/removed slots among the first i, FR a free slot.
Keys: KEY(v) is the key of an element of value v; a lookup value matches exactly the elements of its key, and equal keys hash
equally, which is what the policy is asked for -- beyond that hash and matches are arbitrary, so every collision is covered."""
import re
from kv.lib import *

KEY = z3.Function('KEY', z3.BitVecSort(64), z3.BitVecSort(64))
CH = z3.Function('CH', z3.BitVecSort(64), z3.BitVecSort(32))
HASH = z3.Function('HASH', z3.BitVecSort(64), z3.BitVecSort(32))
tok = TokSpec()
C = Contracts()


def W(v):
    return BV(v, 32)


def z64(e):
    return e if e.size() == 64 else z3.ZeroExt(64 - e.size(), e)


def dist(cap, a, b):
    """steps from slot a forward to slot b in a table of cap slots"""
    return If(UGE(b, a), b - a, b + cap - a)


def on_way(a, j, b):
    """slot j is one of those from a up to, but not including, b, going forward around the table: dist(a, j) < dist(a, b)"""
    return If(ULE(a, b), And(ULE(a, j), ULT(j, b)), Or(ULE(a, j), ULT(j, b)))


def key_at(ex, st, p):
    return ex.load(st, p, ir.I64)


@C.on(exact('Pol::hash(unsigned long const&)'), 'policy hash: some function of the key')
def p_hash(ex, st, ins, av):
    k = key_at(ex, st, av[0])
    if st.dead:
        return 'dead'
    ex.setr(st, ins, HASH(k))


@C.on(exact('Pol::matches(unsigned long const&, Tok const&)'), 'policy matches: called with a live element; true exactly for elements of that key')
def p_matches(ex, st, ins, av):
    k = key_at(ex, st, av[0])
    v = tok.read(ex, st, av[1], 'comparison')
    if st.dead:
        return 'dead'
    ex.setr(st, ins, KEY(v) == k)


@C.on(rx(r'::computeHash<unsigned long>\(unsigned long const&\) const$'), 'computeHash (discharged by its own target): at least 2, decided by the policy hash')
def compute_hash(ex, st, ins, av):
    if st.ghost.get('hash body'):
        return NOTHANDLED
    k = key_at(ex, st, av[1])
    if st.dead:
        return 'dead'
    st.assume(UGE(CH(k), 2))
    ex.setr(st, ins, CH(k))


@C.on(rx(r'^AP::AP\((AP const&|AP&&)?\)$'), 'allocator policy construction: takes the state of its source')
def ap_ctor(ex, st, ins, av):
    v = ex.load(st, av[1], ir.I64) if len(av) > 1 else fresh_bv('ap')
    if st.dead:
        return 'dead'
    ex.store(st, av[0], ir.I64, v)
    return 'dead' if st.dead else None


@C.on(rx(r'^AP::report'), 'allocator policy reports return')
def ap_report(ex, st, ins, av):
    st.event('report')


@C.on(rx(r'^AP::am_malloc'), 'am_malloc: null or fresh storage of the given size')
def ap_malloc(ex, st, ins, av):
    s2 = st.copy()
    s2.event('allocfail')
    ex.setr(s2, ins, NULL)
    p = ex.new_heap(st, av[1], 'slots', 'heap-ap')
    st.event('alloc', p.obj, ex.load(st, av[0], ir.I64))
    ex.setr(st, ins, p)
    return [x for x in (st, s2) if ex.feasible(x)]


@C.on(rx(r'^AP::am_free'), 'am_free: releases storage from am_malloc once, null is ignored')
def ap_free(ex, st, ins, av):
    if isinstance(av[1], Ptr) and av[1].obj is not None:
        st.event('free-ap', av[1].obj, ex.load(st, av[0], ir.I64))
    ex.free(st, av[1], 'ap')
    return 'dead' if st.dead else None


class Lay:
    def __init__(self, h):
        for n in ('size', 'entry', 'r', 'i', 'it', 'cap', 'nel', 'ndel', 'tab', 'min', 'hash_off', 't_off', 'max', 'mincap'):
            setattr(self, n, h.const('ht_' + n))


class View:
    """what the slots of a table are in a state"""

    def __init__(self, L, s, oid):
        o = s.mem[oid]
        self.oid, self.n = oid, o.n
        self.H, self.V = o.data[L.hash_off], o.data[L.t_off]
        self.live = o.shadow.get('live@%d' % L.t_off) or const_fn(FALSE)


class Tab:
    """an arbitrary table that satisfies the invariant"""

    def __init__(self, h, st, name='t', chains=True, inv=True):
        L = Lay(h)
        p = h.raw(name, L.size, st=st)
        words = {x: h.bv('%s.%s' % (name, x), 32) for x in ('capacity', 'elements', 'deleted', 'minimum')}
        self.fill(h.ex, st, L, p, name, words['capacity'], words['elements'], words['deleted'], words['minimum'], h.bv(name + '.ap'), chains, inv)
        if inv:
            st.assume(*load(self.nel, self.ndel, self.cap))
        self.h = h
        h.ex.vocab += [self.cap64]
        st.ghost['table'] = self

    def fill(self, ex, st, L, p, name, cap, nel, ndel, mn, apw, chains=True, inv=True):
        """the table at p has these words, fresh storage and slots as the invariant says"""
        self.L, self.p, self.cap, self.nel, self.ndel, self.min, self.apw = L, p, cap, nel, ndel, mn, apw
        self.cap64 = z64(cap)
        seq = st.new_seq(name + '.slots', self.cap64, L.entry, {L.hash_off: ('bv', 4), L.t_off: ('bv', 8)}, kind='heap-ap')
        self.oid = seq.obj
        st.w(seq.obj).shadow['live@%d' % L.t_off] = fresh_fn('alive', 'bool')
        st.put(p, 8, apw, 0)
        for off, v in ((L.cap, cap), (L.nel, nel), (L.ndel, ndel), (L.min, mn)):
            st.put(p, 4, v, off)
        st.put(p, 8, seq, L.tab)
        v = self.v = View(L, st, seq.obj)
        self.CL, self.CR = fresh_fn('livecount', 32), fresh_fn('removedcount', 32)
        f = z3.Function(fresh_name('LOC'), z3.BitVecSort(64), z3.BitVecSort(64))
        self.LOC = Fn(lambda k: f(k))
        self.FR = fresh_bv('free slot')
        self.M = mask(st, cap)
        if inv:
            st.assume(*invariant(L, v, cap, nel, ndel, mn, self.CL, self.CR, self.LOC, self.M, True, chains))
            # lemmas (discharged by the target 'counting lemma'): fewer used slots than slots leave a free one
            st.assume(ULT(self.FR, self.cap64), v.H(self.FR) == 0)
        st.ghost['probe'] = {'oid': seq.obj, 'cap': self.cap64, 'fr': self.FR, 'mask': self.M}
        st.ghost['probes'] = dict(st.ghost.get('probes', {}), **{str(seq.obj): (cap, self.M, self.FR)})
        if not any(getattr(x, 'kv_probe', 0) for x in ex.loop_specs):
            ex.loop_specs.append(probe_spec(L))
        return self

    def present(self, v, k):
        return lambda i: And(ULT(i, self.cap64), UGE(v.H(i), 2), KEY(v.V(i)) == k)

    def words(self, s):
        L = self.L
        return [s.get(self.p, n, off) for n, off in ((4, L.cap), (4, L.nel), (4, L.ndel), (8, L.tab), (4, L.min), (8, 0))]

    def same(self, ex, s):
        """nothing about the table differs from what the invariant was assumed of"""
        L = self.L
        cap, nel, ndel, tab, mn, ap = self.words(s)
        if self.oid not in s.mem or not s.mem[self.oid].live:
            return FALSE
        v = View(L, s, self.oid)
        if not (v.H is self.v.H and v.V is self.v.V and v.live is self.v.live) or not (isinstance(tab, Ptr) and tab.obj == self.oid and tab.null is False):
            return FALSE
        return And(cap == self.cap, nel == self.nel, ndel == self.ndel, mn == self.min, ap == self.apw, norm(tab.off) == 0)

    def unchanged(self, s, what):
        L = self.L
        h = self.h
        cap, nel, ndel, tab, mn, ap = self.words(s)
        h.check(s, And(cap == self.cap, nel == self.nel, ndel == self.ndel, mn == self.min, ap == self.apw), '%s: the table is unchanged' % what)
        ok = isinstance(tab, Ptr) and tab.obj == self.oid and tab.null is False and s.mem[self.oid].live
        h.check(s, And(z3.BoolVal(ok), norm(tab.off) == 0 if ok else FALSE), '%s: the storage is unchanged' % what)
        if not ok or s.dead:
            return
        v = View(L, s, self.oid)
        if not (v.H is self.v.H and v.V is self.v.V and v.live is self.v.live):
            h.check(s, Q('i', lambda i: Implies(ULT(i, self.cap64), And(v.H(i) == self.v.H(i), v.live(i) == self.v.live(i), Implies(v.live(i), v.V(i) == self.v.V(i))))),
                    '%s: the slots are unchanged' % what)

    def keyptr(self, st, k):
        kp = st.new_cells('key', 8)
        st.put(kp, 8, k)
        st.ghost['probe'] = dict(st.ghost['probe'], key=k)
        # the instance of the chain invariant for the one slot that may hold k
        v, n, ks, e = self.v, self.cap64, self.LOC(k), home(self.M, CH(k))
        st.assume(Q('i', lambda j: Implies(And(ULT(ks, n), UGE(v.H(ks), 2), KEY(v.V(ks)) == k, ULT(j, n), on_way(e, j, ks)), v.H(j) != 0),
                    'no gap on the way to the key'))
        return kp


def pow2(x):
    return And(x != 0, x & (x - 1) == 0)


def home(M, hv):
    return z64(M(hv))


def mask(st, cap):
    """x & (cap - 1) for a power of two cap under a name, with what the proofs need of it (discharged by 'mask lemma')"""
    f = z3.Function(fresh_name('MASK'), z3.BitVecSort(32), z3.BitVecSort(32))
    mark_tags(f, ('m',))
    st.ghost['masks'] = st.ghost.get('masks', ()) + ((simp(cap), f),)
    st.assume(*mask_facts(f, cap))
    return f


def mask_facts(f, cap):
    return [Q('m', lambda x: ULT(f(x), cap), 'masked below the capacity', (32,)),
            Q('m', lambda x: Implies(ULT(x, cap), f(x) == x), 'masking keeps what is below the capacity', (32,)),
            Q(('m', 'm'), lambda x, y: Implies(y == x + 1, f(y) == If(f(x) == cap - 1, W(0), f(x) + 1)), 'masks follow each other', (32, 32))]


def masked(st, op, a, b):
    for cap, f in st.ghost.get('masks', ()):
        if a.size() != 32:
            return None
        if op == 'and':
            m = simp(cap - 1)
            for x, y in ((a, b), (b, a)):
                if simp(y).eq(m):
                    p = simp(x - 1)
                    if p.num_args() == 0 and not z3.is_bv_value(p):  # the follower of a value held somewhere
                        st.assume(f(x) == If(f(p) == cap - 1, W(0), f(p) + 1))
                    return f(x)
        elif op == 'urem' and simp(b).eq(cap):
            return f(a)


def mask_lemma(h):
    cap, x = h.bv('cap', 32), h.bv('x', 32)
    h.assume(pow2(cap))

    def f(v):
        return v & (cap - 1)
    for q in mask_facts(f, cap):
        h.check(h.st, q.body(x) if len(q.tags) == 1 else q.body(x, x + 1), 'x & (capacity - 1): ' + q.name)
    h.check(h.st, z3.URem(x, cap) == f(x), 'remainder by a power of two is masking')


def probing(L, v, cap, M, n=None):
    n = z64(cap) if n is None else n
    # only ever needed at the two slots of a goal of this form, hence a tag of its own
    return Q(('c', 'c'), lambda i, j: Implies(And(ULT(i, n), ULT(j, n), UGE(v.H(i), 2),
             on_way(home(M, v.H(i)), j, i)), v.H(j) != 0), 'no gap on the way to a live slot')


def invariant(L, v, cap, nel, ndel, mn, CL, CR, LOC, M, lemmas=False, chains=True):
    n = z64(cap)
    out = [pow2(cap), UGE(cap, L.mincap), ULE(cap, L.max), pow2(mn), UGE(mn, L.mincap), ULE(mn, cap),
           Q('i', lambda i: Implies(ULT(i, n), v.live(i) == UGE(v.H(i), 2)), 'a slot is live exactly when its hash says so'),
           Q('i', lambda i: Implies(And(ULT(i, n), UGE(v.H(i), 2)), And(v.H(i) == CH(KEY(v.V(i))), LOC(KEY(v.V(i))) == i)), 'stored hash; no key twice'),
           ] + ([probing(L, v, cap, M)] if chains else [])
    if CL is not None:
        out += counts(v.H, n, nel, ndel, CL, CR)
    if lemmas:
        out.append(Q('i', lambda i: Implies(ULE(i, n), And(ULE(z64(CL(i)) + z64(CR(i)), i), ULE(CL(i), nel), ULE(CR(i), ndel))), 'counts are bounded'))
    return out


def load(nel, ndel, cap):
    return [ULE(nel, cap), ULE(ndel, cap), ULT(nel + ndel, cap)]


def counts(H, n, nel, ndel, CL, CR):
    one, zero = W(1), W(0)
    return [CL(BV(0)) == 0, CR(BV(0)) == 0, CL(n) == nel, CR(n) == ndel,
            Q('i', lambda i: Implies(ULT(i, n), And(CL(norm(i + 1)) == CL(i) + If(UGE(H(i), 2), one, zero),
                                                   CR(norm(i + 1)) == CR(i) + If(H(i) == 1, one, zero))), 'counts')]


NAMES = ['capacity is a power of two', 'capacity not below the least', 'capacity not above the greatest', 'minimum is a power of two',
         'minimum not below the least', 'minimum not above the capacity',
         'live slots are those with a live hash', 'stored hashes fit their keys and no key occurs twice', 'no gap on the way to a live slot',
         'count of none', 'count of none', 'element count is the number of live slots', 'removed count is the number of removed slots', 'counting']


def check_invariant(h, t, s, oid, CL, CR, LOC, M, what):
    """post: the table at t.p satisfies the invariant with storage oid; each part is a named obligation"""
    L, p = t.L, t.p
    cap, nel, ndel, mn = (s.get(p, 4, o) for o in (L.cap, L.nel, L.ndel, L.min))
    tab = s.get(p, 8, L.tab)
    ok = isinstance(tab, Ptr) and tab.obj == oid and oid in s.mem and s.mem[oid].live and tab.null is False
    h.check(s, And(z3.BoolVal(ok), norm(tab.off) == 0 if ok else FALSE), '%s: the table has its storage' % what)
    if not ok or s.dead:
        return None
    v = View(L, s, oid)
    h.check(s, v.n == z64(cap), '%s: the storage has room for the capacity' % what)
    for nm, g in zip(['element count', 'removed count', 'a slot is free'], load(nel, ndel, cap)):
        h.check(s, g, '%s: %s' % (what, nm))
    gs = invariant(L, v, cap, nel, ndel, mn, CL, CR, LOC, M)
    for nm, g in zip(NAMES, gs):
        h.check(s, g, '%s: %s' % (what, nm))
    return v


def one_if(c):
    return If(c, W(1), W(0))


def slot_of(t, p, oid=None):
    """index of the slot an Entry pointer names, or None"""
    if not isinstance(p, Ptr) or p.obj != (t.oid if oid is None else oid):
        return None
    r = split_index(norm(p.off), t.L.entry)
    return r[0] if r and r[1] == 0 else None


def element_of(t, p, oid=None):
    if not isinstance(p, Ptr) or p.obj != (t.oid if oid is None else oid):
        return None
    r = split_index(norm(p.off), t.L.entry)
    return r[0] if r and r[1] == t.L.t_off else None


def entry_ptr(t, i, oid=None):
    return Ptr(t.oid if oid is None else oid, norm(BV(t.L.entry) * i))


def way_used(v, n, e, pos):
    return Q('i', lambda j: Implies(And(ULT(j, n), on_way(e, j, pos)), v.H(j) != 0), 'slots before the place are used')


def place_for(h, st, t, k, hv):
    """an Insert as findForAdd gives it for a key that is absent (its postcondition)"""
    s = fresh_bv('place')
    st.assume(ULT(s, t.cap64), ULT(t.v.H(s), 2), way_used(t.v, t.cap64, home(t.M, hv), s),
              Q('i', lambda i: Not(t.present(t.v, k)(i))))
    out = h.raw('insert', t.L.i, st=st)
    return s, out


@C.on(rx(r'::insertUnique\(unsigned int\)$'), 'insertUnique (discharged by its own target): a slot without element, reached from the hash through used slots only')
def insert_unique(ex, st, ins, av):
    if st.ghost.get('unique body'):
        return NOTHANDLED
    L = st.ghost['table'].L
    tab, cap = ex.load(st, Ptr(av[0].obj, norm(av[0].off + L.tab)), ir.PTR), ex.load(st, Ptr(av[0].obj, norm(av[0].off + L.cap)), ir.I32)
    if st.dead:
        return 'dead'
    pr = isinstance(tab, Ptr) and st.ghost['probes'].get(str(tab.obj))
    if not pr:
        raise Unsupported('insertUnique on an unknown table')
    c, M, fr = pr
    v = View(L, st, tab.obj)
    n = z64(c)
    ex.oblige(st, And(cap == c, v.n == n, norm(tab.off) == 0), 'pre', 'insertUnique: the table has storage for its capacity')
    if st.dead:
        return 'dead'
    if callable(fr):
        fr = fr(ex, st, v)
        if st.dead:
            return 'dead'
    ex.oblige(st, And(ULT(fr, n), ULT(v.H(fr), 2)), 'pre', 'insertUnique: some slot holds no element')
    if st.dead:
        return 'dead'
    pos = fresh_bv('place')
    st.assume(ULT(pos, n), ULT(v.H(pos), 2), Q('i', lambda j: Implies(And(ULT(j, n), on_way(home(M, av[1]), j, pos)), UGE(v.H(j), 2)), 'way to the place'))
    p = Ptr(tab.obj, norm(BV(L.entry) * pos))
    if len(av) != 2 or ins.res is None:
        raise Unsupported('insertUnique returns its result in another way')
    ex.setr(st, ins, Agg([p, av[1]]))


@C.on(rx(r'::changeCapacity\(unsigned int\)$'), 'changeCapacity (discharged by its own target): same elements in fresh storage of the new capacity, or failure and no change')
def change_capacity(ex, st, ins, av):
    if st.ghost.get('change body'):
        return NOTHANDLED
    t = st.ghost['table']
    L, new = t.L, av[1]
    same = t.same(ex, st)
    ex.oblige(st, same, 'pre', 'changeCapacity: the table satisfies its invariant')
    ex.oblige(st, And(pow2(new), UGE(new, L.mincap), ULE(new, L.max), ULE(t.min, new)), 'pre', 'changeCapacity: the capacity is a power of two within its bounds')
    ex.oblige(st, ULT(t.nel, new), 'pre', 'changeCapacity: the new capacity exceeds the number of elements')
    if st.dead:
        return 'dead'
    s2 = st.copy()
    s2.event('allocfail')
    ex.setr(s2, ins, FALSE)
    old = View(L, st, t.oid)
    st.w(t.oid).shadow['live@%d' % L.t_off] = const_fn(FALSE)
    ex.free(st, Ptr(t.oid, BV(0)), 'ap')
    st.event('free-ap', t.oid, t.apw)
    t2 = Tab.__new__(Tab)
    t2.h = t.h
    t2.fill(ex, st, L, t.p, 'resized', new, t.nel, W(0), t.min, t.apw)
    v2 = t2.v
    st.assume(*same_elements(t, old, t2))
    st.assume(Q('i', lambda i: v2.H(i) != 1))
    st.ghost['table'] = t2
    ex.setr(st, ins, TRUE)
    return [st, s2]


def same_elements(t, v, t2, w=lambda i: TRUE):
    """the tables hold the same elements, each found under its key"""
    v2 = t2.v
    return [Q('i', lambda i: Implies(And(ULT(i, t.cap64), UGE(v.H(i), 2), w(i)), held(t2, v2, t2.LOC(KEY(v.V(i))), v.V(i), v.H(i))), 'no element is lost'),
            Q('i', lambda i: Implies(And(ULT(i, t2.cap64), UGE(v2.H(i), 2)), And(held(t, v, t.LOC(KEY(v2.V(i))), v2.V(i), v2.H(i)), w(t.LOC(KEY(v2.V(i)))))), 'no element appears')]


def held(t, v, i, val, hv):
    return And(ULT(i, t.cap64), UGE(v.H(i), 2), v.V(i) == val, v.H(i) == hv)


def masked_value(M, e):
    if e.size() == 64 and e.decl().name() in ('zero_extend', 'concat'):
        e = e.children()[-1]
    return e.size() == 32 and z3.is_app(e) and e.num_args() == 1 and e.decl().eq(M)


def wide(v):
    return None if not isinstance(v, z3.BitVecRef) else z64(v) if v.size() == 32 else v


def probe_spec(L):
    def spec(ex, entry, view):
        g = entry.ghost.get('probe')
        cs = []
        if not g:
            return cs
        oid, n, fr, k, M = g['oid'], g['cap'], g.get('fr'), g.get('key'), g['mask']

        def pos_of(v):
            if isinstance(v, Ptr) and v.obj == oid:
                r = split_index(norm(v.off), L.entry)
                return r[0] if r and r[1] == 0 else None
            return None
        ptrs, nums = [], []
        for w in sorted(view.cur, key=str):
            v = view.cur[w]
            if isinstance(v, Ptr) and v.obj == oid:
                ptrs.append(w)
            elif isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
                nums.append(w)

        def add(nm, fn):
            cs.append(Cand(nm, fn))
        pos = []
        for w in ptrs:
            e = pos_of(ex.loc_value(entry, w))
            if e is not None:
                pos.append((w, e, lambda s, w=w: pos_of(ex.loc_value(s, w))))
        for w in nums:
            e = ex.loc_value(entry, w)
            if isinstance(e, z3.BitVecRef):
                if masked_value(M, e):
                    # an index into the table
                    pos.append((str(w), z64(e) if e.size() == 32 else e, lambda s, w=w: wide(ex.loc_value(s, w))))
                elif e.size() == 32:
                    pos.append((str(w) + '&mask', z64(M(e)), lambda s, w=w: z64(M(ex.loc_value(s, w))) if isinstance(ex.loc_value(s, w), z3.BitVecRef) else None))

        for i, (w, e, get) in enumerate(pos):
            add('%s<cap' % (w,), lambda s, get=get: FALSE if get(s) is None else ULT(get(s), n))
            for (w2, e2, get2) in pos[i + 1:]:
                add('%s==%s' % (w, w2), lambda s, get=get, get2=get2: FALSE if get(s) is None or get2(s) is None else get(s) == get2(s))
            # steps from the start of the search: bounded by the capacity
            view.measures.append((get, lambda b, a, e=e: And(ULT(b, n), on_way(e, a, b))))
            if True:
                if fr is not None:
                    add('%s before free' % (w,), lambda s, e=e, get=get: FALSE if get(s) is None else Not(on_way(e, fr, get(s))))
                bodies = [('used', lambda H, V, j: H(j) != 0)]
                if g.get('live'):
                    bodies.append(('live', lambda H, V, j: UGE(H(j), 2)))
                if k is not None:
                    bodies.append(('no match', lambda H, V, j: Not(And(UGE(H(j), 2), KEY(V(j)) == k))))
                for nm, b in bodies:
                    def fn(s, e=e, get=get, b=b):
                        d = get(s)
                        if d is None:
                            return FALSE
                        v = View(L, s, oid)
                        return Q('i', lambda j: Implies(And(ULT(j, n), on_way(e, j, d)), b(v.H, v.V, j)), 'slots passed')
                    add('passed %s: %s' % (w, nm), fn)
                    # a slot remembered on the way
                for q in ptrs:
                    if q == w:
                        continue

                    def rem(s, e=e, get=get, q=q):
                        d, x = get(s), ex.loc_value(s, q)
                        if d is None:
                            return FALSE
                        v = View(L, s, oid)
                        none = Q('i', lambda j: Implies(And(Bnull(x), ULT(j, n), on_way(e, j, d)), v.H(j) != 1), 'none removed passed')
                        r = pos_of(x)
                        if not isinstance(x, Ptr):
                            return FALSE
                        if x.isnull_const:
                            return none
                        if r is None:
                            return FALSE
                        return [none, Or(Bnull(x), And(ULT(r, n), v.H(r) == 1, on_way(e, r, d)))]
                    add('%s remembers a removed slot passed by %s' % (q, w), rem)
        return cs
    spec.kv_probe = 1
    return spec


def Bnull(x):
    if not isinstance(x, Ptr):
        return FALSE
    if x.isnull_const:
        return TRUE
    return FALSE if x.null is False else B(x.null)


def insert_unique_body(h):
    L = Lay(h)
    # any table with storage for its capacity and a slot without element: nothing else about it is needed
    t = Tab(h, h.st, inv=False)
    h.st.assume(pow2(t.cap), ULE(t.cap, L.max), ULT(t.FR, t.cap64), ULT(t.v.H(t.FR), 2))
    h.st.ghost['probe'] = dict(h.st.ghost['probe'], live=True)
    hv = h.bv('hash', 32)
    h.st.ghost['unique body'] = True
    out = h.raw('result', L.i)
    for s in h.run('ht_unique', t.p, hv, out):
        t.unchanged(s, 'insertUnique')
        for s1 in h.run('ht_ihash', out, st=s):
            h.check(s1, s1.ret == hv, 'insertUnique: carries the hash')
        for s3 in h.run('ht_ientry', out, st=s):
            i = slot_of(t, s3.ret)
            h.check(s3, z3.BoolVal(i is not None), 'insertUnique: the place is a slot of the table')
            if i is not None:
                h.check(s3, And(ULT(i, t.cap64), ULT(t.v.H(i), 2)), 'insertUnique: the place holds no element')
                h.check(s3, Q('i', lambda j: Implies(And(ULT(j, t.cap64), on_way(home(t.M, hv), j, i)), UGE(t.v.H(j), 2))),
                        'insertUnique: the place is reached through elements only')


def counting_lemma(h):
    """by induction over the number of slots counted; H, CL and CR are arbitrary functions with the recurrence of `counts`"""
    H, CL, CR = fresh_fn('H', 32), fresh_fn('CL', 32), fresh_fn('CR', 32)
    n, k = h.bv('n'), h.bv('k')
    h.assume(ULE(n, BV(1 << 31)), ULT(k, n))
    step = [q.body(k) for q in counts(H, n, W(0), W(0), CL, CR) if isinstance(q, Q)]
    zero = [CL(BV(0)) == 0, CR(BV(0)) == 0]

    def lemma(name, P):
        base, ind = h.st.copy(), h.st.copy()
        base.assume(*zero)
        h.check(base, P(BV(0)), name + ': nothing counted')
        ind.assume(P(k), *step)
        h.check(ind, P(norm(k + 1)), name + ': one more slot counted')
    sm = lambda i: z64(CL(i)) + z64(CR(i))
    lemma('counts are bounded', lambda i: ULE(sm(i), i))
    # where every slot seen is used, the counts add up; so counts below the number of slots leave a free slot
    ind = h.st.copy()
    ind.assume(sm(k) == k, H(k) != 0, *step)
    h.check(ind, sm(norm(k + 1)) == k + 1, 'used slots are all counted: one more slot counted')
    base = h.st.copy()
    base.assume(*zero)
    h.check(base, sm(BV(0)) == 0, 'used slots are all counted: nothing counted')
    # where every slot seen holds an element, the live count adds up
    ind = h.st.copy()
    ind.assume(z64(CL(k)) == k, UGE(H(k), 2), *step)
    h.check(ind, z64(CL(norm(k + 1))) == k + 1, 'elements are all counted: one more slot counted')
    # the counts never go down (by the bound above they do not wrap), so those of all slots bound those of fewer
    for c, nm in ((CL, 'live'), (CR, 'removed')):
        ind = h.st.copy()
        ind.assume(ULE(sm(k), k), ULE(c(norm(k + 1)), c(n)), *step)
        h.check(ind, ULE(c(k), c(n)), 'the %s count of fewer slots is no greater' % nm)


def removed(h, t, s, pos, what):
    """post of a removal of the element in slot pos"""
    v = View(t.L, s, t.oid)
    h.check(s, And(Not(v.live(pos)), v.H(pos) == 1), '%s: the element is gone and its slot marked' % what)
    h.check(s, Q('i', lambda i: Implies(And(ULT(i, t.cap64), i != pos), And(v.H(i) == t.v.H(i), v.live(i) == t.v.live(i), Implies(t.v.live(i), v.V(i) == t.v.V(i))))),
            '%s: every other slot keeps its element' % what)
    h.check(s, s.get(t.p, 4, t.L.nel) == t.nel - 1, '%s: the element count falls by one' % what)
    h.check(s, z3.BoolVal(len(events(s, 'destroy')) == 1), '%s: one element is destroyed' % what)
    check_invariant(h, t, s, t.oid, Fn(lambda i: t.CL(i) - one_if(UGT(i, pos))), Fn(lambda i: t.CR(i) + one_if(UGT(i, pos))), t.LOC, t.M, what)


def an_element(h, st, t):
    pos = fresh_bv('slot')
    st.assume(ULT(pos, t.cap64), t.v.live(pos))
    return pos


def remove_body(h):
    t = Tab(h, h.st)
    pos = an_element(h, h.st, t)
    out = h.raw('result', t.L.r)
    for s1 in h.run('ht_result', out, entry_ptr(t, pos)):
        for s in h.run('ht_remove', t.p, out, st=s1):
            removed(h, t, s, pos, 'remove')


def remove_key_body(h):
    t = Tab(h, h.st, chains=True)
    k = h.bv('key')
    kp = t.keyptr(h.st, k)
    for s in h.run('ht_remove_key', t.p, kp):
        there, gone = s.copy(), s.copy()
        pos = t.LOC(k)
        there.assume(t.present(t.v, k)(pos))
        gone.assume(Q('i', lambda i: Not(t.present(t.v, k)(i))))
        if h.ex.feasible(gone):
            t.unchanged(gone, 'removeIfExists of an absent key')
        if h.ex.feasible(there):
            removed(h, t, there, pos, 'removeIfExists')


def clear_body(h):
    t = Tab(h, h.st)
    zero = Fn(lambda i: W(0))
    for s in h.run('ht_clear', t.p):
        v = check_invariant(h, t, s, t.oid, zero, zero, t.LOC, t.M, 'clear')
        if v:
            h.check(s, And(s.get(t.p, 4, t.L.nel) == 0, s.get(t.p, 4, t.L.ndel) == 0), 'clear: nothing is counted')
            h.check(s, Q('i', lambda i: Implies(ULT(i, t.cap64), And(v.H(i) == 0, Not(v.live(i))))), 'clear: every element is destroyed and every slot free')
            h.check(s, And(s.get(t.p, 4, t.L.cap) == t.cap, s.get(t.p, 4, t.L.min) == t.min), 'clear: the capacity stays')


def elements_body(h):
    t = Tab(h, h.st)
    for s in h.run('ht_elements', t.p):
        h.check(s, s.ret == z64(t.nel), 'elements: the number of elements present')
        t.unchanged(s, 'elements')
    for s in h.run('ht_memory', t.p):
        h.check(s, s.ret == t.cap64 * t.L.entry, 'estimateMemoryUse: the size of the storage')


def iter_spec(ex, entry, view):
    g = entry.ghost.get('iter')
    cs = []
    if not g:
        return cs
    oid, n, L = g
    for w in sorted(view.cur, key=str):
        v = view.cur[w]
        if isinstance(v, Ptr) and v.obj == oid:
            def pos_of(s, w=w):
                x = ex.loc_value(s, w)
                if not isinstance(x, Ptr) or x.obj != oid:
                    return None
                r = split_index(norm(x.off), L.entry)
                return r[0] if r and r[1] == 0 else None
            e = pos_of(entry)
            if e is None:
                continue
        elif isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
            e = ex.loc_value(entry, w)
            if not isinstance(e, z3.BitVecRef):
                continue
            e = z64(e)

            def pos_of(s, w=w):
                x = ex.loc_value(s, w)
                return z64(x) if isinstance(x, z3.BitVecRef) else None
        else:
            continue

        def le(s, p=pos_of, e=e, strict=False):
            x = p(s)
            return FALSE if x is None else And(ULE(e, x), ULE(x, n))
        cs.append(Cand('%s within the slots' % (w,), le))
        cs.append(Cand('%s before the end' % (w,), lambda s, p=pos_of: FALSE if p(s) is None else ULT(p(s), n)))

        def passed(s, p=pos_of, lo=e, strict=False, incl=False):
            x = p(s)
            if x is None:
                return FALSE
            v = View(L, s, oid)
            return Q('i', lambda j: Implies(And(UGT(j, lo) if strict else ULE(lo, j), ULE(j, x) if incl else ULT(j, x)), Not(UGE(v.H(j), 2))), 'no element passed')
        cs.append(Cand('no element passed by %s' % (w,), passed))
        cs.append(Cand('no element passed by %s after the first' % (w,), lambda s, f=passed: f(s, strict=True)))
        cs.append(Cand('no element passed by or at %s after the first' % (w,), lambda s, f=passed: f(s, strict=True, incl=True)))
    return cs


def next_at(h, t, s, it, lo, what, H):
    """post: the iterator is at the first live slot from lo on, or at the end"""
    L = t.L
    for s1 in h.run('ht_iempty', it, st=s):
        end, here = s1.copy(), s1.copy()
        end.assume(B(s1.ret))
        here.assume(Not(B(s1.ret)))
        if h.ex.feasible(end):
            h.check(end, Q('i', lambda j: Implies(And(ULE(lo, j), ULT(j, t.cap64)), Not(UGE(H(j), 2)))), '%s: ends only when no element is left' % what)
        if h.ex.feasible(here):
            for f in ('ht_itderef', 'ht_itarrow'):
                for s2 in h.run(f, it, st=here):
                    i = element_of(t, s2.ret)
                    h.check(s2, z3.BoolVal(i is not None), '%s: the iterator gives an element of the table' % what)
                    if i is not None and not s2.dead:
                        h.check(s2, And(ULE(lo, i), ULT(i, t.cap64), UGE(H(i), 2)), '%s: the iterator gives an element not visited yet' % what)
                        h.check(s2, Q('i', lambda j: Implies(And(ULE(lo, j), ULT(j, i)), Not(UGE(H(j), 2)))), '%s: no element is skipped' % what)


def iter_begin(h):
    t = Tab(h, h.st)
    h.st.ghost['iter'] = (t.oid, t.cap64, t.L)
    h.ex.loop_specs.append(iter_spec)
    it = h.raw('iterator', t.L.it)
    for s in h.run('ht_iter', it, t.p):
        t.unchanged(s, 'iterator')
        next_at(h, t, s, it, BV(0), 'iterator', t.v.H)


def iter_step(erase):
    def fn(h):
        t = Tab(h, h.st)
        h.st.ghost['iter'] = (t.oid, t.cap64, t.L)
        h.ex.loop_specs.append(iter_spec)
        it = h.raw('iterator', t.L.it)
        pos = an_element(h, h.st, t)
        what = 'next after erase' if erase else 'next'
        for s0 in h.run('ht_iter', it, t.p):
            # an iterator that has come to the element in slot pos
            s0 = s0.copy()
            s0.put(it, 8, entry_ptr(t, pos), h.const('ht_it_i'))
            if not h.ex.feasible(s0):
                continue
            for s1 in (h.run('ht_erase', it, st=s0) if erase else [s0]):
                if erase:
                    removed(h, t, s1, pos, 'erase')
                H = View(t.L, s1, t.oid).H
                for s in h.run('ht_next', it, st=s1):
                    if not erase:
                        t.unchanged(s, 'next')
                    next_at(h, t, s, it, norm(pos + 1), what, H)
            break
    return fn


# ---------------------------------------------------------------- resizing, construction, destruction
def entry_hint(L):
    return elem_hint(L.entry, {L.hash_off: ('bv', 4), L.t_off: ('bv', 8)})


def no_leak(h, s, t, what, oid=None):
    """the storage the table does not own any more was released through its allocator, exactly once"""
    h.check(s, z3.BoolVal([o.id for o in live_objects(s, ('heap',))] == ([] if oid is None else [oid])), '%s: no storage is leaked or released early' % what)
    for e in events(s, 'free-ap') + events(s, 'alloc'):
        h.check(s, e[2] == t.apw, '%s: storage comes from and goes to the allocator of the table' % what)


def resize_spec(ex, entry, view):
    """old slots up to i are moved: every one of their elements is in the new table under its key, and nothing else is"""
    g = entry.ghost.get('resize')
    cs = []
    if not g:
        return cs
    t, L, new = g['t'], g['t'].L, g['oid']
    if new is None or new not in entry.mem or not any(w[0] == 'f' and w[1] == new for w in view.mods) or not any(w[0] == 'g' for w in view.mods):
        return cs
    n, M = g['n'], g['mask']

    def state(s):
        return View(L, s, new), s.ghost['loc2'], s.ghost['cn']

    def add(nm, fn):
        cs.append(Cand(nm, fn))

    def marks(s):
        v, loc, cn = state(s)
        return Q('i', lambda m: Implies(ULT(m, n), And(v.live(m) == UGE(v.H(m), 2), v.H(m) != 1)), 'new slots')
    add('new slots hold an element exactly when their hash says so', marks)

    def locs(s):
        v, loc, cn = state(s)
        return Q('i', lambda m: Implies(And(ULT(m, n), UGE(v.H(m), 2)), And(v.H(m) == CH(KEY(v.V(m))), loc(KEY(v.V(m))) == m)), 'new places')
    add('new elements are under their keys', locs)

    def chain(s):
        v, loc, cn = state(s)
        return probing(L, v, None, M, n)
    add('no gap on the way to a new element', chain)

    def cnt(s):
        v, loc, cn = state(s)
        return [cn(BV(0)) == 0, Q('i', lambda m: Implies(ULT(m, n), cn(norm(m + 1)) == cn(m) + one_if(UGE(v.H(m), 2))), 'new count')]
    add('new elements are counted', cnt)
    for tn, tf in view.terms:
        if tf(entry) is None:
            continue

        def kept(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            v, loc, cn = state(s)
            return [ULE(i, t.cap64), Q('i', lambda j: Implies(And(ULT(j, i), ULT(j, t.cap64), UGE(t.v.H(j), 2)),
                                          And(ULT(loc(KEY(t.v.V(j))), n), UGE(v.H(loc(KEY(t.v.V(j)))), 2), v.H(loc(KEY(t.v.V(j)))) == t.v.H(j), v.V(loc(KEY(t.v.V(j)))) == t.v.V(j))), 'moved')]

        def orig(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            v, loc, cn = state(s)

            def body(m):
                o = t.LOC(KEY(v.V(m)))
                return Implies(And(ULT(m, n), UGE(v.H(m), 2)), And(ULT(o, i), ULT(o, t.cap64), UGE(t.v.H(o), 2), t.v.V(o) == v.V(m), t.v.H(o) == v.H(m)))
            return Q('i', body, 'origin')

        def counted(s, tf=tf):
            i = tf(s)
            return FALSE if i is None else And(ULE(i, t.cap64), state(s)[2](n) == t.CL(i))

        def gone(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            v = View(L, s, t.oid)
            return [Q('i', lambda j: Implies(And(ULT(j, i), ULT(j, t.cap64)), Not(v.live(j))), 'old elements destroyed'),
                    Q('i', lambda j: Implies(And(UGE(j, i), ULT(j, t.cap64)), And(v.live(j) == t.v.live(j), Implies(t.v.live(j), v.V(j) == t.v.V(j)))), 'old elements still there')]

        def hashes(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            v = View(L, s, t.oid)
            return Q('i', lambda j: Implies(And(UGE(j, i), ULT(j, t.cap64)), v.H(j) == t.v.H(j)), 'old hashes')
        add('elements below %s are in the new table' % tn, kept)
        add('new elements come from below %s' % tn, orig)
        add('as many new elements as old ones below %s' % tn, counted)
        add('old elements below %s are gone' % tn, gone)
        add('old hashes from %s on stay' % tn, hashes)
    return cs


def resize_cands(mods, name):
    if not any(w == ('g', 'cn') for w in mods):
        return True
    return not re.match(r'frame|live |dead |copied|filled|equal|passed|\(', name)


def change_body(h):
    t = Tab(h, h.st)
    h.ex.opts['candidates'] = resize_cands
    h.ex.opts['quant_rounds'] = (1, 2, 3)
    L = t.L
    new = h.bv('new capacity', 32)
    h.assume(pow2(new), UGE(new, L.mincap), ULE(new, L.max), ULE(t.min, new), ULT(t.nel, new))
    h.st.ghost['change body'] = True
    M = mask(h.st, new)
    n = z64(new)
    h.ex.vocab += [n]
    hint = entry_hint(L)

    def alloc(ex, st, size, name):
        o = hint(ex, st, size, name)
        if o is not None and st.ghost['resize']['oid'] is None:
            st.ghost['resize'] = dict(st.ghost['resize'], oid=o.id)
            st.ghost['probes'] = dict(st.ghost['probes'], **{str(o.id): (new, M, witness)})
        return o

    def witness(ex, st, v):
        # counting lemma: as long as fewer elements than slots are counted, some slot holds none
        cn = st.ghost['cn']
        ex.oblige(st, cn(BV(0)) == 0, 'pre', 'count of none')
        ex.oblige(st, Q('i', lambda m: Implies(ULT(m, n), cn(norm(m + 1)) == cn(m) + one_if(UGE(v.H(m), 2)))), 'pre', 'the new elements are counted')
        ex.oblige(st, ULT(cn(n), new), 'pre', 'the new storage has a free slot for every element')
        fr = fresh_bv('free slot')
        st.assume(ULT(fr, n), ULT(v.H(fr), 2))
        return fr

    def on_construct(ex, st, spec, a, v, how):
        if a[1] == 'cells' or a[0].id != st.ghost['resize']['oid']:
            return
        m = a[2]
        ex.oblige(st, z3.BoolVal(how == 'move'), 'post', 'resize: elements are moved, not copied')
        st.setg('loc2', st.ghost['loc2'].store(KEY(v), m))
        cn = st.ghost['cn']
        st.setg('cn', Fn(lambda i: cn(i) + one_if(UGT(i, m))))
    h.ex.alloc_hints.append(alloc)
    h.ex.opts['on_construct'] = on_construct
    h.ex.opts['ghost_tags'] = {'cn': 'i', 'loc2': 'key'}
    h.st.ghost['resize'] = {'t': t, 'oid': None, 'n': n, 'mask': M}
    h.st.ghost['loc2'] = fresh_fn('newplace', 64, 'key')
    h.st.ghost['cn'] = const_fn(W(0))
    h.ex.loop_specs.append(resize_spec)
    for s in h.run('ht_change', t.p, new):
        yes, no = s.copy(), s.copy()
        yes.assume(B(s.ret))
        no.assume(Not(B(s.ret)))
        if h.ex.feasible(no):
            h.check(no, z3.BoolVal(bool(events(no, 'allocfail'))), 'resize: fails only for want of storage')
            t.unchanged(no, 'failed resize')
            no_leak(h, no, t, 'failed resize', t.oid)
        if h.ex.feasible(yes):
            oid = yes.ghost['resize']['oid']
            loc, cn = yes.ghost['loc2'], yes.ghost['cn']
            h.check(yes, z3.BoolVal(oid is not None), 'resize: gets storage')
            if yes.dead:
                continue
            v = check_invariant(h, t, yes, oid, cn, const_fn(W(0)), loc, M, 'resize')
            if v is None:
                continue
            h.check(yes, And(yes.get(t.p, 4, L.nel) == t.nel, yes.get(t.p, 4, L.ndel) == 0, yes.get(t.p, 4, L.cap) == new, yes.get(t.p, 4, L.min) == t.min,
                             yes.get(t.p, 8, 0) == t.apw), 'resize: the same count in the new capacity')
            t2 = Tab.__new__(Tab)
            t2.cap64, t2.v, t2.LOC = n, v, loc
            for nm, g in zip(('no element is lost', 'no element appears'), same_elements(t, t.v, t2)):
                h.check(yes, g, 'resize: ' + nm)
            h.check(yes, Q('i', lambda i: v.H(i) != 1) if False else Q('i', lambda i: Implies(ULT(i, n), v.H(i) != 1)), 'resize: no slot is marked removed')
            no_leak(h, yes, t, 'resize', oid)
            h.check(yes, z3.BoolVal(len(events(yes, 'free-ap')) == 1 and events(yes, 'free-ap')[0][1] == t.oid), 'resize: the old storage is released once')


def density_body(h):
    t = Tab(h, h.st)
    for s in h.run('ht_density', t.p):
        b = s.ghost['table']
        if b is t:
            t.unchanged(s, 'checkDensity')
        else:
            h.check(s, B(s.ret), 'checkDensity: a resize is a success')
            h.check(s, b.same(h.ex, s), 'checkDensity: the table is what the resize left')
            for nm, g in zip(['element count', 'removed count', 'a slot is free'], load(b.nel, b.ndel, b.cap)):
                h.check(s, g, 'checkDensity: ' + nm)
        ok = s.copy()
        ok.assume(B(s.ret))
        if h.ex.feasible(ok):
            h.check(ok, ULT(b.nel + b.ndel + 1, b.cap), 'checkDensity: success leaves room for one more element and a free slot')
        bad = s.copy()
        bad.assume(Not(B(s.ret)))
        if h.ex.feasible(bad):
            h.check(bad, z3.BoolVal(bool(events(bad, 'allocfail') or events(bad, 'report'))), 'checkDensity: fails only for want of storage')


def init_body(fn):
    def body(h):
        L = Lay(h)
        ap = h.bv('ap')
        a = h.st.new_cells('ap', 8)
        h.st.put(a, 8, ap)
        p = h.raw('t', L.size)
        cap = h.bv('n')
        args = []
        if fn == 'ht_init':
            # the documented use: a power of two, or anything below the least capacity
            h.assume(Or(ULT(cap, L.mincap), And(cap != 0, cap & (cap - 1) == 0), UGT(cap, L.max)))
            args = [cap]
        h.ex.alloc_hints.append(entry_hint(L))
        t = Tab.__new__(Tab)
        t.L, t.p, t.h, t.apw, t.oid = L, p, h, ap, None
        for s1 in h.run('ht_new', p, a):
            for s in h.run(fn, p, *args, st=s1):
                yes, no = s.copy(), s.copy()
                yes.assume(B(s.ret))
                no.assume(Not(B(s.ret)))
                if h.ex.feasible(no):
                    h.check(no, z3.BoolVal(bool(events(no, 'allocfail') or events(no, 'report'))), 'init: fails only for want of storage')
                    no_leak(h, no, t, 'failed init')
                    for s2 in h.run('ht_end', p, st=no):
                        no_leak(h, s2, t, 'destruction after a failed init')
                    for s2 in h.run('ht_elements', p, st=no):
                        h.check(s2, s2.ret == 0, 'init: a table that failed to initialise is empty')
                if h.ex.feasible(yes):
                    tab = yes.get(p, 8, L.tab)
                    oid = tab.obj if isinstance(tab, Ptr) else None
                    h.check(yes, z3.BoolVal(oid is not None), 'init: the table has storage')
                    if oid is None or yes.dead:
                        continue
                    c = yes.get(p, 4, L.cap)
                    M = mask(yes, c)
                    zero = const_fn(W(0))
                    v = check_invariant(h, t, yes, oid, zero, zero, Fn(lambda k: BV(0)), M, 'init')
                    if v:
                        h.check(yes, Q('i', lambda i: Implies(ULT(i, v.n), v.H(i) == 0)), 'init: every slot is free')
                        h.check(yes, And(yes.get(p, 4, L.nel) == 0, yes.get(p, 8, 0) == ap), 'init: the table is empty and keeps its allocator')
                        if args:
                            h.check(yes, Or(ULT(cap, L.mincap), z64(c) == cap), 'init: the capacity is the one asked for')
                        no_leak(h, yes, t, 'init', oid)
    return body


def end_body(h):
    t = Tab(h, h.st)
    for s in h.run('ht_end', t.p):
        no_leak(h, s, t, 'destruction')
        h.check(s, z3.BoolVal(len(events(s, 'free-ap')) == 1), 'destruction: the storage is released once')


def move_body(h):
    t = Tab(h, h.st)
    L = t.L
    q = h.raw('to', L.size)
    for s in h.run('ht_move', q, t.p):
        h.check(s, s.get(q, 8, 0) == t.apw, 'move: the new table has the allocator of the source')
        to = Tab.__new__(Tab)
        to.__dict__.update(t.__dict__)
        to.p = q
        to.unchanged(s, 'move')
        no_leak(h, s, t, 'move', t.oid)
        for s1 in h.run('ht_elements', t.p, st=s):
            h.check(s1, s1.ret == 0, 'move: the source is empty')
        it = h.raw('iterator', L.it, st=s)
        for s1 in h.run('ht_iter', it, t.p, st=s):
            for s2 in h.run('ht_iempty', it, st=s1):
                h.check(s2, B(s2.ret), 'move: the source has no elements to visit')
        for s1 in h.run('ht_end', t.p, st=s):
            no_leak(h, s1, t, 'destruction of the source of a move', t.oid)
        h.ex.alloc_hints.append(entry_hint(L))
        for s1 in h.run('ht_init0', t.p, st=s):
            ok = s1.copy()
            ok.assume(B(s1.ret))
            if h.ex.feasible(ok):
                h.check(ok, And(ok.get(t.p, 4, L.cap) == ok.get(t.p, 4, L.min), ok.get(t.p, 4, L.nel) == 0, ok.get(t.p, 4, L.ndel) == 0), 'move: the source can be initialised again')


# ---------------------------------------------------------------- insertion
DEF = BV(tok.default)


def add_body(kind):
    def fn(h):
        t = Tab(h, h.st)
        w = DEF if kind == 'none' else h.bv('payload')
        k = KEY(w)         # the caller adds under the key of its payload; add itself never asks the policy
        hv = CH(k)
        h.st.assume(UGE(hv, 2))
        s0, out = place_for(h, h.st, t, k, hv)
        args = []
        if kind != 'none':
            pay = tok.make_obj(h.st, 'payload', w)
            args = [pay]
        for s1 in h.run('ht_insert', out, entry_ptr(t, s0), hv):
            for s in h.run('ht_add_' + kind, t.p, out, *args, st=s1):
                yes, no = s.copy(), s.copy()
                yes.assume(B(s.ret))
                no.assume(Not(B(s.ret)))
                if h.ex.feasible(no):
                    h.check(no, z3.BoolVal(bool(events(no, 'allocfail') or events(no, 'report'))), 'add: fails only for want of storage')
                    t.unchanged(no, 'failed add')
                if h.ex.feasible(yes):
                    added(h, t, yes, out, k, w, hv, kind)
                    if kind == 'copy':
                        h.check(yes, And(tok.live_at(yes, pay), tok.val_at(yes, pay) == w), 'add: a copied payload is unchanged')
    return fn


def added(h, t, s, out, k, w, hv, kind):
    b = s.ghost['table']          # the table as it was before, or as the resize left it
    for s3 in h.run('ht_ideref', out, st=s):
        pos = element_of(b, s3.ret)
        h.check(s3, z3.BoolVal(pos is not None), 'add: the result gives an element of the table')
        if pos is None or s3.dead:
            continue
        v = View(t.L, s3, b.oid)
        h.check(s3, And(ULT(pos, b.cap64), v.live(pos), v.V(pos) == w), 'add: the result gives the added element')
        h.check(s3, Not(b.v.live(pos)), 'add: no element is overwritten')
        h.check(s3, Q('i', lambda i: Implies(And(ULT(i, b.cap64), i != pos), And(v.H(i) == b.v.H(i), v.live(i) == b.v.live(i), Implies(b.v.live(i), v.V(i) == b.v.V(i))))),
                'add: every other slot keeps its element')
        h.check(s3, s3.get(t.p, 4, t.L.nel) == t.nel + 1, 'add: the element count grows by one')
        was = b.v.H(pos) == 1
        CL, CR = (Fn(lambda i: b.CL(i) + one_if(UGT(i, pos))), Fn(lambda i: b.CR(i) - one_if(And(was, UGT(i, pos)))))
        check_invariant(h, t, s3, b.oid, CL, CR, b.LOC.store(k, pos), b.M, 'add')
