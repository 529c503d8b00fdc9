"""C26: vector and deque helpers act on exactly the named elements."""
from kv.cxxvec import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
vec = VecSpec(tok)
C = Contracts()
CONTRACTS = [C, vec.ct, tok.ct]
PRED = z3.Function('PRED', z3.BitVecSort(64), z3.BoolSort())
ASSUMPTIONS = ['std::vector and std::deque behave as their contracts say and storage can be obtained; fewer than 2^40 elements',
               'the predicate given to EraseIf decides by the value of the element']


@C.on(exact('Pr::operator()(Tok const&) const'), 'predicate: called with a live element, decides by its value')
def pred(ex, st, ins, av):
    v = tok.read(ex, st, av[1], 'predicate argument')
    if st.dead:
        return 'dead'
    ex.setr(st, ins, PRED(v))


def same_storage(h, s, p, n, what):
    """the vector has n elements in one storage, every one alive and nothing behind them"""
    ps = [s.get(p, 8, 8 * k) for k in range(3)]
    if all(isinstance(x, Ptr) and x.isnull_const for x in ps):
        h.check(s, n == 0, what + ': the size')
        return None
    ok = all(isinstance(x, Ptr) and x.obj == ps[0].obj for x in ps) and ps[0].obj is not None and s.mem[ps[0].obj].live
    h.check(s, z3.BoolVal(bool(ok)), what + ': the vector has its storage')
    if s.dead or not ok:
        return None
    o = s.mem[ps[0].obj]
    h.check(s, And(norm(ps[0].off) == 0, norm(ps[1].off) == BV(8) * n), what + ': the size')
    live = o.shadow['live@0']
    h.check(s, Q('i', lambda i: Implies(ULT(i, o.n), live(i) == ULT(i, n))), what + ': exactly the elements are alive')
    return o.data[0]


def items(h, s, p, n, want, what):
    f = same_storage(h, s, p, n, what)
    if f is not None:
        h.check(s, Q('i', lambda i: Implies(ULT(i, n), f(i) == want(i))), what + ': the elements and their order')


def storages(s):
    return [o for o in s.mem.values() if o.live and o.kind == 'heap-vec']


@T.add('PopBack of a vector', 'returns the last element and removes only it')
def popback(h):
    p, oid, n, f = vec.given(h, h.st, 'v')
    h.assume(n != 0)
    out = h.st.new_cells('out', 8)
    for s in h.run('v_popback', p, out):
        h.check(s, And(B(tok.live_at(s, out)), tok.val_at(s, out) == f(norm(n - 1))), 'PopBack: gives the last element')
        items(h, s, p, norm(n - 1), f, 'PopBack')
        h.check(s, z3.BoolVal(len(storages(s)) == 1), 'PopBack: nothing else is made')


for nm, fn in (('PopBack', 'd_popback'), ('PopFront', 'd_popfront')):
    @T.add(nm + ' of a deque', 'returns the end element and removes only it')
    def dpop(h, fn=fn, nm=nm):
        p, oid, lo, n, f = vec.given_deque(h, h.st, 'd')
        h.assume(n != 0)
        out = h.st.new_cells('out', 8)
        for s in h.run(fn, p, out):
            g = s.ghost['deque']
            at = norm(lo + n - 1) if nm == 'PopBack' else lo
            h.check(s, And(B(tok.live_at(s, out)), tok.val_at(s, out) == f(at)), nm + ': gives the end element')
            h.check(s, And(g['n'] == n - 1, g['lo'] == (lo if nm == 'PopBack' else lo + 1)), nm + ': one element fewer at that end')
            o = s.mem[oid]
            live, d = o.shadow['live@0'], o.data[0]
            h.check(s, Q('i', lambda i: Implies(ULT(i, o.n), And(live(i) == And(UGE(i, g['lo']), ULT(i, g['lo'] + g['n'])), Implies(live(i), d(i) == f(i))))), nm + ': the others stay')


@T.add('RemoveAt', 'takes out exactly the element there')
def removeat(h):
    p, oid, n, f = vec.given(h, h.st, 'v')
    at = h.bv('at')
    h.assume(ULT(at, n))
    for s in h.run('v_removeat', p, at):
        items(h, s, p, norm(n - 1), lambda i: If(ULT(i, at), f(i), f(norm(i + 1))), 'RemoveAt')


for nm, fn, how in (('InsertAt a copy', 'v_insert_c', 'c'), ('InsertAt by move', 'v_insert_m', 'm'), ('EmplaceAt a value', 'v_emplace', 'v'),
                    ('EmplaceAt a copy', 'v_emplace_c', 'c'), ('EmplaceAt by move', 'v_emplace_m', 'm')):
    for null in (False, True):
        def body(h, fn=fn, how=how, null=null):
            p, oid, n, f = vec.given(h, h.st, 'v', null)
            at, v = h.bv('at'), h.bv('item')
            h.assume(ULE(at, n))
            a = v if how == 'v' else tok.make_obj(h.st, 'item', v)
            for s in h.run(fn, p, at, a):
                items(h, s, p, norm(n + 1), lambda i: If(i == at, v, If(ULT(i, at), f(i), f(norm(i - 1)))) if f else v, 'insertion')
                h.check(s, z3.BoolVal(len(storages(s)) == 1), 'insertion: one storage')
                if how != 'v':
                    h.check(s, B(tok.live_at(s, a)), 'insertion: the argument is alive')
                if how == 'c':
                    h.check(s, tok.val_at(s, a) == v, 'insertion: the argument is not changed')
        T.add(nm + (' into an empty vector without storage' if null else ''), 'puts exactly the new element at the position')(body)

for how in 'cm':
    def body(h, fn='v_insert_' + how):
        p, oid, n, f = vec.given(h, h.st, 'v')
        at, k = h.bv('at'), h.bv('source')
        h.assume(ULE(at, n), ULT(k, n))
        for s in h.run(fn, p, at, Ptr(oid, norm(BV(8) * k))):
            if fn[-1] == 'c':
                items(h, s, p, norm(n + 1), lambda i: If(i == at, f(k), If(ULT(i, at), f(i), f(norm(i - 1)))), 'insertion of an own element')
    if how == 'c':
        T.add('InsertAt a copy of an own element', 'puts exactly that element at the position')(body)


def extend_spec(ex, entry, view):
    g = entry.ghost.get('extend')
    cs = []
    if not g:
        return cs
    p, q, n, m, f, e = (g[k] for k in ('p', 'q', 'n', 'm', 'f', 'e'))
    for tn, tf in view.terms:
        if tf(entry) is None:
            continue

        def done(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            b, fin, cap = (s.get(p, 8, 8 * k) for k in range(3))
            if not isinstance(fin, Ptr) or fin.obj is None or b.obj != fin.obj or b.obj != cap.obj:
                return FALSE
            o = s.mem[fin.obj]
            if not isinstance(o, Seq) or not o.live:
                return FALSE
            d, live = o.data[0], o.shadow['live@0']
            return [ULE(i, m), norm(b.off) == 0, norm(fin.off) == BV(8) * (n + i), ULE(norm(cap.off), BV(8 << 40)), ULE(norm(fin.off), norm(cap.off)),
                    Q('i', lambda j: Implies(ULT(j, n), d(j) == f(j)), 'own elements'),
                    Q('i', lambda j: Implies(And(UGE(j, n), ULT(j, n + i)), d(j) == e(norm(j - n))), 'new elements'),
                    Q('i', lambda j: Implies(ULT(j, o.n), live(j) == ULT(j, n + i)), 'alive')]

        def rest(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            d = s.mem[g['src']].data[0]
            return Q('i', lambda j: Implies(And(UGE(j, i), ULT(j, m)), d(j) == e(j)), 'elements not yet moved')
        cs.append(Cand('moved below ' + tn, done))
        cs.append(Cand('not moved from ' + tn, rest))
    return cs


for dn in ('some', 'none', 'no storage'):
    for sn in ('any', 'no storage'):
        def body(h, dn=dn, sn=sn):
            p, oid, n, f = vec.given(h, h.st, 'to', dn == 'no storage', in_place=True)
            q, src, m, e = vec.given(h, h.st, 'from', sn == 'no storage')
            h.assume(n != 0 if dn == 'some' else n == 0, ULE(n, 1 << 38), ULE(m, 1 << 38))
            if oid is not None and src is not None:
                h.st.ghost['extend'] = {'p': p, 'q': q, 'n': n, 'm': m, 'f': f, 'e': e, 'src': src}
                h.ex.loop_specs.append(extend_spec)
            for s in h.run('v_extend', p, q):
                def want(i):
                    if e is None:
                        return f(i) if f else BV(0)
                    return If(ULT(i, n), f(i), e(norm(i - n))) if f else e(i)
                items(h, s, p, norm(n + m), want, 'MoveExtend')
                items(h, s, q, BV(0), lambda i: BV(0), 'MoveExtend: the source is empty')
                used = {x.obj for x in (s.get(p, 8), s.get(q, 8)) if isinstance(x, Ptr)}
                h.check(s, z3.BoolVal(all(o.id in used for o in storages(s))), 'MoveExtend: no storage is lost')
        T.add('MoveExtend to %s elements from %s' % (dn, sn), 'moves all of the source, in order, behind the elements of the destination',
              opts={'candidates': lambda mods, name: not re.match(r'copied|equal|frame|filled|live |dead |sorted', name)})(body)


# ---------------------------------------------------------------- EraseIf: K(j) counts the elements kept among the first j
def kept_facts(f, n, K):
    return [K(BV(0)) == 0,
            Q('i', lambda j: Implies(ULT(j, n), And(K(norm(j + 1)) == K(j) + If(PRED(f(j)), BV(0), BV(1)), ULE(K(j), j), ULT(K(j), K(norm(j + 1)) + 1))), 'counting'),
            Q('i', lambda j: Implies(ULE(j, n), And(ULE(K(j), j), ULE(K(j), K(n)))), 'counts')]


@T.add('kept lemma', 'the count of kept elements is bounded and monotone')
def kept_lemma(h):
    f, K = fresh_fn('v', 64, 'x'), fresh_fn('K', 64, 'x')
    n, j = h.bv('n'), h.bv('j')
    h.assume(ULE(n, MAXLEN))

    def step(j):
        return K(j + 1) == K(j) + If(PRED(f(j)), BV(0), BV(1))
    # by induction on j: K(j) <= j
    h.assume(K(BV(0)) == 0)
    h.check(h.st, ULE(K(BV(0)), BV(0)), 'K(0) <= 0')
    s = h.st.copy()
    s.assume(ULT(j, n), ULE(K(j), j), step(j))
    h.check(s, ULE(K(j + 1), j + 1), 'K(j) <= j implies K(j + 1) <= j + 1')
    # by induction downwards from n: K(j) <= K(n)
    h.check(h.st, ULE(K(n), K(n)), 'K(n) <= K(n)')
    s = h.st.copy()
    s.assume(ULT(j, n), ULE(K(j + 1), K(n)), ULE(K(j), j), step(j))
    h.check(s, ULE(K(j), K(n)), 'K(j + 1) <= K(n) implies K(j) <= K(n)')


@C.on(lambda d, m: norm_names(d, 'Tok').startswith('iter std::remove_if<iter, Pr>('),
      'std::remove_if: the elements that do not satisfy the predicate, in order, in front; what is behind them is left unspecified')
def remove_if(ex, st, ins, av):
    g = st.ghost['erase']
    vec_p, K = g['p'], g['K']
    lo = vec.index(ex, st, vec_p, av[0])
    hi = None if st.dead else vec.index(ex, st, vec_p, av[1])
    if st.dead:
        return 'dead'
    r = vec.at(ex, st, vec_p)
    ex.oblige(st, And(lo == 0, hi == r[1], r[1] == g['n']), 'pre', 'remove_if: over the whole vector')
    if st.dead:
        return 'dead'
    if r[0] is None:
        ex.setr(st, ins, av[0])
        return None
    o = st.w(r[0])
    f, n = o.data[0], r[1]
    if f is not g['f']:
        raise Unsupported('remove_if after other changes')
    d = fresh_fn('kept', 64, 'i')
    o.data[0] = d
    st.wr.add(('f', o.id, 0))
    st.assume(Q('i', lambda j: Implies(And(ULT(j, n), Not(PRED(f(j)))), d(K(j)) == f(j)), 'kept'))
    ex.setr(st, ins, Ptr(r[0], norm(BV(8) * K(n))))


def erase_spec(ex, entry, view):
    """compaction loops: below the place written to are the kept ones of those seen, behind the place read nothing has changed"""
    g = entry.ghost.get('erase')
    cs = []
    if not g or g['oid'] is None:
        return cs
    n, f, K, oid = g['n'], g['f'], g['K'], g['oid']
    for tn, tf in view.terms:
        if tf(entry) is None:
            continue

        def kept(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            d = s.mem[oid].data[0]
            return [ULE(i, n), Q('i', lambda j: Implies(And(ULT(j, i), ULT(j, n), Not(PRED(f(j)))), d(K(j)) == f(j)), 'kept so far')]

        def rest(s, tf=tf):
            i = tf(s)
            if i is None:
                return FALSE
            d = s.mem[oid].data[0]
            return Q('i', lambda j: Implies(And(UGE(j, i), ULT(j, n)), d(j) == f(j)), 'not yet seen')
        cs.append(Cand('kept below ' + tn, kept))
        cs.append(Cand('not seen from ' + tn, rest))
        for tn2, tf2 in view.terms:
            if tn2 != tn and tf2(entry) is not None:
                cs.append(Cand('%s counts the kept below %s' % (tn2, tn), lambda s, tf=tf, tf2=tf2: FALSE if tf(s) is None or tf2(s) is None else And(ULE(tf(s), n), tf2(s) == K(tf(s)))))
    return cs


for null in (False, True):
    def body(h, null=null):
        p, oid, n, f = vec.given(h, h.st, 'v', null)
        K = fresh_fn('K', 64, 'i')
        h.st.ghost['erase'] = {'p': p, 'oid': oid, 'n': n, 'f': f, 'K': K}
        if f:
            h.assume(*kept_facts(f, n, K))
        else:
            h.assume(K(BV(0)) == 0)
        h.ex.loop_specs.append(erase_spec)
        for s in h.run('v_eraseif', p):
            d = same_storage(h, s, p, K(n), 'EraseIf')
            if d is not None:
                h.check(s, Q('i', lambda j: Implies(And(ULT(j, n), Not(PRED(f(j)))), And(ULT(K(j), K(n)), d(K(j)) == f(j)))), 'EraseIf: keeps exactly the others, in order')
    T.add('EraseIf' + (' without storage' if null else ''), 'removes exactly the elements that satisfy the predicate')(body)
