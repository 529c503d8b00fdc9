"""C07: Split and Join are inverse."""
from kv.cxxstd import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C, sc, lc]
LIM = BV(1 << 45)


def vn(d):
    return nrm(d).replace('std::allocator<string >', 'std::allocator<string>').replace('std::vector<string, std::allocator<string> >', 'svec')


def V(pat):
    c = re.compile('^(?:%s)$' % pat)
    return lambda d, m: c.search(vn(d)) is not None


# ---------------------------------------------------------------- std::vector<std::string> as a growing sequence
@C.on(V(r'svec::vector\(\)'), 'std::vector<std::string>(): empty')
def v0(ex, st, ins, av):
    pool = ex.opts.get('pool')
    if pool is None:
        raise Unsupported('vector of strings')
    o = Seq('pieces', 'heap-vec', BIG, 32, {0: ('ptr', pool), 8: ('bv', 8)}, tag='k')
    o.user['padding'] = True
    st.add(o)
    st.ghost['pieces'] = o.id
    b = Ptr(o.id, BV(0))
    for k in (0, 8):
        ex.store(st, Ptr(av[0].obj, norm(av[0].off + k)), ir.PTR, b)
    return done(st)


@C.on(V(r'svec::vector\(svec&&\)'), 'std::vector<std::string>(&&): takes the elements')
def vm(ex, st, ins, av):
    for k in (0, 8):
        v = ex.load(st, Ptr(av[1].obj, norm(av[1].off + k)), ir.PTR)
        ex.store(st, Ptr(av[0].obj, norm(av[0].off + k)), ir.PTR, v)
        ex.store(st, Ptr(av[1].obj, norm(av[1].off + k)), ir.PTR, NULL)
    return done(st)


@C.on(V(r'svec::~vector\(\)'), '~std::vector<std::string>: destroys the elements once and releases the storage')
def vd(ex, st, ins, av):
    b = ex.load(st, av[0], ir.PTR)
    if b is UNDEF or b.obj is None:
        return None
    o = st.w(b.obj)
    if not o.live:
        ex.oblige(st, FALSE, 'lifetime', 'a vector is destroyed once')
        return 'dead'
    o.live = False
    st.wr.add(('free', o.id))


@C.on(V(r'svec::reserve\(unsigned long\)'), 'std::vector<std::string>::reserve: no observable effect')
def vr(ex, st, ins, av):
    return None


def new_element(ex, st, vec, sl):
    src, n = sl
    fin = ex.load(st, Ptr(vec.obj, norm(vec.off + 8)), ir.PTR)
    o = st.mem[fin.obj]
    if src.obj != o.fields[0][1]:
        raise Unsupported('piece which is not a part of the split string')
    st.assume(ULT(split_index(fin.off, 32)[0], BIG - 1))
    ex.store(st, fin, ir.PTR, src)
    ex.store(st, Ptr(fin.obj, norm(fin.off + 8)), ir.I64, n)
    nf = Ptr(fin.obj, norm(fin.off + 32))
    ex.store(st, Ptr(vec.obj, norm(vec.off + 8)), ir.PTR, nf)
    return fin


@C.on(V(r'string& svec::emplace_back<char const\*&?>\(char const\*&&?\)|string& svec::emplace_back<char const\*&?, (?:unsigned )?long&?>\(char const\*&&?, (?:unsigned )?long&&?\)'),
      'std::vector<std::string>::emplace_back(p[, n]): one more string with these characters')
def ve(ex, st, ins, av):
    p = ex.load(st, av[1], ir.PTR)
    if len(av) > 2:
        n = ex.load(st, av[2], ir.I64)
        if text_at(ex, st, p, n, 'string') is None:
            return 'dead'
    else:
        n = scan(ex, st, p, None, B0, 'string')
        if n is None:
            return 'dead'
    e = new_element(ex, st, av[0], (p, n))
    if not st.dead and ins.res is not None:
        ex.setr(st, ins, e)
    return done(st)


@C.on(V(r'svec::push_back\(string(?:&&| const&)\)|string& svec::emplace_back<string(?: const&|&)?>\(string(?:&&| const&|&)\)'),
      'std::vector<std::string>::push_back: one more string with these characters')
def vp(ex, st, ins, av):
    b = s_ptr(ex, st, av[1])
    if b is None or st.dead:
        return 'dead'
    sl = st.mem[b.obj].user.get('slice')
    if sl is None or st.mem[b.obj].data[0] is not sl[2]:
        raise Unsupported('piece which is not a part of the split string')
    e = new_element(ex, st, av[0], sl[:2])
    if not st.dead and ins.res is not None:
        ex.setr(st, ins, e)
    return done(st)


# ---------------------------------------------------------------- Split
@C.on(exact('strstr'), 'strstr: the first occurrence at or after the cursor, or null')
def c_strstr(ex, st, ins, av):
    g = st.ghost.get('split')
    h, n = target(ex, st, av[0], 'strstr'), target(ex, st, av[1], 'strstr')
    if h is None or n is None:
        return 'dead'
    if g is None or h[0].id != g['s'] or n[0].id != g['p'] or not ex.must(st, n[1] == 0):
        raise Unsupported('strstr')
    ex.oblige(st, ULE(h[1], g['L']), 'memory', 'strstr starts inside the string')
    if st.dead:
        return 'dead'
    r = g['first'](h[1])
    s2 = st.copy()
    s2.assume(r == g['none'])
    ex.setr(s2, ins, NULL)
    st.assume(r != g['none'])
    ex.setr(st, ins, Ptr(h[0].id, r))
    return [x for x in (st, s2) if ex.feasible(x)]


def ghosts(h, s, p, L, M, off=BV(0)):
    """first occurrence at or after a position, and the cuts it determines"""
    none = BV(-1)
    f, g = data(h.st, s), data(h.st, p)
    first = fresh_fn('first', 64, 'p')
    occ = fresh_fn('occurs', 'bool', 'p')
    start = fresh_fn('start', 64, 'k')
    N = h.bv('cuts')
    a = h.assume
    a(ULE(N, L))
    # an occurrence lies inside the string and has the characters of the separator
    a(Q('p', lambda x: Implies(And(ULE(x, L), occ(x)), ULE(x, L - M)), 'occ'), )
    a(Q('p', lambda x: Implies(occ(x), And(ULE(x, L), ULE(M, L - x))), 'occ'))
    # first(x): the leftmost occurrence from x
    a(Q('p', lambda x: Implies(And(ULE(x, L), first(x) != none), And(UGE(first(x), x), occ(first(x)), ULE(M, L - first(x)), ULE(first(x), L))), 'first'))
    # the cuts: non-overlapping leftmost occurrences, until there is none
    a(start(BV(0)) == BV(0))
    a(Q('k', lambda k: Implies(ULT(k, N), And(first(start(k)) != none, start(k + 1) == first(start(k)) + M)), 'cut'))
    a(first(start(N)) == none)
    a(Q('k', lambda k: Implies(ULE(k, N), ULE(start(k), L)), 'start inside'))
    gh = {'s': s.obj, 'p': p.obj, 'L': L, 'M': M, 'first': first, 'none': none, 'start': start, 'N': N, 'occ': occ}
    h.st.ghost['split'] = gh
    return gh


def split_spec(gh):
    first, start, N, none = gh['first'], gh['start'], gh['N'], gh['none']

    def spec(ex, entry, view):
        cs = []
        oid = entry.ghost.get('pieces')
        if oid is None:
            return cs
        data_w = [w for w in view.mods if w[0] == 'f' and w[1] == oid]
        fins = [(w, get) for (w, e0, get, sd, kind, obj) in view.counters if obj == oid and kind == 'ptr']
        if not data_w or not fins:
            return cs
        w0, get0 = fins[0]

        def cnt(s):
            x = get0(s)
            r = split_index(x, 32) if x is not None else None
            return r[0] if r else None

        def add(nm, f):
            def g(s):
                t = cnt(s)
                return FALSE if t is None else f(s, t)
            cs.append(Cand(nm, g))
        add('pieces <= cuts', lambda s, t: ULE(t, N))
        add('pieces so far: start', lambda s, t: Q('k', lambda k, D=s.mem[oid]: Implies(ULT(k, t), D.data[0](k) == start(k))))
        add('pieces so far: length', lambda s, t: Q('k', lambda k, D=s.mem[oid]: Implies(ULT(k, t), D.data[8](k) == first(start(k)) - start(k))))
        add('pieces so far: there', lambda s, t: Q('k', lambda k, D=s.mem[oid]: Implies(ULT(k, t), Not(D.data[(0, 'null')](k)))))
        for (w, e0, get, sd, kind, obj) in view.counters:
            if obj == gh['s'] or kind == 'bv64':
                add('%s at the next piece' % (w,), lambda s, t, get=get: (lambda x: FALSE if x is None else x == start(t))(get(s)))
                add('%s at the last cut' % (w,), lambda s, t, get=get: (lambda x: FALSE if x is None else Implies(t != 0, x == first(start(t - 1))))(get(s)))
                add('%s at the next cut' % (w,), lambda s, t, get=get: (lambda x: FALSE if x is None else x == first(start(t)))(get(s)))
        for w in view.cur:
            v = view.cur[w]
            if isinstance(v, Ptr) and v.null is not False:
                def nl(s, t, w=w):
                    x = ex.loc_value(s, w)
                    if not isinstance(x, Ptr):
                        return FALSE
                    return (TRUE if x.obj is None else B(x.null)) == (t == 0)
                add('%s null before the first cut' % (w,), nl)
                def nn(s, t, w=w):
                    x = ex.loc_value(s, w)
                    if not isinstance(x, Ptr):
                        return FALSE
                    return (TRUE if x.obj is None else B(x.null)) == (first(start(t)) == none)
                add('%s null exactly when no cut follows' % (w,), lambda s, t, f=nn: B(f(s, t)))
        return cs
    return spec


def split(h, fn, std):
    L, M = h.bv('length'), h.bv('separator length')
    h.assume(ULE(L, LIM), ULE(M, LIM), M != 0)
    p = cstring(h, 'sep', M)
    if std:
        arg, f = given_string(h, 'str', L)
        s = h.st.get(arg, 8)
        h.assume(Q('i', lambda i: Implies(ULT(i, L), f(i) != B0)))
    else:
        s = arg = cstring(h, 'str', L)
    gh = ghosts(h, s, p, L, M)
    first, start, N, none = gh['first'], gh['start'], gh['N'], gh['none']
    h.ex.opts['pool'] = s.obj
    h.ex.vocab += [L, M, N]
    h.ex.loop_specs.append(split_spec(gh))
    h.ex.prover.rounds = 3
    out = h.raw('out', 24)
    for x in h.run(fn, out, arg, p):
        for x2 in h.run('c07_n', out, st=x):
            n = x2.ret
            b = x2.get(out, 8)
            if b is UNDEF or b.obj is None:
                h.check(x2, And(n == 0, L == 0), 'Split: pieces are returned')
                continue
            o = x2.mem[b.obj]
            h.check(x2, n == If(L == 0, BV(0), N + 1), 'Split: number of pieces')
            h.check(x2, Q('k', lambda k: Implies(And(ULT(k, n), ULE(k, N)), o.data[0](k) == start(k))), 'Split: every piece starts right after the separator before it')
            h.check(x2, Q('k', lambda k: Implies(And(ULT(k, n), ULT(k, N)), o.data[8](k) == first(start(k)) - start(k))), 'Split: every piece ends at the next separator')
            h.check(x2, Implies(n != 0, o.data[8](N) == L - start(N)), 'Split: the last piece is the rest')
            for x3 in h.run('c07_vend', out, st=x2):
                h.check(x3, z3.BoolVal(not [q for q in live_objects(x3) if q.name != 'string']), 'Split: nothing else is allocated')


@T.add('Split(chars)', 'the maximal pieces between successive leftmost non-overlapping occurrences')
def sp1(h):
    split(h, 'c07_split', False)


@T.add('Split(string)', 'the same for a std::string')
def sp2(h):
    split(h, 'c07_splits', True)


# ---------------------------------------------------------------- Join
def sums(h, n, ln, M):
    """pre(k): total length of the first k pieces; mul(k) = k*M; pos(k): where piece k starts, pos(n): the end; all as inductive definitions, with
    the consequences that the lemmas below establish"""
    pre, mul, pos = fresh_fn('lengths', 64, 'k'), fresh_fn('separators', 64, 'k'), fresh_fn('position', 64, 'k')
    a = h.assume
    a(pre(BV(0)) == 0, mul(BV(0)) == 0, pos(BV(0)) == 0, ULE(pos(n), LIM), ULE(pre(n), LIM), ULE(mul(n), LIM), Implies(n != 0, pos(n) == pre(n) + mul(n - 1)))
    a(Q('k', lambda k: Implies(ULT(k, n), And(pre(k + 1) == pre(k) + ln(k), mul(k + 1) == mul(k) + M, pos(k + 1) == pos(k) + ln(k) + If(ULT(k + 1, n), M, BV(0)), ULE(ln(k), LIM))), 'sum'))
    a(Q('k', lambda k: Implies(ULE(k, n), ULE(pos(k), pos(n))), 'monotone'))

    # the code multiplies: k*M mod 2^64 is the inductively defined product (lemma: products)
    def product(st, x, y):
        for p, q in ((x, y), (y, x)):
            if h.ex.must(st, And(p == M, ULE(q, n))):
                return mul(q)
        return None
    h.ex.opts['product'] = product
    return pre, mul, pos


def join_spec(pre, pos, n, M, E):

    def spec(ex, entry, view):
        cs = []
        mods = [w for w in sorted(view.mods, key=str) if w[0] == 'f' and isinstance(entry.mem[w[1]], Seq) and entry.mem[w[1]].stride == 1]

        def tot(tf, f):
            def g(s):
                t = tf(s)
                return FALSE if t is None else f(s, t)
            return g
        # positions in the buffer do not count pieces
        seen = {'%s%s' % (p, '.'.join(str(x) for x in c[0][1:3])) for c in view.counters if c[4] == 'ptr' and c[3] == 1 for p in ('', 'd', 'n')}
        for tn, tf in view.terms:
            if tn in seen:
                continue
            seen.add(tn)
            cs.append(Cand('%s<=pieces' % tn, tot(tf, lambda s, t: ULE(t, n))))
            for (w, e0, get, sd, kind, obj) in view.counters:
                if e0 is None or kind not in ('ptr', 'bv64') or sd != 1:
                    continue
                for nm, val in (('sum', pre), ('position', pos)):
                    def f(s, t, get=get, e0=e0, val=val):
                        x = get(s)
                        return FALSE if x is None else x - e0 == val(t)
                    cs.append(Cand('%s at %s of %s' % (w, nm, tn), tot(tf, f)))
        for w in mods:
            tag = entry.mem[w[1]].tag
            for (w2, e0, get, sd, kind, obj) in view.counters:
                if kind == 'ptr' and obj == w[1]:
                    def body(s, w=w, get=get):
                        c, e = ex.loc_value(s, w), get(s)
                        return FALSE if e is None else Q(tag, lambda x: Implies(ULT(x, e), c(x) == E(x)), 'joined')
                    cs.append(Cand('joined text below %s' % (w2,), body))
        return cs
    return spec


@T.add('Join', 'the concatenation with the separator between neighbours and nowhere else')
def join(h):
    n, M, P = h.bv('pieces'), h.bv('separator length'), h.bv('pool')
    h.assume(ULE(n, LIM), ULE(M, LIM), ULE(P, LIM))
    sep = cstring(h, 'sep', M, tag='s')
    pool = byteseq(h, 'chars', P, const=True, tag='c')
    vec = h.st.new_seq('pieces', n, 32, {0: ('ptr', pool.obj), 8: ('bv', 8)}, tag='k')
    o = h.st.mem[vec.obj]
    o.const = True
    o.user['padding'] = True
    off, ln = o.data[0], o.data[8]
    h.assume(Q('k', lambda k: Implies(ULT(k, n), And(Not(o.data[(0, 'null')](k)), ULT(off(k), P), ULT(ln(k), P - off(k)))), 'piece'))
    pre, mul, pos = sums(h, n, ln, M)
    v = h.st.new_cells('vector', 24)
    e = Ptr(vec.obj, norm(BV(32) * n))
    h.st.put(v, 8, vec)
    h.st.put(v, 8, e, 8)
    h.st.put(v, 8, e, 16)
    str_f, sep_f = data(h.st, pool), data(h.st, sep)
    total = If(n == 0, BV(0), pre(n) + mul(n - 1))
    # the joined text: what is at every position of it (positions of different pieces and separators are different:
    # lemma: sums are monotone)
    E = fresh_fn('joined', 8, 'i')
    h.assume(Q(('k', 'i'), lambda k, x: Implies(And(ULT(k, n), ULT(x - pos(k), ln(k))), E(x) == str_f(norm(off(k) + (x - pos(k))))), 'piece text'))
    h.assume(Q(('k', 'i'), lambda k, x: Implies(And(ULT(k + 1, n), ULT(k, n), ULT(x - pos(k) - ln(k), M)), E(x) == sep_f(x - pos(k) - ln(k))), 'separator text'))
    h.ex.vocab += [n]
    h.ex.loop_specs.append(join_spec(pre, pos, n, M, E))
    h.ex.prover.rounds = 3
    out = h.raw('out', 32)
    for s in h.run('c07_join', out, v, sep):
        for s2 in h.run('c07_size', out, st=s):
            h.check(s2, s2.ret == total, 'Join: length is that of the pieces and the separators between them')
            for s3 in h.run('c07_data', out, st=s2):
                f = data(s3, s3.ret)
                h.check(s3, Q('i', lambda x: Implies(ULT(x, total), f(x) == E(x))),
                        'Join: every piece at its place, the separator between neighbours')
                for s4 in h.run('c07_end', out, st=s3):
                    h.check(s4, z3.BoolVal(not live_objects(s4)), 'Join: nothing else is allocated')


# ---------------------------------------------------------------- lemmas over the contracts
@T.add('lemma: sums are monotone', 'the consequences of the inductive definitions used for Join, by induction')
def lemma1(h):
    n, M = h.bv('n'), h.bv('M')
    pre, ln, mul, pos = (fresh_fn(x, 64, 'k') for x in ('pre', 'len', 'mul', 'pos'))
    k, m = h.bv('k'), h.bv('m')
    s = h.st
    # no overflow is a premise: everything fits in memory
    s.assume(ULE(n, LIM), ULE(M, LIM), pre(BV(0)) == 0, mul(BV(0)) == 0, pos(BV(0)) == 0,
             Q('k', lambda j: Implies(ULE(j, n), And(ULE(pos(j), LIM), ULE(pre(j), LIM), ULE(mul(j), LIM), ULE(ln(j), LIM)))),
             Q('k', lambda j: Implies(ULT(j, n), And(pre(j + 1) == pre(j) + ln(j), mul(j + 1) == mul(j) + M, pos(j + 1) == pos(j) + ln(j) + If(ULT(j + 1, n), M, BV(0))))))
    goal = lambda k, m: ULE(pos(k) + ln(k) + If(ULT(k + 1, n), M, BV(0)), pos(m))
    s.assume(ULT(k, n), ULT(m, n))
    h.check(s, goal(k, k + 1), 'later positions: base')
    t = s.copy()
    t.assume(ULT(k, m), goal(k, m))
    h.check(t, goal(k, m + 1), 'later positions: step')
    h.check(s, pos(BV(0)) == pre(BV(0)) + mul(BV(0)), 'position is lengths and separators: base')
    t = s.copy()
    t.assume(pos(k) == pre(k) + mul(k))
    h.check(t, Implies(ULT(k + 1, n), pos(k + 1) == pre(k + 1) + mul(k + 1)), 'position is lengths and separators: step')
    h.check(t, Implies(k + 1 == n, pos(n) == pre(n) + mul(n - 1)), 'position is lengths and separators: end')


@T.add('lemma: products', 'the inductively defined product is the machine product')
def lemma0(h):
    n, M, k = h.bv('n'), h.bv('M'), h.bv('k')
    mul = fresh_fn('mul', 64, 'k')
    s = h.st
    s.assume(mul(BV(0)) == 0, Q('k', lambda j: Implies(ULT(j, n), mul(j + 1) == mul(j) + M)), ULT(k, n))
    h.check(s, mul(BV(0)) == M * BV(0), 'base')
    t = s.copy()
    t.assume(mul(k) == M * k)
    h.check(t, mul(k + 1) == M * (k + 1), 'step')


@T.add('lemma: join of a split', 'the contracts of Split and Join give back the original string')
def lemma2(h):
    L, M, N = h.bv('L'), h.bv('M'), h.bv('N')
    S, P, J = fresh_fn('S', 8, 'i'), fresh_fn('P', 8, 'i'), fresh_fn('J', 8, 'i')
    start, cut = fresh_fn('start', 64, 'k'), fresh_fn('cut', 64, 'k')
    s = h.st
    s.assume(ULE(L, LIM), ULE(M, LIM), M != 0, L != 0, ULE(N, L))
    # Split's postcondition: piece k is [start k, cut k), cut k is an occurrence of the separator, the last piece ends at L
    s.assume(start(BV(0)) == 0, cut(N) == L,
             Q('k', lambda k: Implies(ULT(k, N), start(k + 1) == cut(k) + M)),
             Q('k', lambda k: Implies(ULE(k, N), And(ULE(start(k), cut(k)), ULE(cut(k), L)))),
             Q('k', lambda k: Implies(ULT(k, N), ULE(cut(k), L - M))), Implies(UGT(N, BV(0)), ULE(M, L)),
             Q(('k', 'i'), lambda k, x: Implies(And(ULT(k, N), UGE(x, cut(k)), ULT(x - cut(k), M)), S(x) == P(x - cut(k)))))
    # Join puts piece k at pos(k) = (lengths of the earlier pieces) + k*M; that is start(k), by induction
    pos, k = fresh_fn('pos', 64, 'k'), h.bv('k')
    s.assume(pos(BV(0)) == 0, Q('k', lambda j: Implies(ULT(j, N), pos(j + 1) == pos(j) + (cut(j) - start(j)) + M)))
    h.check(s, pos(BV(0)) == start(BV(0)), 'positions agree: base')
    t = s.copy()
    t.assume(ULT(k, N), pos(k) == start(k))
    h.check(t, pos(k + 1) == start(k + 1), 'positions agree: step')
    s.assume(Q('k', lambda j: Implies(ULE(j, N), pos(j) == start(j))))
    # length
    h.check(s, pos(N) + (cut(N) - start(N)) == L, 'the joined length is that of the string')
    # characters: x lies in the last piece that starts at or before it, or in the separator behind that piece
    s.assume(Q(('k', 'i'), lambda j, x: Implies(And(ULE(j, N), UGE(x, pos(j)), ULT(x - pos(j), cut(j) - start(j))), J(x) == S(start(j) + (x - pos(j))))),
             Q(('k', 'i'), lambda j, x: Implies(And(ULT(j, N), UGE(x, pos(j) + (cut(j) - start(j))), ULT(x - pos(j) - (cut(j) - start(j)), M)), J(x) == P(x - pos(j) - (cut(j) - start(j))))))
    x, j = h.bv('x'), h.bv('j')
    t = s.copy()
    t.assume(ULT(x, L), ULE(j, N), ULE(start(j), x), Or(j == N, ULT(x, start(j + 1))))
    h.check(t, J(x) == S(x), 'every character is the original one')
