"""Contracts on the C string library over byte sequences, and loop templates for byte-copying code."""
from .lib import *

lc = Contracts()
B0 = BV(0, 8)


def byteseq(h, name, n, st=None, kind='param', const=False, **kw):
    """an object of n arbitrary bytes"""
    st = st or h.st
    st.assume(ULE(n, BV(1 << 46)))
    p = st.new_seq(name, n, 1, {0: ('bv', 1)}, kind, align=1, **kw)
    st.mem[p.obj].const = const
    return p


def cstring(h, name, L, st=None, const=True, tag='i'):
    """a NUL-terminated string of length L in an object of exactly L+1 bytes"""
    st = st or h.st
    h.assume(ULT(L, BV(1 << 46)))
    p = byteseq(h, name, simp(L + 1), st, const=const, tag=tag)
    o = st.mem[p.obj]
    f = o.data[0]
    st.assume(f(L) == B0)
    st.assume(Q(tag, lambda i: Implies(ULT(i, L), f(i) != B0), name))
    o.shadow['nul'] = (L,)
    return p


def data(st, p):
    return st.mem[p.obj].data[0]


def ext(ex, st, o):
    return o.user['extent'](ex, st, o) if 'extent' in o.user else o.n


def nuls(ex, st, o, off, c=B0):
    """indices >= off known to hold the byte c (checked, not assumed)"""
    out = []
    f = o.data[0]
    if 'bytes' in o.user:
        b = o.user['bytes'] + b'\0'
        cv = c.as_long() if isval(c) else None
        if isval(off) and cv is not None:
            k = b.find(bytes([cv]), off.as_long())
            return [BV(k)] if 0 <= k < len(o.user['bytes']) else []
        ws = [BV(k) for k in range(len(o.user['bytes'])) if cv is None or b[k] == cv][:4]
    else:
        ws = list(o.shadow.get('nul', ()))
    for w in ws:
        if ex.must(st, And(f(w) == c, ULE(off, w), ULT(w, ext(ex, st, o))), 5.0, 3):
            out.append(w)
    return out


def target(ex, st, p, what):
    """(object, offset) of a readable byte pointer, or None"""
    if p is UNDEF:
        ex.oblige(st, FALSE, 'memory', '%s through an uninitialised pointer' % what)
        return None
    if p.obj is None:
        p = ex.resolve_raw(st, p)
        if p.obj is None:
            ex.oblige(st, FALSE, 'memory', '%s through a null or unknown pointer' % what)
            return None
    if p.null is not False:
        ex.oblige(st, Not(p.null), 'memory', '%s through a possibly null pointer' % what)
        if st.dead:
            return None
    o = ex.known(st, p.obj)
    if not o.live:
        ex.oblige(st, FALSE, 'memory', '%s of %s after its lifetime ended' % (what, o.name))
        return None
    if not isinstance(o, Seq) or o.stride != 1:
        raise Unsupported('%s of %s, which is not a byte sequence' % (what, o.name))
    return o, norm(p.off)


def scan(ex, st, p, limit, c, what):
    """length of the run of bytes different from c (and inside limit) at p: r with all reads r (+1) in bounds"""
    t = target(ex, st, p, what)
    if t is None:
        return None
    o, off = t
    f = o.data[0]
    if 'bytes' in o.user and limit is None and isval(off):
        ws = nuls(ex, st, o, off, c)
        if ws:
            return simp(ws[0] - off)
    r = fresh_bv(what, 64)
    if limit is not None:
        st.assume(ULE(r, limit))
    st.assume(ULE(r, BV(1 << 48)))
    # r is the first hit: it is not beyond any position known to hit
    ws = nuls(ex, st, o, off, c)
    st.assume(*[ULE(r, w - off) for w in ws])
    e = norm(off + r)
    N = ext(ex, st, o)
    ok = And(ULE(off, N), ULT(r, N - off))
    if limit is not None:
        ok = Or(And(r == limit, Or(r == 0, And(ULE(off, N), ULE(r, N - off)))), ok)
        st.assume(Or(r == limit, f(e) == c))
    else:
        st.assume(f(e) == c)
    st.assume(Q(o.tag, lambda i: Implies(And(UGE(i, off), ULT(i - off, r)), f(i) != c), what))
    ex.oblige(st, ok, 'memory', '%s stays inside %s' % (what, o.name))
    if st.dead:
        return None
    # a length that is known already keeps its name
    for w in ws:
        if limit is None and o.const and ex.must(st, r == w - off, 5.0, 3):
            return simp(norm(w - off))
    return r


@lc.on(exact('strlen'), 'strlen: length up to the first NUL, which lies inside the object')
def c_strlen(ex, st, ins, av):
    r = scan(ex, st, av[0], None, B0, 'strlen')
    if r is None:
        return 'dead'
    ex.setr(st, ins, r)


@lc.on(exact('strnlen'), 'strnlen: length up to the first NUL or the limit')
def c_strnlen(ex, st, ins, av):
    r = scan(ex, st, av[0], av[1], B0, 'strnlen')
    if r is None:
        return 'dead'
    ex.setr(st, ins, r)


@lc.on(exact('memchr'), 'memchr: first position of the byte within the limit, or null')
def c_memchr(ex, st, ins, av):
    if ex.must(st, av[2] == 0):
        ex.setr(st, ins, NULL)
        return
    c = simp(z3.Extract(7, 0, av[1]))
    r = scan(ex, st, av[0], av[2], c, 'memchr')
    if r is None:
        return 'dead'
    t = target(ex, st, av[0], 'memchr')
    s2 = st.copy()
    s2.assume(r == av[2])
    ex.setr(s2, ins, NULL)
    st.assume(ULT(r, av[2]))
    ex.setr(st, ins, Ptr(t[0].id, norm(t[1] + r)))
    return [x for x in (st, s2) if ex.feasible(x)]


@lc.on(exact('strchr'), 'strchr: first position of the byte up to and including the terminator, or null')
def c_strchr(ex, st, ins, av):
    n = scan(ex, st, av[0], None, B0, 'strchr')
    if n is None:
        return 'dead'
    c = simp(z3.Extract(7, 0, av[1]))
    t = target(ex, st, av[0], 'strchr')
    if isval(c) and c.as_long() == 0:
        ex.setr(st, ins, Ptr(t[0].id, norm(t[1] + n)))
        return
    r = scan(ex, st, av[0], n, c, 'strchr')
    if r is None:
        return 'dead'
    s2 = st.copy()
    s2.assume(r == n)
    ex.setr(s2, ins, NULL)
    st.assume(ULT(r, n))
    ex.setr(st, ins, Ptr(t[0].id, norm(t[1] + r)))
    return [x for x in (st, s2) if ex.feasible(x)]


def compare(ex, st, p, q, limit, stops, what):
    """index of the first difference (or of the end) and the sign of the comparison"""
    a, b = target(ex, st, p, what), target(ex, st, q, what)
    if a is None or b is None:
        return None
    (o1, f1), (o2, f2) = a, b
    d1, d2 = o1.data[0], o2.data[0]
    k = fresh_bv(what + '.k')
    r = fresh_bv(what, 32)
    st.assume(ULE(k, BV(1 << 48)))
    if limit is not None:
        st.assume(ULE(k, limit))
    x, y = d1(norm(f1 + k)), d2(norm(f2 + k))
    end = Or(x != y, And(z3.BoolVal(stops), x == B0))
    if limit is None:
        st.assume(end)
    else:
        st.assume(Or(k == limit, end))
    if stops:
        for o, off in (a, b):
            st.assume(*[ULE(k, w - off) for w in nuls(ex, st, o, off)])
    same = lambda i: And(d1(norm(f1 + i)) == d2(norm(f2 + i)), Or(z3.BoolVal(not stops), d1(norm(f1 + i)) != B0))
    st.assume(Q(o1.tag, lambda i: Implies(And(UGE(i, f1), ULT(i - f1, k)), same(i - f1)), what))
    if isval(f2) and not f2.eq(f1):
        st.assume(Q(o2.tag, lambda i: Implies(And(UGE(i, f2), ULT(i - f2, k)), same(i - f2)), what))
    atend = FALSE if limit is None else k == limit
    st.assume((r == 0) == Or(atend, x == y), (r < 0) == And(Not(atend), ULT(x, y)))
    need = If(atend, k, k + 1) if limit is not None else k + 1
    for o, off in (a, b):
        N = ext(ex, st, o)
        ex.oblige(st, Or(need == 0, And(ULE(off, N), ULE(need, N - off))), 'memory', '%s stays inside %s' % (what, o.name))
        if st.dead:
            return None
    return r, k


@lc.on(exact('strcmp', 'strncmp', 'memcmp', 'bcmp'), 'strcmp/strncmp/memcmp: sign of the first difference before the end')
def c_strcmp(ex, st, ins, av):
    nm = ex.dem.get(ins.args[0][1], ins.args[0][1])
    lim = None if nm == 'strcmp' else av[2]
    if lim is not None and ex.must(st, lim == 0):
        ex.setr(st, ins, BV(0, 32))
        return
    r = compare(ex, st, av[0], av[1], lim, nm in ('strcmp', 'strncmp'), nm)
    if r is None:
        return 'dead'
    ex.setr(st, ins, r[0])


@lc.on(exact('strcpy', 'stpcpy'), 'strcpy: copies the string and its terminator')
def c_strcpy(ex, st, ins, av):
    n = scan(ex, st, av[1], None, B0, 'strcpy')
    if n is None:
        return 'dead'
    ex.memcpy(st, av[0], av[1], simp(n + 1))
    if st.dead:
        return 'dead'
    o = st.w(av[0].obj)
    o.shadow['nul'] = (norm(av[0].off + n),) + o.shadow.get('nul', ())
    ex.setr(st, ins, av[0] if 'stp' not in ins.args[0][1] else Ptr(av[0].obj, norm(av[0].off + n)))


@lc.on(exact('strcat', 'strncat'), 'strcat/strncat: appends (at most n characters of) the string and a terminator')
def c_strcat(ex, st, ins, av):
    k = scan(ex, st, av[0], None, B0, 'strcat')
    if k is None:
        return 'dead'
    n = scan(ex, st, av[1], av[2] if len(av) > 2 else None, B0, 'strcat')
    if n is None:
        return 'dead'
    d = Ptr(av[0].obj, norm(av[0].off + k))
    ex.memcpy(st, d, av[1], n)
    if not st.dead:
        ex.store(st, Ptr(d.obj, norm(d.off + n)), ir.I8, B0)
    if st.dead:
        return 'dead'
    ex.setr(st, ins, av[0])


@lc.on(exact('strncpy'), 'strncpy: copies at most n characters and pads with NUL up to n')
def c_strncpy(ex, st, ins, av):
    n = scan(ex, st, av[1], av[2], B0, 'strncpy')
    if n is None:
        return 'dead'
    if ex.rng(st, av[0], av[2], 'strncpy', True) is None:
        if st.dead:
            return 'dead'
        ex.setr(st, ins, av[0])
        return
    ex.memcpy(st, av[0], av[1], n)
    if st.dead:
        return 'dead'
    ex.memset(st, Ptr(av[0].obj, norm(av[0].off + n)), B0, simp(av[2] - n))
    if st.dead:
        return 'dead'
    o = st.w(av[0].obj)
    o.shadow['nul'] = (norm(av[0].off + n),) + o.shadow.get('nul', ())
    ex.setr(st, ins, av[0])


# ---------------------------------------------------------------- loop templates for bytes
def byte_templates(maps=()):
    """D[i] == S[i + shift] below the progress of the loop; D[i] == f(old D[i]) for the given maps"""
    def spec(ex, entry, view):
        cs = []
        mods = [w for w in sorted(view.mods, key=str) if w[0] == 'f' and not isinstance(w[2], tuple) and
                isinstance(entry.mem[w[1]], Seq) and entry.mem[w[1]].stride == 1]
        if not mods and not any(True for _ in view.counters):
            return cs
        counters = {}
        for (w, e0, get, sd, kind, obj) in view.counters:
            if obj is not None and e0 is not None:
                counters.setdefault(obj, []).append(norm(e0))
        plain = {}
        for fr in entry.frames[-3:]:
            for oid in fr.allocas:
                o = entry.mem.get(oid)
                if not isinstance(o, Cells) or not o.live:
                    continue
                for off, (n, v) in o.cells.items():
                    if isinstance(v, Ptr) and v.obj is not None and n == 8:
                        plain.setdefault(v.obj, []).append(norm(v.off))

        def bases(oid):
            out = [BV(0)]
            for x in counters.get(oid, []) + plain.get(oid, []):
                if not any(x.eq(y) for y in out):
                    out.append(x)
            return out[:4]
        steps = [(n, f) for n, f in view.terms]
        for w in mods:
            oid = w[1]
            tag = entry.mem[oid].tag
            d0 = entry.mem[oid].data[0]
            srcs = [(i, o) for i, o in entry.mem.items() if isinstance(o, Seq) and o.stride == 1 and o.live and i != oid and
                    'bytes' not in o.user and ('f', i, 0) not in view.mods and o.tag == tag][:4]
            for bD in bases(oid):
                if not (isval(bD) and bD.as_long() == 0):
                    for side in ('below', 'above'):
                        def fn(s, w=w, bD=bD, d0=d0, tag=tag, side=side):
                            c = ex.loc_value(s, w)
                            if c is None:
                                return FALSE
                            return Q(tag, lambda j: Implies(ULT(j, bD) if side == 'below' else UGE(j, bD), c(j) == d0(j)), 'frame')
                        cs.append(Cand('bytes %s unchanged %s %s' % (oid, side, bD), fn))
                for tn, tf in steps:
                    for i, o in srcs:
                        for bS in bases(i):
                            def fn(s, w=w, tf=tf, bD=bD, bS=bS, sd=o.data[0], tag=tag):
                                t, c = tf(s), ex.loc_value(s, w)
                                if t is None or c is None:
                                    return FALSE
                                return Q(tag, lambda j: Implies(And(UGE(j, bD), ULT(j - bD, t)), c(j) == sd(norm(j - bD + bS))), 'bytes copied')
                            cs.append(Cand('bytes %s+%s = %s+%s below %s' % (oid, bD, i, bS, tn), fn))
                    for m in maps:
                        def fn(s, w=w, tf=tf, bD=bD, m=m, tag=tag, d0=d0):
                            t, c = tf(s), ex.loc_value(s, w)
                            if t is None or c is None:
                                return FALSE
                            return Q(tag, lambda j: Implies(And(UGE(j, bD), ULT(j - bD, t)), c(j) == m(d0(j))), 'bytes mapped')
                        cs.append(Cand('bytes mapped from %s below %s' % (bD, tn), fn))
                        for i, o in srcs:
                            for bS in bases(i):
                                def fn(s, w=w, tf=tf, bD=bD, m=m, tag=tag, bS=bS, sd=o.data[0]):
                                    t, c = tf(s), ex.loc_value(s, w)
                                    if t is None or c is None:
                                        return FALSE
                                    return Q(tag, lambda j: Implies(And(UGE(j, bD), ULT(j - bD, t)), c(j) == m(sd(norm(j - bD + bS)))), 'bytes mapped')
                                cs.append(Cand('bytes mapped %s+%s from %s+%s below %s' % (oid, bD, i, bS, tn), fn))
        return cs
    return spec
