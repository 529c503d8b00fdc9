"""C10: hash helpers are pure functions of the key bytes."""
from kv.cstr import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C, lc]
# shifts of negative or too far are checked, too
CXXFLAGS = ['-fsanitize=shift', '-fsanitize-trap=shift']


@C.on(rx(r'^llvm\.ubsantrap'), 'reached only by undefined behaviour')
def trap(ex, st, ins, av):
    ex.oblige(st, FALSE, 'undefined', 'no shift of or by an undefined amount')
    return 'dead'


def W(v):
    return BV(v, 32)


def sx(c):
    return z3.SignExt(24, c)


def oaat(h, c):
    h = h + sx(c)
    h = h + (h << 10)
    return h ^ z3.LShR(h, 6)


def oaat_end(h):
    h = h + (h << 3)
    h = h ^ z3.LShR(h, 11)
    return h + (h << 15)


def sdbm(h, c):
    return sx(c) + (h << 6) + (h << 16) - h


def int32(a):
    a = (a ^ 61) ^ (a >> 16)
    a = a + (a << 3)
    a = a ^ (a >> 4)
    a = a * W(0x27d4eb2d)
    return a ^ (a >> 15)


def int64(k):
    k = ~k + (k << 18)
    k = k ^ z3.LShR(k, 31)
    k = k * 21
    k = k ^ z3.LShR(k, 11)
    k = k + (k << 6)
    k = k ^ z3.LShR(k, 22)
    return z3.Extract(31, 0, k)


def sweep(a, b):
    """goals whose conjunction is a == b: equal products are proved equal first and then named, so that no product is opened"""
    reps, sub, seen = [], [], {}
    from z3 import substitute

    def visit(t):
        if t.get_id() in seen:
            return
        seen[t.get_id()] = t
        for c in t.children():
            visit(c)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL and any(isval(c) for c in t.children()):
            u = substitute(t, *sub)
            for (w, v) in reps:
                if w.size() == u.size() and solved(w, u):
                    break
            else:
                v = fresh_bv('product', u.size())
                reps.append((u, v))
            sub.append((t, v))
    visit(a)
    visit(b)
    return substitute(a, *sub), substitute(b, *sub)


def solved(w, u):
    """are two products equal because their factors are?"""
    cw, cu = [c for c in w.children()], [c for c in u.children()]
    if len(cw) != 2 or len(cu) != 2 or not isval(cw[0]) or not isval(cu[0]) or not cw[0].eq(cu[0]):
        return False
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(cw[1] != cu[1])
    return s.check() == z3.unsat


def equal(h, x, a, b, label):
    a, b = simp(a), simp(b)
    p, q = sweep(a, b)
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(p != q)
    # the named form is valid only if a == b is: then it is the obligation
    h.check(x, p == q if s.check() == z3.unsat else a == b, label)


class Fold:
    """ghost: h(k) is the mixing of the first k bytes"""

    def __init__(self, h, f, L, mix, start=None):
        g = self.g = fresh_fn('mixed', 32, 'i')
        h.assume(g(BV(0)) == (W(0) if start is None else start))
        h.assume(Q('i', lambda i: Implies(ULT(i, L), g(norm(i + 1)) == mix(g(i), f(i))), 'mixing'))
        h.ex.loop_specs.append(self.spec)

    def spec(self, ex, entry, view):
        cs = []
        off = [BV(0)]
        for fr in entry.frames[-3:]:
            for oid in fr.allocas:
                o = entry.mem.get(oid)
                if isinstance(o, Cells) and o.live:
                    for k, (n, v) in o.cells.items():
                        if isinstance(v, Ptr) and v.obj is not None and n == 8 and isinstance(entry.mem[v.obj], Seq):
                            x = norm(v.off)
                            if not any(x.eq(y) for y in off):
                                off.append(x)
        for w in sorted(view.mods, key=str):
            if w[0] != 'c' or w[3] not in (4, 8):
                continue
            v = ex.loc_value(entry, w)
            if not isinstance(v, z3.ExprRef):
                continue
            for b in off:
                for tn, tf in view.terms:
                    def fn(s, w=w, b=b, tf=tf):
                        c, t = ex.loc_value(s, w), tf(s)
                        if t is None or not isinstance(c, z3.ExprRef):
                            return FALSE
                        e = self.g(norm(b + t))
                        return c == (e if c.size() == 32 else z3.ZeroExt(32, e))
                    cs.append(Cand('%s mixes %s+%s' % (w, b, tn), fn))
        return cs


def text_of(h):
    L = h.bv('length')
    s = byteseq(h, 'bytes', L, const=True)
    h.ex.loop_specs.append(byte_templates())
    return s, data(h.st, s), L


for _fn, _mix, _end, _nm in (('c10_seq', oaat, oaat_end, 'HashCharSequence'), ('c10_fast', sdbm, lambda x: x, 'FastHashCharSequence')):
    @T.add(_nm, 'the documented mixing of exactly the given bytes')
    def seq(h, fn=_fn, mix=_mix, end=_end, nm=_nm):
        s, f, L = text_of(h)
        F = Fold(h, f, L, mix)
        n = h.bv('n')
        h.assume(ULE(n, L))
        h.ex.vocab += [n]
        # reading stops at n: the bytes behind it are not there
        p = byteseq(h, 'key', n, const=True)
        h.assume(Q('i', lambda i: Implies(ULT(i, n), data(h.st, p)(i) == f(i))))
        for x in h.run(fn, p, n):
            h.check(x, x.ret == end(F.g(n)), '%s: the documented value' % nm)


@T.add('CharacterStreamHasher', 'one at a time, in a run or in chunks: the same value')
def hasher(h):
    s, f, L = text_of(h)
    F = Fold(h, f, L, oaat)
    p, m = h.bv('first chunk'), h.bv('second chunk')
    h.assume(ULE(p, L), ULE(m, L - p))
    h.ex.vocab += [p, m]
    o = h.raw('hasher', h.const('c10_size'))
    for x in h.run('c10_new', o):
        for x1 in h.run('c10_add', o, s, p, st=x):
            # what the object is after any bytes is decided by those bytes, so what follows holds for any number of chunks
            for x2 in h.run('c10_add', o, Ptr(s.obj, p), m, st=x1):
                for x3 in h.run('c10_add', o, s, norm(p + m), st=x):
                    same(h, x2, x3, o, 'two chunks and one run')
                for x3 in h.run('c10_result', o, st=x2):
                    h.check(x3, x3.ret == oaat_end(F.g(norm(p + m))), 'hasher: the documented value')
            y = x1.copy()
            y.assume(ULT(p, L))
            for y2 in h.run('c10_add1', o, f(p), st=y):
                z = x.copy()
                z.assume(ULT(p, L))
                for y3 in h.run('c10_add', o, s, norm(p + 1), st=z):
                    same(h, y2, y3, o, 'one byte at a time and one run')


def same(h, a, b, o, what):
    ca, cb = a.mem[o.obj].cells, b.mem[o.obj].cells
    h.check(a, z3.BoolVal(sorted(ca) == sorted(cb)), '%s: the same state' % what)
    c = a.copy()
    for x in b.pc:
        c.assume(x)
    for k in ca:
        if k in cb:
            h.check(c, ca[k][1] == cb[k][1], '%s: the same state' % what)


@T.add('integer and combining hashes', 'the documented mixing values')
def ints(h):
    a, b = h.bv('a', 32), h.bv('b', 32)
    v = h.bv('v', 64)
    for x in h.run('c10_i32', a):
        equal(h, x, x.ret, int32(a), 'HashInt32')
    for x in h.run('c10_i64', v):
        equal(h, x, x.ret, int64(v), 'HashInt64')
    for x in h.run('c10_int4', v):
        equal(h, x, x.ret, int32(z3.Extract(31, 0, v)), 'HashInteger<4>')
    for x in h.run('c10_int8', v):
        equal(h, x, x.ret, int64(v), 'HashInteger<8>')
    p = h.raw('pointee', 8)
    for x in h.run('c10_ptr', p):
        equal(h, x, x.ret, int64(h.ex.ptrtoint(x, p)), 'HashPointer')
    for x in h.run('c10_ptr', NULL):
        equal(h, x, x.ret, int64(BV(0)), 'HashPointer(null)')
    for x in h.run('c10_combine', a, b):
        h.check(x, x.ret == a ^ (b + W(0x9e3779b9) + (a << 6) + z3.LShR(b, 2)), 'HashCombine')
