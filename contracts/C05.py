"""C05: bounded string copies never overrun, always terminate, and copy exactly."""
from kv.cstr import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [lc]


def umin(a, b):
    return If(ULE(a, b), a, b)


def setup(h):
    """destination of N bytes of which maxlength may be used"""
    N, M = h.bv('buffer'), h.bv('maxlength')
    d = byteseq(h, 'dest', N)
    h.assume(ULE(M, N))
    h.ex.vocab += [M, N]
    h.ex.loop_specs.append(byte_templates())
    return d, N, M, data(h.st, d)


def result(h, s, d, M, old, src, want, what, base=BV(0)):
    """post: dest = old[0..base) + src[0..want) + NUL, nothing at or beyond M changed"""
    new = data(s, d)
    r = simp(base + want)
    h.check(s, s.ret == r, '%s: returned length' % what)
    h.check(s, new(r) == B0, '%s: NUL-terminated at the returned length' % what)
    h.check(s, Q('i', lambda i: Implies(And(UGE(i, base), ULT(i, r)), new(i) == src(i - base))), '%s: characters copied' % what)
    if not base.eq(BV(0)):
        h.check(s, Q('i', lambda i: Implies(ULT(i, base), new(i) == old(i))), '%s: old content kept' % what)
    h.check(s, Q('i', lambda i: Implies(UGE(i, M), new(i) == old(i))), '%s: nothing written at or beyond maxlength' % what)


@T.add('SafeStrcpy', 'longest prefix that fits')
def copy(h):
    d, N, M, old = setup(h)
    h.assume(M != 0)
    L = h.bv('length')
    s = cstring(h, 'src', L)
    h.ex.vocab.append(L)
    for x in h.run('c05_copy', d, M, s):
        result(h, x, d, M, old, data(x, s), umin(L, M - 1), 'SafeStrcpy')


@T.add('SafeStrcpyN', 'longest prefix of the first n characters that fits, terminated source')
def copyn(h):
    d, N, M, old = setup(h)
    h.assume(M != 0)
    L, n = h.bv('length'), h.bv('n')
    s = cstring(h, 'src', L)
    h.ex.vocab += [L, n]
    for x in h.run('c05_copyn', d, M, s, n):
        result(h, x, d, M, old, data(x, s), umin(umin(L, n), M - 1), 'SafeStrcpyN')


@T.add('SafeStrcpyN counted', 'n characters without a terminator')
def copyn2(h):
    d, N, M, old = setup(h)
    h.assume(M != 0)
    n = h.bv('n')
    s = byteseq(h, 'src', n, const=True)
    f = data(h.st, s)
    h.assume(Q('i', lambda i: Implies(ULT(i, n), f(i) != B0)))
    h.ex.vocab += [n]
    for x in h.run('c05_copyn', d, M, s, n):
        result(h, x, d, M, old, f, umin(n, M - 1), 'SafeStrcpyN of an unterminated source')


@T.add('SafeStrcat', 'appends the longest prefix that fits behind the old content')
def cat(h):
    d, N, M, old = setup(h)
    K, L = h.bv('old'), h.bv('length')
    s = cstring(h, 'src', L)
    h.assume(ULT(K, N), old(K) == B0, Q('i', lambda i: Implies(ULT(i, K), old(i) != B0)))
    h.st.mem[d.obj].shadow['nul'] = (K,)
    h.ex.vocab += [L, K, M - 1]
    # room behind the old content
    for fits in (True, False):
        st = h.st.copy()
        room = And(UGE(M, BV(1)), ULE(K, M - 1))
        st.assume(room if fits else Not(room))
        if not h.ex.feasible(st):
            continue
        for x in h.run('c05_cat', d, M, s, st=st):
            if fits:
                result(h, x, d, M, old, data(x, s), umin(L, M - 1 - K), 'SafeStrcat', K)
            else:
                new = data(x, d)
                h.check(x, x.ret == K, 'SafeStrcat to a full buffer returns the old length')
                h.check(x, Q('i', lambda i: Implies(ULT(i, N), new(i) == old(i))), 'SafeStrcat leaves a full buffer alone')


@T.add('null or empty destination', 'left alone, 0 returned')
def nulls(h):
    d, N, M, old = setup(h)
    L, n = h.bv('length'), h.bv('n')
    s = cstring(h, 'src', L)
    for dst, m in ((NULL, M), (d, BV(0))):
        for fn, more in (('c05_copy', []), ('c05_copyn', [n])):
            for x in h.run(fn, dst, m, s, *more):
                h.check(x, x.ret == 0, 'null or empty destination gives 0')
                new = data(x, d)
                h.check(x, Q('i', lambda i: Implies(ULT(i, N), new(i) == old(i))), 'nothing is written')
