"""C06: formatting helpers truncate safely and report the true length."""
from kv.cxxstd import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [va, sc, lc]


def umin(a, b):
    return If(ULE(a, b), a, b)


def fmt_of(h):
    return byteseq(h, 'format', BV(8), const=True)


def L64(t):
    return z3.ZeroExt(32, t[1])


def bounded(h, s, d, M, old, fmt, ident, what):
    new = data(s, d)
    t = text(s, fmt, ident)
    h.check(s, Q('i', lambda i: Implies(UGE(i, M), new(i) == old(i))), '%s: nothing written at or beyond maxlength' % what)
    if events(s, 'format failed'):
        h.check(s, s.ret == 0, '%s: a formatting error gives 0' % what)
        h.check(s, new(BV(0)) == B0, '%s: a formatting error leaves an empty string' % what)
    else:
        w = umin(L64(t), M - 1)
        h.check(s, s.ret == w, '%s: returned length' % what)
        h.check(s, new(w) == B0, '%s: NUL-terminated at the returned length' % what)
        h.check(s, Q('i', lambda i: Implies(ULT(i, w), new(i) == t[0](i))), '%s: the text itself' % what)


def small(h, fn, what, variadic):
    N, M = h.bv('buffer'), h.bv('maxlength')
    d = byteseq(h, 'dest', N)
    old = data(h.st, d)
    h.assume(ULE(M, N))
    fmt = fmt_of(h)
    h.ex.vocab += [M, N]
    a, b = h.bv('arg1'), h.bv('arg2')
    for zero in (False, True):
        st = h.st.copy()
        st.assume((M == 0) if zero else (M != 0))
        more = [a, b] if variadic else [given_va(h, 'args', st)]
        ident = va_id([a, b]) if variadic else st.get(more[0], 8, 8)
        for s in h.run(fn, d, M, fmt, *more, st=st):
            if zero:
                new = data(s, d)
                h.check(s, s.ret == 0, '%s: an empty buffer gives 0' % what)
                h.check(s, Q('i', lambda i: new(i) == old(i)), '%s: an empty buffer is left alone' % what)
            else:
                bounded(h, s, d, M, old, fmt, ident, what)


@T.add('SafeVsprintf', 'truncated text, terminated, true length, inside the buffer')
def vs(h):
    small(h, 'c06_vs', 'SafeVsprintf', False)


@T.add('SafeSprintf', 'truncated text of exactly the given arguments')
def sp(h):
    small(h, 'c06_s', 'SafeSprintf', True)


def alloc(h, fn, what, variadic):
    fmt = fmt_of(h)
    a, b = h.bv('arg1'), h.bv('arg2')
    more = [a, b] if variadic else [given_va(h, 'args')]
    ident = va_id([a, b]) if variadic else h.st.get(more[0], 8, 8)
    t = text(h.st, fmt, ident)
    h.ex.vocab += [L64(t), L64(t) + 1]
    for s in h.run(fn, fmt, *more):
        p = s.ret
        if events(s, 'format failed'):
            h.check(s, h.ex.ptr_eq(s, p, NULL), '%s: a formatting error gives nothing' % what)
        else:
            h.check(s, Not(h.ex.ptr_eq(s, p, NULL)), '%s: text is returned' % what)
            if p.obj is None:
                continue
            o = s.mem[p.obj]
            if isinstance(o, Cells):
                rd = lambda i: cell_read(o, i, 1)
                n = o.nbytes
                h.check(s, ULT(L64(t), BV(n)), '%s: room for the whole text' % what)
                for i in range(min(n, 8)):
                    v = rd(i)
                    h.check(s, FALSE if v is UNDEF else And(Implies(L64(t) == i, v == B0), Implies(ULT(BV(i), L64(t)), v == t[0](BV(i)))),
                            '%s: the complete text' % what)
                h.check(s, ULE(L64(t), BV(8)), '%s: short' % what)
            else:
                f = o.data[0]
                h.check(s, ULT(L64(t), o.n), '%s: room for the whole text' % what)
                h.check(s, f(L64(t)) == B0, '%s: NUL-terminated at its length' % what)
                h.check(s, Q('i', lambda i: Implies(ULT(i, L64(t)), f(i) == t[0](i))), '%s: the complete text' % what)
        for s2 in h.run('c06_del', p, st=s):
            h.check(s2, z3.BoolVal(not live_objects(s2)), '%s: the text is all that was allocated' % what)


@T.add('SprintfArgs', 'the complete text, or null on a formatting error')
def sa(h):
    alloc(h, 'c06_va', 'SprintfArgs', False)


@T.add('Sprintf', 'the complete text of exactly the given arguments, or null')
def sf(h):
    alloc(h, 'c06_v', 'Sprintf', True)


def stringp(h, fn, what, variadic):
    fmt = fmt_of(h)
    out = h.raw('out', 32)
    a, b = h.bv('arg1'), h.bv('arg2')
    more = [a, b] if variadic else [given_va(h, 'args')]
    ident = va_id([a, b]) if variadic else h.st.get(more[0], 8, 8)
    t = text(h.st, fmt, ident)
    h.ex.vocab += [L64(t), L64(t) + 1]
    for s in h.run(fn, out, fmt, *more):
        for s2 in h.run('c06_size', out, st=s):
            n = s2.ret
            for s3 in h.run('c06_data', out, st=s2):
                f = data(s3, s3.ret)
                if events(s3, 'format failed'):
                    h.check(s3, n == 0, '%s: a formatting error gives an empty string' % what)
                else:
                    h.check(s3, n == L64(t), '%s: exact length' % what)
                    h.check(s3, Q('i', lambda i: Implies(ULT(i, n), f(i) == t[0](i))), '%s: the complete text' % what)
                for s4 in h.run('c06_end', out, st=s3):
                    h.check(s4, z3.BoolVal(not live_objects(s4)), '%s: temporary storage is released' % what)


@T.add('StringPrintfVa', 'a string of the complete text, or empty')
def spv(h):
    stringp(h, 'c06_strva', 'StringPrintfVa', False)


@T.add('StringPrintf', 'a string of the complete text of exactly the given arguments')
def spf(h):
    stringp(h, 'c06_str', 'StringPrintf', True)
