"""C09: path formatting yields native separators only, inside the buffer."""
from kv.cxxstd import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [va, sc, lc]


def native(c):
    return If(c == BV(0x5c, 8), BV(0x2f, 8), c)


def check(h, fn, what, variadic):
    N, M = h.bv('buffer'), h.bv('maxlength')
    d = byteseq(h, 'dest', N)
    old = data(h.st, d)
    h.assume(ULE(M, N))
    fmt = byteseq(h, 'format', BV(8), const=True)
    h.ex.vocab += [M, N]
    h.ex.loop_specs.append(byte_templates(maps=[native]))
    a, b = h.bv('arg1'), h.bv('arg2')
    for zero in (False, True):
        st = h.st.copy()
        st.assume((M == 0) if zero else (M != 0))
        more = [a, b] if variadic else [given_va(h, 'args', st)]
        ident = va_id([a, b]) if variadic else st.get(more[0], 8, 8)
        for s in h.run(fn, d, M, fmt, *more, st=st):
            new = data(s, d)
            if zero:
                h.check(s, s.ret == 0, '%s: an empty buffer gives 0' % what)
                h.check(s, Q('i', lambda i: new(i) == old(i)), '%s: an empty buffer is left alone' % what)
                continue
            h.check(s, Q('i', lambda i: Implies(UGE(i, M), new(i) == old(i))), '%s: nothing written at or beyond maxlength' % what)
            F, L = text(s, fmt, ident)
            L = z3.ZeroExt(32, L)
            if events(s, 'format failed'):
                h.check(s, s.ret == 0, '%s: a formatting error gives 0' % what)
                h.check(s, new(BV(0)) == B0, '%s: a formatting error leaves an empty string' % what)
                continue
            w = If(ULE(L, M - 1), L, M - 1)
            h.check(s, s.ret == w, '%s: returned length' % what)
            h.check(s, new(w) == B0, '%s: NUL-terminated at the returned length' % what)
            h.check(s, Q('i', lambda i: Implies(ULT(i, w), new(i) == native(F(i)))), '%s: the text with native separators' % what)


@T.add('FormatVa', 'truncated text with every foreign separator replaced')
def va_(h):
    check(h, 'c09_va', 'FormatVa', False)


@T.add('Format', 'truncated text of exactly the given arguments, separators replaced')
def v(h):
    check(h, 'c09_v', 'Format', True)
