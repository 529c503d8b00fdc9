"""C08: case conversion and prefix/suffix tests match their definitions."""
from kv.cxxstd import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C, sc, lc]
UP = z3.Function('toupper', z3.BitVecSort(8), z3.BitVecSort(32))
LOW = z3.Function('tolower', z3.BitVecSort(8), z3.BitVecSort(32))


@C.on(exact('toupper', 'tolower'), 'toupper/tolower: the C library mapping of an unsigned char')
def c_case(ex, st, ins, av):
    nm = ins.args[0][1]
    c = av[0]
    ex.oblige(st, ULE(c, BV(255, 32)), 'libc', '%s is given a character it is defined for' % nm)
    if st.dead:
        return 'dead'
    ex.setr(st, ins, (UP if nm == 'toupper' else LOW)(simp(z3.Extract(7, 0, c))))


def up(c):
    return z3.Extract(7, 0, UP(c))


def low(c):
    return z3.Extract(7, 0, LOW(c))


def case(h, fn, m, what):
    L = h.bv('length')
    s = cstring(h, 'str', L)
    f = data(h.st, s)
    out = h.raw('out', 32)
    h.ex.vocab.append(L)
    h.ex.loop_specs.append(byte_templates(maps=[m]))
    for x in h.run(fn, out, s):
        for x2 in h.run('c08_size', out, st=x):
            h.check(x2, x2.ret == L, '%s: keeps the length' % what)
            for x3 in h.run('c08_data', out, st=x2):
                g = data(x3, x3.ret)
                h.check(x3, Q('i', lambda i: Implies(ULT(i, L), g(i) == m(f(i)))), '%s: maps every character' % what)
                g2 = data(x3, s)
                h.check(x3, Q('i', lambda i: Implies(ULE(i, L), g2(i) == f(i))), '%s: argument untouched' % what)
                for x4 in h.run('c08_end', out, st=x3):
                    h.check(x4, z3.BoolVal(not live_objects(x4)), '%s: nothing else allocated' % what)


@T.add('Uppercase', 'every character through toupper')
def upper(h):
    case(h, 'c08_up', up, 'Uppercase')


@T.add('Lowercase', 'every character through tolower')
def lower(h):
    case(h, 'c08_low', low, 'Lowercase')


def affix(h, fn, what, first_std, second_std, suffix):
    L, M = h.bv('first length'), h.bv('second length')
    if first_std:
        a, f = given_string(h, 'first', L)
    else:
        a = cstring(h, 'first', L)
        f = data(h.st, a)
    if second_std:
        b, g = given_string(h, 'second', M)
    else:
        b = cstring(h, 'second', M)
        g = data(h.st, b)
    h.ex.vocab += [L, M]
    off = L - M if suffix else BV(0)
    sk = fresh_bv('anywhere')
    for x in h.run(fn, a, b):
        r = B(x.ret)
        h.check(x, Implies(r, ULE(M, L)), '%s: true only when the second string is not longer' % what)
        h.check(x, Q('i', lambda i: Implies(And(r, ULT(i, M)), f(norm(off + i)) == g(i))), '%s: true only when the characters agree' % what)
        # false: the second is longer or some character differs (its position is the verifier's to find)
        y = x.copy()
        y.assume(Not(r), ULE(M, L))
        y.assume(Q('i', lambda i: Implies(ULT(i, M), f(norm(off + i)) == g(i))))
        if suffix:
            y.assume(Q('i', lambda i: Implies(And(UGE(i, off), ULT(i, L)), f(i) == g(norm(i - off)))))
        h.check(y, FALSE, '%s: true whenever the characters agree' % what)


@T.add('StartsWith(string)', 'exactly when the first begins with the second')
def st1(h):
    affix(h, 'c08_starts_s', 'StartsWith', True, False, False)


@T.add('StartsWith(chars)', 'exactly when the first begins with the second')
def st2(h):
    affix(h, 'c08_starts', 'StartsWith', False, False, False)


@T.add('EndsWith', 'exactly when the first ends with the second')
def en(h):
    affix(h, 'c08_ends', 'EndsWith', True, True, True)
