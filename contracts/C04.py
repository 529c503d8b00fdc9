"""C04: floating point classification."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C]
FMOD = z3.Function('C_fmod', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def as64(v):
    return z3.fpToFP(z3.RNE(), z3.fpBVToFP(v, z3.Float32()), z3.Float64())


@C.on(exact('fmod', 'std::fmod'), 'fmod: the C library remainder (uninterpreted), a function of its operands as numbers')
def c_fmod(ex, st, ins, av):
    r = FMOD(av[0], av[1])
    S = z3.Float64()
    st.assume(Implies(Or(*[z3.fpIsNaN(z3.fpBVToFP(v, S)) for v in av]), z3.fpIsNaN(z3.fpBVToFP(r, S))))
    ex.setr(st, ins, r)


@C.on(exact('fmodf'), 'fmodf: fmod of the widened operands (which a float represents exactly)')
def c_fmodf(ex, st, ins, av):
    a, b = [ex.fromfp(st, as64(v)) for v in av]
    r = FMOD(a, b)
    S = z3.Float64()
    st.assume(Implies(Or(*[z3.fpIsNaN(z3.fpBVToFP(v, S)) for v in (a, b)]), z3.fpIsNaN(z3.fpBVToFP(r, S))))
    ex.setr(st, ins, ex.fromfp(st, z3.fpToFP(z3.RNE(), z3.fpBVToFP(r, z3.Float64()), z3.Float32())))


for nm, fn, n, eb in (('float', 'f', 32, 8), ('double', 'd', 64, 11)):
    def mk(nm, fn, n, eb):
        mant = n - 1 - eb

        @T.add('IsNaN<%s>' % nm, 'result == exponent all ones and mantissa nonzero')
        def nan(h):
            v = h.bv('bits', n)
            for s in h.run('c04_nan' + fn, v):
                e, m = z3.Extract(n - 2, mant, v), z3.Extract(mant - 1, 0, v)
                h.check(s, B(s.ret) == And(e == BV(-1, eb), m != 0), 'IsNaN exactly for NaNs')

        @T.add('IsInfinite<%s>' % nm, 'result == exponent all ones and mantissa zero')
        def inf(h):
            v = h.bv('bits', n)
            for s in h.run('c04_inf' + fn, v):
                e, m = z3.Extract(n - 2, mant, v), z3.Extract(mant - 1, 0, v)
                h.check(s, B(s.ret) == And(e == BV(-1, eb), m == 0), 'IsInfinite exactly for infinities')

        @T.add('FloatModulo<%s>' % nm, 'result == fmod(left, right) rounded to the operand type')
        def mod(h):
            a, b = h.bv('left', n), h.bv('right', n)
            S = z3.Float32() if n == 32 else z3.Float64()
            for s in h.run('c04_mod' + fn, a, b):
                got = z3.fpBVToFP(s.ret, S)
                if n == 64:
                    want = z3.fpBVToFP(FMOD(a, b), S)
                    h.check(s, got == want, 'FloatModulo is the library remainder')
                else:
                    x, y = h.ex.fromfp(s, as64(a)), h.ex.fromfp(s, as64(b))
                    want = z3.fpToFP(z3.RNE(), z3.fpBVToFP(FMOD(x, y), z3.Float64()), S)
                    nan = Or(z3.fpIsNaN(z3.fpBVToFP(a, S)), z3.fpIsNaN(z3.fpBVToFP(b, S)))
                    h.check(s, If(nan, z3.fpIsNaN(got), got == want), 'FloatModulo is the library remainder')
    mk(nm, fn, n, eb)
