"""C01: overflow detectors are exact."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
ASSUMPTIONS = []


def fits(op, a, b):
    n = a.size()
    wa, wb = z3.ZeroExt(n, a), z3.ZeroExt(n, b)
    w = wa + wb if op == 'add' else wa * wb
    return z3.Extract(2 * n - 1, n, w) == 0


def pred(name, fn, op, n):
    @T.add(name, 'result == (mathematical %s fits in %d bits)' % (op, n))
    def t(h):
        a, b = h.bv('a', n), h.bv('b', n)
        for s in h.run(fn, a, b):
            h.check(s, B(s.ret) == fits(op, a, b), '%s answers exactly' % name)


def tryop(name, fn, op, n):
    @T.add(name, 'returns whether it fits; *out = exact result on success, untouched on failure')
    def t(h):
        a, b, old = h.bv('a', n), h.bv('b', n), h.bv('old', n)
        p = h.st.new_cells('out', n // 8)
        h.st.put(p, n // 8, old)
        for s in h.run(fn, a, b, p):
            ok = fits(op, a, b)
            h.check(s, B(s.ret) == ok, '%s answers exactly' % name)
            r = a + b if op == 'add' else a * b
            h.check(s, s.get(p, n // 8) == If(s.ret, r, old), '%s output' % name)


for nm, fn, op, n in (('IsUint32AddSafe', 'c01_add32', 'add', 32), ('IsUint64AddSafe', 'c01_add64', 'add', 64),
                      ('IsUintPtrAddSafe', 'c01_addptr', 'add', 64), ('IsUint32MultiplySafe', 'c01_mul32', 'mul', 32),
                      ('IsUint64MultiplySafe', 'c01_mul64', 'mul', 64), ('IsUintPtrMultiplySafe', 'c01_mulptr', 'mul', 64),
                      ('IsUintAddSafe<uint32_t>', 'c01_tadd32', 'add', 32), ('IsUintAddSafe<uint64_t>', 'c01_tadd64', 'add', 64),
                      ('IsUintMultiplySafe<uint32_t>', 'c01_tmul32', 'mul', 32),
                      ('IsUintMultiplySafe<uint64_t>', 'c01_tmul64', 'mul', 64)):
    pred(nm, fn, op, n)
for nm, fn, op, n in (('TryUint32Add', 'c01_tryadd32', 'add', 32), ('TryUint64Add', 'c01_tryadd64', 'add', 64),
                      ('TryUint64Multiply', 'c01_trymul64', 'mul', 64)):
    tryop(nm, fn, op, n)
