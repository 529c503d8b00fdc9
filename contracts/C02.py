"""C02: bit scans, power-of-two and alignment helpers."""
from kv.lib import *
from kv.harness import Targets
T = Targets()


def scan(name, fn, n, left):
    @T.add(name, 'n != 0 ==> result is the index of the %s set bit' % ('highest' if left else 'lowest'))
    def t(h):
        x = h.bv('n', n)
        h.assume(x != 0)
        for s in h.run(fn, x):
            r = s.ret
            w = r.size()
            h.check(s, ULT(r, BV(n, w)), name + ' in range')
            rn = z3.Extract(n - 1, 0, r) if w > n else r
            if left:
                h.check(s, z3.LShR(x, rn) == 1, name + ' is the index of the highest set bit')
            else:
                h.check(s, And((z3.LShR(x, rn) & 1) == 1, ((x << (BV(n - 1, n) - rn)) << 1) == 0), name + ' is the index of the lowest set bit')


scan('Log2', 'c02_log2', 64, True)
scan('FindLeftmostBit32', 'c02_left32', 32, True)
scan('FindLeftmostBit64', 'c02_left64', 64, True)
scan('FindRightmostBit', 'c02_right', 64, False)


@T.add('IsPowerOfTwo', 'result == exactly one bit set')
def pow2(h):
    x = h.bv('n')
    for s in h.run('c02_pow2', x):
        h.check(s, B(s.ret) == Or(*[x == BV(1 << k) for k in range(64)]), 'IsPowerOfTwo exact')


@T.add('Align', 'alignment = 2^k, result representable ==> smallest multiple >= count')
def align(h):
    for k in range(64):
        a = 1 << k
        x = h.bv('count')
        for s in h.run('c02_align', x, BV(a)):
            up = z3.ZeroExt(1, x) + BV(a - 1, 65)
            exact = z3.Extract(63, 0, up) & BV(~(a - 1))
            fits = z3.Extract(64, 64, up) == 0
            h.check(s, Implies(fits, s.ret == exact), 'Align to 2^%d' % k)


@T.add('IsAligned', 'alignment = 2^k: result == address is a multiple')
def isal(h):
    for k in range(64):
        a = 1 << k
        x = h.bv('addr')
        for s in h.run('c02_isaligned_p', Ptr(None, x), BV(a)):
            h.check(s, B(s.ret) == ((x & BV(a - 1)) == 0), 'IsAligned(pointer) 2^%d' % k)
        for s in h.run('c02_isaligned_s', x, BV(a)):
            h.check(s, B(s.ret) == ((x & BV(a - 1)) == 0), 'IsAligned(size_t) 2^%d' % k)
        y = h.bv('addr32', 32)
        for s in h.run('c02_isaligned_w', y, BV(a)):
            h.check(s, B(s.ret) == ((z3.ZeroExt(32, y) & BV(a - 1)) == 0), 'IsAligned(uint32_t) 2^%d' % k)


@T.add('AlignedBase', 'alignment = 2^k: largest multiple <= address')
def base(h):
    for k in range(64):
        a = 1 << k
        x = h.bv('addr')
        for s in h.run('c02_base', Ptr(None, x), BV(a)):
            r = h.ex.ptrtoint(s, s.ret)
            h.check(s, And((r & BV(a - 1)) == 0, ULE(r, x), ULT(x - r, BV(a)) if a < 1 << 63 else ULT(x - r, BV(a))),
                    'AlignedBase 2^%d' % k)


for _n in (1, 2, 3, 4, 12, 30):
    def mk(n):
        @T.add('pointer bits %d' % n, 'set on an aligned pointer, read back, cleared')
        def t(h):
            p, b = h.bv('ptr'), h.bv('bits')
            h.assume((p & BV((1 << n) - 1)) == 0, ULT(b, BV(1 << n)))
            for s in h.run('c02_set', Ptr(None, p), b):
                q = h.ex.ptrtoint(s, s.ret)
                for s2 in h.run('c02_get%d' % n, Ptr(None, q), st=s):
                    h.check(s2, s2.ret == b, 'tag bits read back exactly')
                for s2 in h.run('c02_clear%d' % n, Ptr(None, q), st=s):
                    h.check(s2, h.ex.ptrtoint(s2, s2.ret) == p, 'clearing restores the pointer')
    mk(_n)
