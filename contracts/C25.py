"""C25: time conversions are exact."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
G = 10 ** 9
ASSUMPTIONS = ['std::chrono is inlined and verified with the headers, not assumed']


def fits(h):
    """a timespec: the nanosecond count and its seconds part fit 64 bits"""
    s, n = h.bv('sec'), h.bv('nsec')
    hi = ((1 << 63) - 1) // G
    h.assume(s >= BV(-hi), s <= BV(hi))
    t = s * BV(G)
    h.assume(z3.BVAddNoOverflow(t, n, True), z3.BVAddNoUnderflow(t, n))
    return s, n, t + n


@T.add('TimespecToDuration', 'seconds times 10^9 plus nanoseconds, exactly')
def dur(h):
    s, n, t = fits(h)
    for x in h.run('c25_dur', s, n):
        h.check(x, x.ret == t, 'the duration is sec * 10^9 + nsec nanoseconds')


def clock(fn, ns):
    @T.add('TimespecToTimePoint %s' % fn, 'the same instant at the clock\'s resolution (%d ns)' % ns)
    def t(h):
        s, n, t = fits(h)
        for x in h.run('c25_' + fn, s, n):
            if ns == 1:
                h.check(x, x.ret == t, 'the time point is sec * 10^9 + nsec nanoseconds after the epoch')
            else:
                h.check(x, x.ret == (t / BV(ns)) * BV(ns), 'the time point is the same number of nanoseconds, truncated to the resolution')


for fn, ns in (('sys', 1), ('steady', 1), ('us', 10 ** 3), ('ms', 10 ** 6), ('cs', 10 ** 7), ('sec', G), ('min', 60 * G)):
    clock(fn, ns)


def epoch(fn, bits, signed):
    @T.add('EpochValueToTimePoint %s' % fn, 'exactly that many ticks')
    def t(h):
        v = h.bv('v', bits)
        w = v if bits == 64 else z3.SignExt(32, v) if signed else z3.ZeroExt(32, v)
        for x in h.run('c25_ep_' + fn, v):
            h.check(x, x.ret == w, 'the time point is v ticks after the epoch')


for fn, bits, sg in (('sys', 64, 1), ('sys32', 32, 1), ('sysu32', 32, 0), ('sec', 64, 1), ('sec32', 32, 1), ('ms', 64, 1), ('clk', 64, 1)):
    epoch(fn, bits, sg)
