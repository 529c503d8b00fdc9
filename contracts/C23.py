"""C23: scope helpers restore or run exactly once."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
cb = TokSpec('Cb')
C = Contracts()
CONTRACTS = [tok.ct, C, cb.ct]


@C.on(rx(r'^Cb::operator\(\)\(\)$'), 'calling a live callback')
def call(ex, st, ins, av):
    v = cb.read(ex, st, av[0], 'called object')
    if st.dead:
        return 'dead'
    st.event('call', v)


def alive(s):
    return [(o.id, off) for o in s.mem.values() if isinstance(o, Cells) and o.live
            for (nm, off), v in o.shadow.items() if nm == 'live' and not isfalse(v)]


@T.add('SaveAndSet', 'new value at once, old one back at the end whatever was stored meanwhile')
def save(h):
    st = h.st
    v0, v, w = h.bv('old'), h.bv('new'), h.bv('meanwhile')
    loc = tok.make_obj(st, 'location', v0)
    for val, vv in ((tok.make_obj(st, 'value', v), v), (loc, v0)):
        p = h.raw('s', h.const('c23_ssize'))
        for s in h.run('c23_save', p, loc, val):
            h.check(s, And(tok.live_at(s, loc), tok.val_at(s, loc) == vv), 'the new value is installed at once')
            h.check(s, And(tok.live_at(s, val), tok.val_at(s, val) == vv), 'the given value is unchanged')
            for w2 in (vv, w):
                s1 = s.copy()
                s1.put(loc, 8, w2)
                for s2 in h.run('c23_saved', p, st=s1):
                    h.check(s2, And(tok.live_at(s2, loc), tok.val_at(s2, loc) == v0), 'the old value is back at the end')
                    h.check(s2, z3.BoolVal(len(alive(s2)) == 2), 'saved elements are destroyed')


@T.add('SaveAndSet nested', 'two guards on one location unwind in order')
def nested(h):
    st = h.st
    v0, v1, v2 = h.bv('old'), h.bv('v1'), h.bv('v2')
    loc = tok.make_obj(st, 'location', v0)
    a, b = tok.make_obj(st, 'a', v1), tok.make_obj(st, 'b', v2)
    p, q = h.raw('s1', h.const('c23_ssize')), h.raw('s2', h.const('c23_ssize'))
    for s in h.run('c23_save', p, loc, a):
        for s in h.run('c23_save', q, loc, b, st=s):
            h.check(s, tok.val_at(s, loc) == v2, 'inner value')
            for s in h.run('c23_saved', q, st=s):
                h.check(s, tok.val_at(s, loc) == v1, 'outer value is back')
                for s in h.run('c23_saved', p, st=s):
                    h.check(s, tok.val_at(s, loc) == v0, 'old value is back')


@T.add('SaveAndSet int', 'plain values')
def savei(h):
    st = h.st
    v0, v, w = h.bv('old', 32), h.bv('new', 32), h.bv('meanwhile', 32)
    loc, val = st.new_cells('loc', 4), st.new_cells('val', 4)
    st.put(loc, 4, v0)
    st.put(val, 4, v)
    p = h.raw('s', h.const('c23_sisize'))
    for s in h.run('c23_savei', p, loc, val):
        h.check(s, s.get(loc, 4) == v, 'the new value is installed at once')
        s.put(loc, 4, w)
        s.put(val, 4, w)
        for s2 in h.run('c23_savedi', p, st=s):
            h.check(s2, s2.get(loc, 4) == v0, 'the old value is back at the end')
            h.check(s2, s2.get(val, 4) == w, 'nothing else changes')


@T.add('StackLinked', 'head of its chain while it lives')
def linked(h):
    st = h.st
    head = st.new_cells('head', 8)
    other = st.new_cells('older node', h.const('c23_nsize'))
    for prev in (NULL, other):
        s0 = st.copy()
        s0.put(head, 8, prev)
        p, q = h.raw('n', h.const('c23_nsize'), st=s0), h.raw('m', h.const('c23_nsize'), st=s0)
        for s in h.run('c23_link', p, head, st=s0):
            h.check(s, h.ex.ptr_eq(s, s.get(head, 8), p), 'a new object becomes the head')
            for s2 in h.run('c23_unlink', p, st=s):
                h.check(s2, h.ex.ptr_eq(s2, s2.get(head, 8), prev), 'the previous head is restored')
            for s2 in h.run('c23_link', q, head, st=s):
                h.check(s2, h.ex.ptr_eq(s2, s2.get(head, 8), q), 'a new object becomes the head')
                for s3 in h.run('c23_unlink', q, st=s2):
                    h.check(s3, h.ex.ptr_eq(s3, s3.get(head, 8), p), 'the previous head is restored')
                    for s4 in h.run('c23_unlink', p, st=s3):
                        h.check(s4, h.ex.ptr_eq(s4, s4.get(head, 8), prev), 'the previous head is restored')


def guard(nm, mk, mv, cancel, end, size, ref):
    @T.add('ScopeGuard ' + nm, 'runs exactly once unless cancelled, also after moves')
    def t(h):
        v = h.bv('callback')
        o = cb.make_obj(h.st, 'cb', v)
        left = 1     # the original is the caller's

        def ends(s, gs, calls, what):
            for order in (gs, gs[::-1]):
                states = [s.copy()]
                for g in order:
                    states = [y for x in states for y in h.run(end, g, st=x)]
                for x in states:
                    ev = events(x, 'call')
                    h.check(x, z3.BoolVal(len(ev) == calls), '%s: the callback runs %s' % (what, 'exactly once' if calls else 'not at all'))
                    for e in ev:
                        h.check(x, e[1] == v, '%s: it is the callback given' % what)
                    h.check(x, z3.BoolVal(len(alive(x)) == left), '%s: callbacks are destroyed' % what)
        p, q, r = (h.raw(n, h.const(size)) for n in 'pqr')
        for s in h.run(mk, p, o):
            h.check(s, z3.BoolVal(not events(s, 'call')), 'nothing runs early')
            ends(s, [p], 1, 'guard')
            for s2 in h.run(cancel, p, st=s):
                ends(s2, [p], 0, 'cancelled guard')
                for s3 in h.run(mv, q, p, st=s2):
                    ends(s3, [p, q], 0, 'cancelled and moved guard')
            for s2 in h.run(mv, q, p, st=s):
                h.check(s2, z3.BoolVal(not events(s2, 'call')), 'moving runs nothing')
                ends(s2, [p, q], 1, 'moved guard')
                for s3 in h.run(end, p, st=s2):
                    h.check(s3, z3.BoolVal(not events(s3, 'call')), 'a moved-from guard runs nothing')
                for s3 in h.run(cancel, p, st=s2):
                    ends(s3, [p, q], 1, 'moved guard whose source is cancelled')
                for s3 in h.run(cancel, q, st=s2):
                    ends(s3, [p, q], 0, 'moved guard that is cancelled')
                for s3 in h.run(mv, r, q, st=s2):
                    ends(s3, [p, q, r], 1, 'guard moved twice')
                    h.check(s3, z3.BoolVal(not events(s3, 'call')), 'moving runs nothing')


guard('constructed', 'c23_guard', 'c23_gmove', 'c23_cancel', 'c23_end', 'c23_gsize', False)
guard('made', 'c23_make', 'c23_gmove', 'c23_cancel', 'c23_end', 'c23_gsize', False)
guard('made on a named callback', 'c23_maker', 'c23_gmover', 'c23_cancelr', 'c23_endr', 'c23_grsize', True)


@T.add('ReturnAndVoid', 'returns the old value, leaves a default one')
def rav(h):
    st = h.st
    v = h.bv('old')
    loc = tok.make_obj(st, 'location', v)
    out = h.raw('out', 8)
    for s in h.run('c23_rav', loc, out):
        h.check(s, And(tok.live_at(s, out), tok.val_at(s, out) == v), 'returns the old value')
        h.check(s, And(tok.live_at(s, loc), tok.val_at(s, loc) == BV(tok.default)), 'leaves a default value')
        h.check(s, z3.BoolVal(len(alive(s)) == 2), 'temporaries are destroyed')
    x = st.new_cells('x', 4)
    loc = st.new_cells('ptr', 8)
    st.put(loc, 8, x)
    for s in h.run('c23_ravp', loc):
        h.check(s, h.ex.ptr_eq(s, s.ret, x), 'returns the old pointer')
        h.check(s, h.ex.ptr_eq(s, s.get(loc, 8), NULL), 'leaves a null pointer')
    i = h.bv('i', 32)
    st.put(x, 4, i)
    for s in h.run('c23_ravi', x):
        h.check(s, And(s.ret == i, s.get(x, 4) == 0), 'returns the old number, leaves zero')
