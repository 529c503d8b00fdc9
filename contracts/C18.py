"""C18: reference counts balance and objects die exactly at zero."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refc import *
from kv.harness import Targets
T = Targets()
rs = RefSpec('Obj')
C = Contracts()
CONTRACTS = [rs.ct, C]


@C.on(exact('dying'), 'destructor of a class derived from a counted base: reports its end')
def dying(ex, st, ins, av):
    ex.oblige(st, z3.BoolVal(av[0].obj is not None and st.mem[av[0].obj].live), 'lifetime', 'only a live object is destroyed')
    st.event('die', av[0].obj)
    return 'dead' if st.dead else None


class W:
    """objects A, B (count = references held elsewhere + holders), D of a class derived from the counted one"""

    def __init__(self, h):
        self.h = h
        st = self.st = h.st
        self.objs = {}
        for n in 'AB':
            r = h.bv('ref' + n)
            st.assume(ULT(r, BV(1 << 60)))
            self.objs[n] = rs.make(h, st, n, r, 64)
        r = h.bv('refD')
        st.assume(ULT(r, BV(1 << 60)))
        self.objs['D'] = rs.make(h, st, 'D', r, h.const('c18_dersize'), h.const('c18_dersize') - h.const('c18_objsize'))
        self.off = h.const('c18_dersize') - h.const('c18_objsize')

    def base(self, n):
        """pointer of the counted class"""
        if n is None:
            return NULL
        p = self.objs[n]
        return Ptr(p.obj, BV(self.off)) if n == 'D' else p

    def der(self, n):
        return NULL if n is None else self.objs['D']

    def holder(self, states, kind, n, at=None):
        """a smart pointer (p: RefPtr, pd: RefPtr of derived, r: AlreadyRefed, rd) holding object n; -> (states, its address)"""
        h = self.h
        if at is None:
            at = Ptr(None, BV(0))
            first = True
        out = []
        p = at
        o = Cells(kind, 'param', h.const('c18_psize' if kind[0] == 'p' else 'c18_rsize'))
        for s in states:
            if at.obj is None:
                s.mem[o.id] = o
                p = Ptr(o.id, BV(0))
            tgt = self.der(n) if kind.endswith('d') else self.base(n)
            if kind[0] == 'r' and n is not None:
                # an already counted reference is handed over
                k = (self.objs[n].obj, 'rc')
                s.ghost[k] = simp(s.ghost[k] + 1)
            out += h.run(kind + '_ctor', p, tgt, st=s)
        for s in out:
            s.log = ()
        return out, p

    def what(self, kind):
        return {'p': 'p_get', 'pd': 'pd_get', 'r': 'r_arrow', 'rd': 'rd_arrow'}[kind]

    def settle(self, s, holders, text):
        """holders: [(kind, address, object held or None)]; every object has exactly its references, dies exactly at zero"""
        h = self.h
        states = [s]
        for kind, p, n in holders:
            nxt = []
            for x in states:
                for y in h.run(self.what(kind), p, st=x):
                    want = self.der(n) if kind.endswith('d') else self.base(n)
                    h.check(y, h.ex.ptr_eq(y, y.ret, want), '%s: %s holds %s' % (text, kind, n or 'nothing'))
                    nxt.append(y)
            states = nxt
        for x in states:
            for n, p in self.objs.items():
                held = sum(1 for k, a, m in holders if m == n)
                cnt, ext = rs.count(x, p), x.ghost[(p.obj, 'ext')]
                h.check(x, cnt == ext + held, '%s: count of %s equals its references' % (text, n))
                died = sum(1 for e in events(x, 'die') if e[1] == p.obj)
                touched = any(e[1] == p.obj for e in events(x, 'release'))
                h.check(x, z3.BoolVal(died <= 1), '%s: %s is destroyed at most once' % (text, n))
                h.check(x, Implies(z3.BoolVal(died > 0), cnt == 0), '%s: %s is destroyed only without references' % (text, n))
                if touched:
                    h.check(x, Implies(cnt == 0, z3.BoolVal(died == 1)), '%s: %s is destroyed when the last reference goes' % (text, n))
        # and dropping all holders balances out
        for kind, p, n in holders:
            nxt = []
            for x in states:
                nxt += h.run(kind + '_dtor', p, st=x)
            states = nxt
        for x in states:
            for n, p in self.objs.items():
                h.check(x, rs.count(x, p) == x.ghost[(p.obj, 'ext')], '%s: dropping every holder releases every reference of %s' % (text, n))


CH = (None, 'A')
CH2 = (None, 'A', 'B')


@T.add('RefPtr construct', 'takes one reference')
def ctor(h):
    w = W(h)
    for n in CH:
        p = h.raw('p', h.const('c18_psize'), st=w.st)
        for s in h.run('p_ctor', p, w.base(n), st=w.st):
            w.settle(s, [('p', p, n)], 'RefPtr(T*)')
    p = h.raw('p', h.const('c18_psize'), st=w.st)
    for s in h.run('p_null', p, st=w.st):
        w.settle(s, [('p', p, None)], 'RefPtr()')


def construct(name, fn, src, dst, moves, objs):
    @T.add(name, 'reference accounting')
    def t(h):
        for n in objs:
            w = W(h)
            states, q = w.holder([w.st], src, n)
            for s in states:
                p = h.raw('p', h.const('c18_psize'), st=s)
                for s2 in h.run(fn, p, q, st=s):
                    if moves:
                        h.check(s2, z3.BoolVal(not events(s2, 'release')), '%s: releases nothing' % name)
                    w.settle(s2, [(dst, p, n), (src, q, None if moves else n)], name)


construct('RefPtr copy', 'p_copy', 'p', 'p', False, CH)
construct('RefPtr move', 'p_move', 'p', 'p', True, CH)
construct('RefPtr copy from derived', 'p_copy_d', 'pd', 'p', False, (None, 'D'))
construct('RefPtr move from derived', 'p_move_d', 'pd', 'p', True, (None, 'D'))
construct('RefPtr from AlreadyRefed', 'p_fromr', 'r', 'p', True, CH)
construct('RefPtr from AlreadyRefed derived', 'p_fromrd', 'rd', 'p', True, (None, 'D'))
construct('AlreadyRefed copy', 'r_copy', 'r', 'r', False, CH)
construct('AlreadyRefed move', 'r_move', 'r', 'r', True, CH)


@T.add('AlreadyRefed construct and take', 'adopts one reference, take() hands it out')
def already(h):
    for fn in ('r_ctor', 'r_adopt'):
        for n in CH:
            w = W(h)
            s = w.st
            if n:
                k = (w.objs[n].obj, 'rc')
                s.ghost[k] = s.ghost[k] + 1
            p = h.raw('r', h.const('c18_rsize'), st=s)
            for s1 in h.run(fn, p, w.base(n), st=s):
                h.check(s1, z3.BoolVal(not events(s1, 'addref') and not events(s1, 'release')), 'adopting changes no count')
                w.settle(s1.copy(), [('r', p, n)], fn)
                for s2 in h.run('r_take', p, st=s1):
                    h.check(s2, h.ex.ptr_eq(s2, s2.ret, w.base(n)), 'take() returns the object')
                    if n:
                        k = (w.objs[n].obj, 'rc')
                        s2.ghost[k] = s2.ghost[k] - 1       # now the caller's
                    w.settle(s2, [('r', p, None)], 'AlreadyRefed::take')
                for s2 in h.run('r_not', p, st=s1):
                    h.check(s2, B(s2.ret) == z3.BoolVal(n is None), 'operator !')
                for m in CH2:
                    for s2 in h.run('r_eq', p, w.base(m), st=s1):
                        h.check(s2, B(s2.ret) == z3.BoolVal(n == m), '== compares the object')
                    for s2 in h.run('r_ne', p, w.base(m), st=s1):
                        h.check(s2, B(s2.ret) == z3.BoolVal(n != m), '!= compares the object')
    w = W(h)
    p = h.raw('r', h.const('c18_rsize'), st=w.st)
    for s in h.run('r_null', p, st=w.st):
        w.settle(s, [('r', p, None)], 'AlreadyRefed(nullptr)')


@T.add('RefPtr take and forget', 'hands its reference over')
def take(h):
    for fn in ('p_take', 'p_forget'):
        for n in CH:
            w = W(h)
            states, p = w.holder([w.st], 'p', n)
            for s in states:
                r = h.raw('r', h.const('c18_rsize'), st=s)
                for s2 in h.run(fn, p, r, st=s):
                    h.check(s2, z3.BoolVal(not events(s2, 'die')), '%s: destroys nothing' % fn)
                    w.settle(s2, [('p', p, None), ('r', r, n)], fn)


@T.add('RefPtr assign raw', 'replaces its reference')
def asg_raw(h):
    for fn in ('p_asg_raw', 'p_asg_new', 'p_asg_rawd', 'p_asg_null', 'p_asg_adopt'):
        for n in CH:
            for m in (('D', None) if fn == 'p_asg_rawd' else (None,) if fn == 'p_asg_null' else CH2):
                w = W(h)
                states, p = w.holder([w.st], 'p', n)
                for s in states:
                    if fn == 'p_asg_adopt' and m:
                        k = (w.objs[m].obj, 'rc')
                        s.ghost[k] = s.ghost[k] + 1
                    args = [p] if fn == 'p_asg_null' else [p, w.der(m) if fn == 'p_asg_rawd' else w.base(m)]
                    for s2 in h.run(fn, *args, st=s):
                        h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                        w.settle(s2, [('p', p, m)], fn)


def assign(name, fn, src, moves, objs):
    @T.add(name, 'reference accounting')
    def t(h):
        for n in CH:
            for m in objs:
                w = W(h)
                states, p = w.holder([w.st], 'p', n)
                states, q = w.holder(states, src, m)
                for s in states:
                    for s2 in h.run(fn, p, q, st=s):
                        h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                        w.settle(s2, [('p', p, m), (src, q, None if moves else m)], name)


assign('RefPtr = const RefPtr&', 'p_asg', 'p', False, CH2)
assign('RefPtr = RefPtr&&', 'p_asgm', 'p', True, CH2)
assign('RefPtr = const RefPtr<derived>&', 'p_asg_d', 'pd', False, (None, 'D'))
assign('RefPtr = RefPtr<derived>&&', 'p_asgm_d', 'pd', True, (None, 'D'))
assign('RefPtr = AlreadyRefed', 'p_asg_r', 'r', True, CH2)
assign('RefPtr = AlreadyRefed<derived>', 'p_asg_rd', 'rd', True, (None, 'D'))
assign('RefPtr = take()', 'p_asg_take', 'p', True, CH2)


@T.add('RefPtr self assignment', 'keeps its reference')
def selfasg(h):
    for fn in ('p_asg', 'p_asgm', 'p_asg_take'):
        for n in CH:
            w = W(h)
            states, p = w.holder([w.st], 'p', n)
            for s in states:
                for s2 in h.run(fn, p, p, st=s):
                    w.settle(s2, [('p', p, n)], 'self assignment (%s)' % fn)


@T.add('RefPtr assign from what the old object keeps alive', 'p = p->next, where p may be the only reference to *p')
def nxt(h):
    for fn in ('p_asg', 'p_asgm', 'p_asg_take', 'p_asg_raw'):
        for m in (None, 'A', 'B'):
            w = W(h)
            oA = w.objs['A']
            q = Ptr(oA.obj, BV(16))
            states, p = w.holder([w.st], 'p', 'A')
            states, _ = w.holder(states, 'p', m, at=q)
            for s in states:
                s.ghost[(oA.obj, 'child')] = 16
                arg = w.base(m) if fn == 'p_asg_raw' else q
                for s2 in h.run(fn, p, arg, st=s):
                    alive = s2.mem[oA.obj].live
                    moved = fn in ('p_asgm', 'p_asg_take')
                    hs = [('p', p, m)]
                    if alive:
                        hs.insert(0, ('p', q, None if moved else m))
                    s2.ghost.pop((oA.obj, 'child'), None)
                    w.settle(s2, hs, 'p = p->next (%s)' % fn)


@T.add('RefPtr queries', 'accessors give the object and change nothing')
def queries(h):
    for n in CH:
        w = W(h)
        states, p = w.holder([w.st], 'p', n)
        for s in states:
            for fn in ('p_get', 'p_star', 'p_arrow', 'p_conv', 'p_cconv'):
                for s2 in h.run(fn, p, st=s):
                    h.check(s2, h.ex.ptr_eq(s2, s2.ret, w.base(n)), '%s gives the object' % fn)
                    w.settle(s2, [('p', p, n)], fn)
            if n:
                for s2 in h.run('p_ref', p, st=s):
                    h.check(s2, h.ex.ptr_eq(s2, s2.ret, w.base(n)), 'reference conversion gives the object')
            for s2 in h.run('p_not', p, st=s):
                h.check(s2, B(s2.ret) == z3.BoolVal(n is None), 'operator !')
            for s2 in h.run('p_bool', p, st=s):
                h.check(s2, B(s2.ret) == z3.BoolVal(n is not None), 'operator bool')
            for fn in ('p_byref', 'p_cbyref', 'p_addr'):
                for s2 in h.run(fn, p, st=s):
                    v = s2.get(s2.ret, 8)
                    h.check(s2, h.ex.ptr_eq(s2, v, w.base(n)), '%s points at the held pointer' % fn)


# ---------------------------------------------------------------- the counted bases
def counted(pre, addrefs, releases, dele):
    """The count lives in one integer field; its value x stands for x - x0 references, x0 being the value in a new object."""
    @T.add('%s base' % pre, 'AddRef adds one, Release drops one and destroys exactly at zero')
    def t(h):
        for s0 in h.run(pre + '_new'):
            p = s0.ret
            for s in h.run(dele, p, st=s0):
                h.check(s, z3.BoolVal(len(events(s, 'die')) == 1 and not live_objects(s)), 'a new object may be deleted')
            cells0 = dict(s0.mem[p.obj].cells)
            off = None
            for s in h.run(addrefs[0], p, st=s0):
                ch = [k for k, (n, v) in s.mem[p.obj].cells.items() if not same(v, cells0.get(k, (0, None))[1])]
                h.check(s, z3.BoolVal(len(ch) == 1), 'AddRef changes exactly the count')
                off = ch[0]
            n, x0 = cells0[off]
            x = h.bv(pre + '.refs', n * 8)
            h.ex.oblige(s0, z3.BoolVal(n == 8), 'width', 'the count is as wide as a pointer')
            top = BV((1 << (n * 8)) - 2, n * 8)

            def at(k):
                s1 = s0.copy()
                s1.assume(ULE(k, top))
                s1.put(p, n, simp(x0 + k), off)
                s1.log = ()
                return s1

            def frame(s, k):
                for o2, (m, v) in s.mem[p.obj].cells.items():
                    if o2 != off:
                        h.check(s, z3.BoolVal(same(v, cells0.get(o2, (0, None))[1])), 'the rest of the object is unchanged')
                h.check(s, s.get(p, n, off) == x0 + k, 'the count is changed by exactly one')
            for fn in addrefs:
                for s in h.run(fn, p, st=at(x)):
                    h.check(s, z3.BoolVal(not events(s, 'die')), 'AddRef destroys nothing')
                    frame(s, x + 1)
            for fn in releases:
                s1 = at(x)
                s1.assume(x != 0)
                for s in h.run(fn, p, st=s1):
                    died = bool(events(s, 'die'))
                    h.check(s, z3.BoolVal(died) == (x == 1), 'Release destroys exactly when the last reference goes')
                    if died:
                        h.check(s, z3.BoolVal(len(events(s, 'die')) == 1 and not live_objects(s)), 'destroyed once and its storage released')
                    else:
                        frame(s, x - 1)


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and norm(a.off).eq(norm(b.off))
    if a is UNDEF or b is UNDEF:
        return a is b
    return simp(a).eq(simp(b))


counted('rc', ['rc_addref'], ['rc_release'], 'rc_delete')
counted('vrc', ['vrc_addref', 'vrc_iaddref'], ['vrc_release', 'vrc_irelease'], 'vrc_delete')
counted('fwd', ['fwd_addref'], ['fwd_release'], 'fwd_delete')
