"""C21: InlineList keeps its members, order and length.

Nodes and the head of the list are elements of one sequence (element 0 stands for null, the head lies in element 1, the others are
items); nothing in the code depends on where nodes lie. The order of the list is a ghost sequence: at(k) is the k-th member for
k < length, at(length) is the head, pos is its inverse. Links of the list are exactly the circle at(0), at(1), ..., head."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C]
HEAD = BV(1)
ASSUMPTIONS = ['nodes are addressed as elements of one sequence that holds the head of the list too (the code only compares and follows links)',
               'fewer than 2^40 nodes', 'a node appended is in no list, a node removed is a member of the list (conditions on the caller)']


class List:
    """an arbitrary list in an arbitrary world of nodes"""
    def __init__(self, h, links=True):
        self.h = h
        self.S, self.node = h.const('l_item'), h.const('l_node')
        self.onx, self.opv = self.node + h.const('l_next'), self.node + h.const('l_prev')
        self.olen = self.node + h.const('l_len')
        assert h.const('l_place') == self.S and h.const('l_v') == self.olen and h.const('l_head') == 0
        self.N, self.L = h.bv('nodes'), h.bv('length')
        h.assume(ULT(self.N, 1 << 40), ULT(BV(1), self.N), ULT(self.L, self.N))
        p = h.st.new_seq('nodes', self.N, self.S, {0: ('bv', 8), self.onx: ('link', self.node), self.opv: ('link', self.node), self.olen: ('bv', 8)})
        self.oid = p.obj
        o = h.st.w(p.obj)
        self.at, self.pos = fresh_fn('at', 64, 'k'), fresh_fn('pos', 64, 'i')
        self.nx, self.pv, self.v, self.b = o.data[self.onx], o.data[self.opv], o.data[self.olen], o.data[0]
        if links:
            h.assume(*self.order(self.nx, self.pv, self.at, self.pos, self.L), self.v(HEAD) == self.L)
        h.ex.vocab += [self.L]
        self.l = self.ptr(HEAD)

    def ptr(self, i):
        return Ptr(self.oid, norm(BV(self.S) * i + self.node))

    def item(self, i):
        return Ptr(self.oid, norm(BV(self.S) * i))

    def order(self, nx, pv, at, pos, L):
        return [Q('k', lambda k: Implies(ULE(k, L), And(UGE(at(k), 1), ULT(at(k), self.N), pos(at(k)) == k, (at(k) == HEAD) == (k == L),
                                                        nx(at(k)) == at(If(k == L, BV(0), norm(k + 1))), pv(at(k)) == at(If(k == 0, L, norm(k - 1))))), 'circle'),
                at(L) == HEAD]

    def member(self, x):
        return And(ULE(self.pos(x), self.L), self.at(self.pos(x)) == x)

    def node_named(self, name, member):
        """an arbitrary item, in the list or in no list"""
        t = self.h.bv(name)
        self.h.assume(UGE(t, 2), ULT(t, self.N))
        if member:
            self.h.assume(self.member(t), ULT(self.pos(t), self.L))
        elif member is False:
            self.h.assume(Not(self.member(t)), self.nx(t) == 0, self.pv(t) == 0)
        self.h.ex.vocab += [t]
        return t

    def after(self, s, at, pos, L, changed, what, length=True):
        h, o = self.h, s.mem[self.oid]
        nx, pv, v, b = o.data[self.onx], o.data[self.opv], o.data[self.olen], o.data[0]
        for g, t in zip(self.order(nx, pv, at, pos, L), ('the members and their order, both ways', 'the end')):
            h.check(s, g, what + ': ' + t)
        if length:
            h.check(s, v(HEAD) == L, what + ': the length')
        old = lambda x: Or(self.member(x), And(ULE(pos(x), L), at(pos(x)) == x))
        h.check(s, Q('i', lambda x: Implies(And(ULT(x, self.N), Not(old(x)), *[x != c for c in changed]), And(nx(x) == self.nx(x), pv(x) == self.pv(x))), 'others'), what + ': links of other nodes are not changed')
        h.check(s, Q('i', lambda x: Implies(ULT(x, self.N), And(b(x) == self.b(x), Or(x == HEAD, v(x) == self.v(x)))), 'contents'), what + ': the items are not changed')

    def same(self, s, what):
        self.after(s, self.at, self.pos, self.L, [], what)

    def is_item(self, s, p, i, what):
        ok = isinstance(p, Ptr) and p.obj == self.oid
        self.h.check(s, And(z3.BoolVal(ok), Not(B(p.null)), norm(p.off) == norm(BV(self.S) * i)) if ok else FALSE, what)


def without(l, t):
    p = l.pos(t)
    at = Fn(lambda k: If(ULT(k, p), l.at(k), l.at(norm(k + 1))))
    pos = Fn(lambda x: If(ULE(l.pos(x), p), l.pos(x), norm(l.pos(x) - 1)))
    return at, pos, norm(l.L - 1)


@T.add('append', 'the node is last, every other member keeps its place')
def append(h):
    l = List(h)
    t = l.node_named('node', False)
    at = l.at.store(l.L, t).store(norm(l.L + 1), HEAD)
    pos = l.pos.store(t, l.L).store(HEAD, norm(l.L + 1))
    for s in h.run('l_append', l.l, l.item(t)):
        l.after(s, at, pos, norm(l.L + 1), [], 'append')
        for s2 in h.run('n_in', l.item(t), st=s):
            h.check(s2, B(s2.ret), 'append: the node is in a list')


for nm, fn in (('remove', 'l_remove'), ('erase', 'l_erase'), ('erase in reverse', 'l_rerase'), ('removeFromParentList', 'n_leave')):
    @T.add(nm, 'takes out exactly the node, every other member keeps its place')
    def remove(h, fn=fn, nm=nm):
        l = List(h)
        t = l.node_named('node', True)
        at, pos, L = without(l, t)
        for s in h.run(fn, *([l.item(t)] if fn == 'n_leave' else [l.l, l.item(t)])):
            o = s.mem[l.oid]
            h.check(s, And(o.data[l.onx](t) == 0, o.data[l.opv](t) == 0), nm + ': the node has no links')
            p = l.pos(t)
            if fn == 'l_erase':
                l.is_item(s, s.ret, l.at(norm(p + 1)), nm + ': gives the position after the erased one')
            if fn == 'l_rerase':
                l.is_item(s, s.ret, l.at(If(p == 0, l.L, norm(p - 1))), nm + ': gives the position before the erased one')
            l.after(s, at, pos, L, [t], nm, fn != 'n_leave')
            for s2 in h.run('n_in', l.item(t), st=s):
                h.check(s2, Not(B(s2.ret)), nm + ': the node is in no list')
                if fn == 'n_leave':
                    h.check(s2, s2.mem[l.oid].data[l.olen](HEAD) == L, nm + ': the length')


@T.add('construction of a list', 'empty')
def new(h):
    l = List(h, links=False)
    for s in h.run('l_new', l.l):
        at = const_fn(HEAD)
        o = s.mem[l.oid]
        h.check(s, And(o.data[l.onx](HEAD) == 1, o.data[l.opv](HEAD) == 1, o.data[l.olen](HEAD) == 0), 'construction: an empty circle, length 0')
        h.check(s, Q('i', lambda x: Implies(And(ULT(x, l.N), x != HEAD), And(o.data[l.onx](x) == l.nx(x), o.data[l.opv](x) == l.pv(x), o.data[l.olen](x) == l.v(x)))), 'construction: nothing else is changed')


@T.add('construction of a node', 'in no list')
def newnode(h):
    l = List(h, links=False)
    t = h.bv('node')
    h.assume(UGE(t, 1), ULT(t, l.N))
    for s in h.run('n_new', l.ptr(t)):
        o = s.mem[l.oid]
        h.check(s, And(o.data[l.onx](t) == 0, o.data[l.opv](t) == 0), 'construction: no links')
        for s2 in h.run('n_in', l.item(t), st=s):
            h.check(s2, Not(B(s2.ret)), 'construction: the node is in no list')


@T.add('isInList', 'exactly while the node is a member')
def inlist(h):
    l = List(h)
    t = l.node_named('node', None)
    m = h.bool('member')
    h.assume(If(m, And(l.member(t), ULT(l.pos(t), l.L)), And(Not(l.member(t)), l.nx(t) == 0, l.pv(t) == 0)))
    for s in h.run('n_in', l.item(t)):
        h.check(s, B(s.ret) == m, 'isInList')
        l.same(s, 'isInList')


@T.add('length and empty', 'equal the number of members')
def length(h):
    l = List(h)
    for s in h.run('l_length', l.l):
        h.check(s, s.ret == l.L, 'length')
        l.same(s, 'length')
    for s in h.run('l_empty', l.l):
        h.check(s, B(s.ret) == (l.L == 0), 'empty')
        l.same(s, 'empty')


@T.add('ends', 'begin is at the first member and rbegin at the last (at the end when there is none), end and rend are at the head')
def ends(h):
    l = List(h)
    for fn, i in (('l_begin', l.at(BV(0))), ('l_end_', HEAD), ('l_rbegin', l.at(If(l.L == 0, BV(0), norm(l.L - 1)))), ('l_rend', HEAD)):
        for s in h.run(fn, l.l):
            l.is_item(s, s.ret, i, fn)
            l.same(s, fn)


@T.add('iterators', 'move to the next member in their direction, are equal exactly when at the same node')
def iterators(h):
    l = List(h)
    t = l.node_named('node', True)
    u = l.node_named('other', None)
    p = l.pos(t)
    f, r = l.at(norm(p + 1)), l.at(If(p == 0, l.L, norm(p - 1)))
    for fn, i in (('it_pre', f), ('it_after', f), ('it_post', t), ('it_post_after', f), ('rit_pre', r), ('rit_after', r), ('rit_post', t), ('rit_post_after', r)):
        for s in h.run(fn, l.item(t)):
            l.is_item(s, s.ret, i, fn)
            l.same(s, fn)
    for fn in ('it_eq', 'it_ne', 'rit_eq', 'rit_ne'):
        for s in h.run(fn, l.item(t), l.item(u)):
            h.check(s, B(s.ret) == ((t == u) if fn.endswith('eq') else (t != u)), fn)


@C.on(exact('visit(Item*)'), 'the visitor of a walk: records which member it is given')
def visit(ex, st, ins, av):
    l, rev = st.ghost['walk']
    seen = st.ghost['SEEN']
    p = av[0]
    ok = isinstance(p, Ptr) and p.obj == l.oid
    want = l.at(norm(l.L - 1 - seen) if rev else seen)
    ex.oblige(st, And(Not(B(p.null)), ULT(seen, l.L), norm(p.off) == norm(BV(l.S) * want)) if ok else FALSE, 'post', 'walk: visits the members in order')
    if st.dead:
        return 'dead'
    st.setg('SEEN', norm(seen + 1))


def link_vars(entry, l):
    """local variables that point to a node"""
    out = []
    for o in entry.mem.values():
        if o.live and isinstance(o, Cells) and o.size == 8:
            v = entry.get(Ptr(o.id, BV(0)), 8)
            if isinstance(v, Ptr) and v.obj == l.oid:
                out.append(o.id)
    return out


def place(s, oid, l):
    v = s.get(Ptr(oid, BV(0)), 8)
    if not isinstance(v, Ptr) or v.obj != l.oid:
        return None
    r = split_index(norm(v.off), l.S)
    return None if not r or r[1] != l.node else (r[0], B(v.null))


def walk_spec(ex, entry, view):
    l, rev = entry.ghost['walk']
    cs = []
    for v in link_vars(entry, l):
        def fn(s, v=v):
            x, seen = place(s, v, l), s.ghost['SEEN']
            if x is None:
                return FALSE
            k = If(seen == l.L, l.L, norm(l.L - 1 - seen)) if rev else seen
            return And(ULE(seen, l.L), Not(x[1]), x[0] == l.at(k))
        cs.append(Cand('variable %d is at the next member' % v, fn))
    view.measures.append((lambda s: norm(l.L - s.ghost['SEEN']), lambda b, a: ULT(b, a)))
    return cs


for fn, rev in (('l_walk', False), ('l_rwalk', True)):
    @T.add('walk in reverse' if rev else 'walk', 'visits every member once, in %s' % ('reverse order' if rev else 'order'))
    def walk(h, fn=fn, rev=rev):
        l = List(h)
        h.st.ghost['walk'] = (l, rev)
        h.st.setg('SEEN', BV(0))
        h.ex.loop_specs.append(walk_spec)
        for s in h.run(fn, l.l):
            h.check(s, s.ghost['SEEN'] == l.L, 'walk: visits every member')
            l.same(s, 'walk')


def end_spec(ex, entry, view):
    """members leave from the front, as many as the length has gone down by"""
    l = entry.ghost['end']

    def parts(s):
        o = s.mem[l.oid]
        n = o.data[l.olen](HEAD)
        return o.data[l.onx], o.data[l.opv], n, norm(l.L - n), o.data[l.olen], o.data[0]

    def less(s):
        return ULE(parts(s)[2], l.L)

    def circle(s):
        nx, pv, n, r, _, _ = parts(s)
        return [Q('k', lambda k: Implies(And(UGE(k, r), ULE(k, l.L)), And(nx(l.at(k)) == If(k == l.L, l.at(r), l.at(norm(k + 1))), pv(l.at(k)) == If(k == r, HEAD, If(k == l.L, l.at(norm(l.L - 1)), l.at(norm(k - 1)))))), 'rest')]

    def gone(s):
        nx, pv, n, r, _, _ = parts(s)
        return Q('k', lambda k: Implies(ULT(k, r), And(nx(l.at(k)) == 0, pv(l.at(k)) == 0)), 'gone')

    def others(s):
        nx, pv, n, r, _, _ = parts(s)
        return Q('i', lambda x: Implies(And(ULT(x, l.N), Not(l.member(x))), And(nx(x) == l.nx(x), pv(x) == l.pv(x))), 'others')

    def contents(s):
        v, b = parts(s)[4:]
        return Q('i', lambda x: Implies(ULT(x, l.N), And(b(x) == l.b(x), Or(x == HEAD, v(x) == l.v(x)))), 'contents')
    view.measures.append((lambda s: parts(s)[2], lambda b, a: ULT(b, a)))
    return [Cand(n, f) for n, f in (('fewer', less), ('rest in order', circle), ('gone', gone), ('others', others), ('contents', contents))]


@T.add('destruction', 'with assertions on: afterwards no member is in a list; other nodes are not changed')
def end(h):
    l = List(h)
    h.st.ghost['end'] = l
    h.ex.loop_specs.append(end_spec)
    for s in h.run('l_end', l.l):
        o = s.mem[l.oid]
        nx, pv, v = o.data[l.onx], o.data[l.opv], o.data[l.olen]
        if not h.ex.opts.get('ndebug'):
            h.check(s, Q('k', lambda k: Implies(ULT(k, l.L), And(nx(l.at(k)) == 0, pv(l.at(k)) == 0))), 'destruction: no member is left in a list')
        h.check(s, Q('i', lambda x: Implies(And(ULT(x, l.N), Not(l.member(x))), And(nx(x) == l.nx(x), pv(x) == l.pv(x)))), 'destruction: other nodes are not changed')
        h.check(s, Q('i', lambda x: Implies(And(ULT(x, l.N), x != HEAD), v(x) == l.v(x))), 'destruction: the items are not changed')
