"""C19: thread-safe reference counts are changed by single atomic steps; the atomic reference cell keeps references.

Other threads are the rely condition: before every atomic step they may have changed the shared word in any way their
own contracts allow."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
C = Contracts()
CONTRACTS = [C]
ASSUMPTIONS = ['other threads act only through the same operations and only on references they hold',
               'an atomic operation is one indivisible step; weaker memory orders than sequential consistency are not modelled',
               'termination of the spin loop needs the other threads to make progress']


@C.on(exact('dying'), 'destructor of a class derived from a counted base: reports its end')
def dying(ex, st, ins, av):
    ex.oblige(st, z3.BoolVal(av[0].obj is not None and st.mem[av[0].obj].live), 'lifetime', 'only a live object is destroyed')
    st.event('die', av[0].obj)
    return 'dead' if st.dead else None


@C.on(exact('sched_yield'), 'yielding the processor changes nothing')
def sched(ex, st, ins, av):
    ex.setr(st, ins, BV(0, 32))


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and norm(a.off).eq(norm(b.off))
    if a is UNDEF or b is UNDEF:
        return a is b
    return simp(a).eq(simp(b))


# ---------------------------------------------------------------- counted bases
class Rely:
    """one thread holding one reference to the object while other threads add and drop theirs.
    g: (object, offset, width, value of the count for no references)"""

    def interfere(self, ex, st, p):
        g = st.ghost.get('rc')
        if g is None or p.obj != g[0] or norm(p.off).eq(BV(g[1])) is False:
            return
        ph = st.ghost['phase']
        if ph == 'gone':
            return
        if ph == 'released':
            return
        # somebody else's steps: any count that includes our own reference
        k = fresh_bv('refs', g[2] * 8)
        st.assume(UGE(k, 1), ULE(k, BV((1 << (g[2] * 8)) - 2, g[2] * 8)))
        st.put(Ptr(g[0], BV(0)), g[2], simp(g[3] + k), g[1])

    def load(self, ex, st, ins, p):
        self.interfere(ex, st, p)

    def rmw(self, ex, st, ins, p, op, x):
        self.interfere(ex, st, p)

    def store(self, ex, st, ins, p, x):
        g = st.ghost.get('rc')
        if g and p.obj == g[0] and norm(p.off).eq(BV(g[1])):
            ex.oblige(st, FALSE, 'atomicity', 'the count is changed only by read-modify-write steps')

    def done(self, ex, st, ins, p, old, new):
        g = st.ghost.get('rc')
        if not g or p.obj != g[0] or not norm(p.off).eq(BV(g[1])):
            return
        what = st.ghost['op']
        if what == 'add':
            ex.oblige(st, new == old + 1, 'atomicity', 'AddRef changes the count by one step of +1')
        else:
            ex.oblige(st, new == old - 1, 'atomicity', 'Release changes the count by one step of -1')
        st.ghost['steps'] = st.ghost['steps'] + 1
        ex.oblige(st, z3.BoolVal(st.ghost['steps'] == 1), 'atomicity', 'the count is changed exactly once')
        if what == 'sub':
            st.ghost['new'] = new
            st.ghost['phase'] = 'released'
            # from here on the object exists for us only if ours was the last reference
            s2 = new == g[3]
            if not ex.must(st, s2):
                def guard(ex2, st2, o, p2, n, write):
                    if st2.ghost.get('phase') == 'released':
                        ex2.oblige(st2, st2.ghost['new'] == g[3], 'lifetime', 'the object is not touched after giving up a reference that was not the last')
                o = st.w(g[0])
                o.user = dict(o.user)
                o.user['on_access'] = guard


rely = Rely()
OPTS = {'atomic_load': rely.load, 'atomic_rmw': rely.rmw, 'atomic_store': rely.store, 'atomic_done': rely.done}


def counted(pre, addrefs, releases, dele, reports):
    @T.add('%s base' % pre, 'one atomic step each; destroyed by the step from one to zero', opts=OPTS)
    def t(h):
        h.ex.no_term = True
        for s0 in h.run(pre + '_new'):
            p = s0.ret
            for s in h.run(dele, p, st=s0):
                h.check(s, z3.BoolVal(len(events(s, 'die')) == 1 and not live_objects(s)), 'a new object may be deleted')
            cells0 = dict(s0.mem[p.obj].cells)
            offs = set()
            for s in h.run(addrefs[0], p, st=s0):
                ch = [k for k, (n, v) in s.mem[p.obj].cells.items() if not same(v, cells0.get(k, (0, None))[1])]
                h.check(s, z3.BoolVal(len(ch) == 1), 'AddRef changes exactly the count')
                offs.update(ch)
            off = min(offs)
            n, x0 = cells0[off]
            h.ex.oblige(s0, z3.BoolVal(n == 8), 'width', 'the count is as wide as a pointer')

            def begin(op):
                s1 = s0.copy()
                s1.log = ()
                s1.ghost.update({'rc': (p.obj, off, n, x0), 'phase': 'held', 'op': op, 'steps': 0})
                return s1

            def frame(s):
                for o2, (m, v) in s.mem[p.obj].cells.items():
                    if o2 != off:
                        h.check(s, z3.BoolVal(same(v, cells0.get(o2, (0, None))[1])), 'the rest of the object is unchanged')
            for fn in addrefs:
                for s in h.run(fn, p, st=begin('add')):
                    h.check(s, z3.BoolVal(s.ghost['steps'] == 1), 'AddRef takes exactly one atomic step')
                    h.check(s, z3.BoolVal(not events(s, 'die')), 'AddRef destroys nothing')
                    frame(s)
            for fn in releases:
                for s in h.run(fn, p, st=begin('sub')):
                    h.check(s, z3.BoolVal(s.ghost['steps'] == 1), 'Release takes exactly one atomic step')
                    died = len(events(s, 'die'))
                    zero = s.ghost.get('new', BV(1, n * 8)) == x0
                    h.check(s, z3.BoolVal(died == 1) == zero, 'exactly the Release that takes the count to zero destroys the object')
                    h.check(s, z3.BoolVal(died <= 1), 'destroyed once')
                    if died:
                        h.check(s, z3.BoolVal(not live_objects(s)), 'its storage is released')
                    if reports and not died and isinstance(s.ret, z3.ExprRef):
                        h.check(s, B(s.ret), 'Release reports that the object still exists')
                    elif reports and isinstance(s.ret, z3.ExprRef):
                        h.check(s, Not(s.ret), 'Release reports that the object is gone')


counted('rc', ['rc_addref'], ['rc_release'], 'rc_delete', True)
counted('vrc', ['vrc_addref', 'vrc_iaddref'], ['vrc_release', 'vrc_irelease'], 'vrc_delete', False)
counted('fwd', ['fwd_addref'], ['fwd_release'], 'fwd_delete', False)


# ---------------------------------------------------------------- the atomic reference cell
class Cell:
    """ghost: cell (its object), locked (are we holding it), own[x] (references to x that are ours),
    given[x] (the caller keeps x alive)."""

    def isword(self, st, p):
        return st.ghost.get('cell') == p.obj and p.obj is not None

    def choices(self, st):
        out = []
        for n in (None, 'A', 'B'):
            for tag in (0, 1):
                o = st.ghost['obj'].get(n)
                out.append((n, tag, Ptr(o, BV(tag)) if o else Ptr(None, BV(tag))))
        return out

    def interfere(self, ex, st, p):
        """other threads' steps: while we do not hold the lock the word may be anything they may leave there"""
        if not self.isword(st, p) or st.ghost['locked'] or not st.ghost['shared']:
            return [st]
        outs = []
        for n, tag, v in self.choices(st):
            s = st.copy()
            s.put(Ptr(p.obj, BV(0)), 8, v, st.ghost['word'])
            outs.append(s)
        return outs

    def load(self, ex, st, ins, p):
        outs = []
        for s in self.interfere(ex, st, p):
            v = ex.load(s, p, ins.ty)
            if not s.dead:
                ex.setr(s, ins, v)
                self.forget(ex, s, ins, p)
                outs.append(s)
        return outs

    def forget(self, ex, st, ins, p):
        """what the word is now is unknown until we look again"""
        if self.isword(st, p) and st.ghost['shared'] and not st.ghost['locked']:
            st.put(Ptr(p.obj, BV(0)), 8, UNDEF, st.ghost['word'])

    def rmw(self, ex, st, ins, p, op, x):
        return self.interfere(ex, st, p)

    def name(self, st, v):
        for n, o in st.ghost['obj'].items():
            if o == v.obj:
                return n
        return None

    def write(self, ex, st, p, old, new):
        """guarantee: every write is either taking the lock or giving it back"""
        if not self.isword(st, p) or not st.ghost['shared']:
            return
        if isinstance(old, z3.ExprRef):
            old = ex.inttoptr(st, old)
        if isinstance(new, z3.ExprRef):
            new = ex.inttoptr(st, new)
        tag = simp(new.off) if new.obj is None else norm(new.off)
        if not isval(tag):
            # a value made up from something other than what the cell holds: right only if its tag and object are provably so
            w = 0 if st.ghost['locked'] else 1
            if not ex.must(st, (tag & 7) == w):
                ex.oblige(st, (tag & 7) == w, 'guarantee', 'the tag of what is put into the cell')
                return
            raise Unsupported('cell value with unknown tag %s' % tag)
        tag = tag.as_long()
        if not st.ghost['locked']:
            ok = old is not None and tag == 1 and norm(old.off).eq(BV(0)) and old.obj == new.obj
            ex.oblige(st, z3.BoolVal(ok), 'guarantee', 'an unlocked cell is only changed by locking it with its value kept')
            if st.dead:
                return
            st.setg('locked', True)
            st.setg('acquired', st.ghost['acquired'] + 1)
            n = self.name(st, new)
            st.ghost['old'] = n
            if n:
                st.setg(('own', n), st.ghost[('own', n)] + 1)
            # what the cell held when locked is alive because of the cell's own reference
        else:
            ex.oblige(st, z3.BoolVal(tag == 0), 'guarantee', 'a locked cell is only changed by unlocking it')
            if st.dead:
                return
            st.setg('locked', False)
            n = self.name(st, new)
            st.ghost['stored'] = n
            if n:
                ex.oblige(st, z3.BoolVal(st.ghost[('own', n)] >= 1), 'references', 'the reference left in the cell is really there')
                if st.dead:
                    return
                st.setg(('own', n), st.ghost[('own', n)] - 1)

    def store(self, ex, st, ins, p, x):
        if self.isword(st, p):
            if not st.ghost['locked'] and st.ghost['shared']:
                ex.oblige(st, FALSE, 'guarantee', 'the cell is not overwritten while others may use it')
                st.dead = True
                return
            self.write(ex, st, p, None, x)

    def done(self, ex, st, ins, p, old, new):
        self.write(ex, st, p, old, new)

    # AddRef / Release of the counted class
    def count(self, ex, st, p, what):
        if p.obj is None or p.null is not False:
            ex.oblige(st, FALSE if p.obj is None else Not(p.null), 'null', '%s is not called through null' % what)
            if p.obj is None:
                st.dead = True
            if st.dead:
                return None
        n = self.name(st, p)
        ex.oblige(st, z3.BoolVal(n is not None and norm(p.off).eq(BV(0))), 'pointer', '%s is called on an untagged object' % what)
        return None if st.dead else n


cell = Cell()
COPTS = {'atomic_load': cell.load, 'atomic_rmw': cell.rmw, 'atomic_store': cell.store, 'atomic_done': cell.done, 'atomic_fail': cell.forget, 'tagged_pointers': True, 'split_null': True, 'max_paths': 30000}


@C.on(rx(r'^Obj::AddRef\(\)$'), 'AddRef: on an object kept alive by a reference of ours, by the locked cell or by the caller, adds one')
def addref(ex, st, ins, av):
    n = cell.count(ex, st, av[0], 'AddRef')
    if n is None:
        return 'dead'
    ex.oblige(st, z3.BoolVal(st.ghost[('own', n)] >= 1 or n in st.ghost['given']), 'lifetime', 'AddRef only on an object something keeps alive')
    if st.dead:
        return 'dead'
    st.setg(('own', n), st.ghost[('own', n)] + 1)


@C.on(rx(r'^Obj::Release\(\)$'), 'Release: gives up one reference of ours')
def release(ex, st, ins, av):
    n = cell.count(ex, st, av[0], 'Release')
    if n is None:
        return 'dead'
    ex.oblige(st, z3.BoolVal(st.ghost[('own', n)] >= 1), 'references', 'Release gives up a reference that is ours')
    if st.dead:
        return 'dead'
    st.setg(('own', n), st.ghost[('own', n)] - 1)


def world(h):
    st = h.st.copy()
    objs = {}
    for n in 'AB':
        p = st.new_cells(n, 16, 'param', 16)
        objs[n] = p
        h.ex.base(st, p.obj)
        st.ghost[('own', n)] = 0
    st.ghost.update({'obj': {n: p.obj for n, p in objs.items()}, 'cell': None, 'locked': False, 'shared': False,
                     'given': (), 'acquired': 0, 'word': 0, 'old': None, 'stored': None})
    h.ex.no_term = True
    return st, objs


def word_of(h, st, objs, p):
    """where in the cell object the shared word is"""
    ks = [k for k, (n, v) in st.mem[p.obj].cells.items() if isinstance(v, Ptr) and v.obj == objs['A'].obj]
    if len(ks) != 1:
        raise Unsupported('cell layout')
    return ks[0]


def cell_with(h, st, objs, n):
    p = h.raw('cell', h.const('c19_csize'), st=st)
    st.ghost['given'] = ('A', 'B')
    out = []
    # the layout is what the constructor shows
    w = [word_of(h, s, objs, p) for s in h.run('c_ctor', p, objs['A'], st=st)][0]
    for s in h.run('c_ctor', p, objs[n] if n else NULL, st=st):
        s.ghost.update({'cell': p.obj, 'word': w, 'given': ()})
        out.append(s)
    return out, p, w


def expect(h, s, owns, what):
    for n in 'AB':
        h.check(s, z3.BoolVal(s.ghost[('own', n)] == owns.get(n, 0)), '%s: references to every object balance' % what)
    h.check(s, z3.BoolVal(not s.ghost['locked']), '%s: the cell is left unlocked' % what)


@T.add('AtomicRef construct and destroy', 'holds one reference from construction to destruction', opts=COPTS)
def cons(h):
    st, objs = world(h)
    p = h.raw('cell', h.const('c19_csize'), st=st)
    for s in h.run('c_null', p, st=st):
        expect(h, s, {}, 'AtomicRef()')
        for s2 in h.run('c_dtor', p, st=s):
            expect(h, s2, {}, '~AtomicRef')
    for n in (None, 'A'):
        states, p, w = cell_with(h, st, objs, n)
        for s in states:
            expect(h, s, {n: 1} if n else {}, 'AtomicRef(T*)')
            v = s.get(p, 8, w)
            h.check(s, h.ex.ptr_eq(s, v, objs[n] if n else NULL), 'the cell holds the object')
            for s2 in h.run('c_dtor', p, st=s):
                expect(h, s2, {}, '~AtomicRef')


@T.add('AtomicRef::get', 'hands out one added reference of what the locked cell held', opts=COPTS)
def get(h):
    st, objs = world(h)
    states, p, w = cell_with(h, st, objs, 'A')
    for s in states:
        s.ghost[('own', 'A')] = 0        # the cell's own reference belongs to the cell
        s.ghost['shared'] = True
        s.put(p, 8, UNDEF, w)
        r = h.raw('r', h.const('c19_rsize'), st=s)
        for s2 in h.run('c_get', p, r, st=s):
            n = s2.ghost['old']
            h.check(s2, z3.BoolVal(s2.ghost['acquired'] == 1), 'get locks the cell once')
            h.check(s2, z3.BoolVal(s2.ghost['stored'] == n), 'get leaves the cell as it was')
            expect(h, s2, {n: 1} if n else {}, 'get')
            for s3 in h.run('r_arrow', r, st=s2):
                h.check(s3, h.ex.ptr_eq(s3, s3.ret, objs[n] if n else NULL), 'get hands out what the cell held')


for _m in (None, 'A', 'B'):
    def mk(m):
        @T.add('AtomicRef::operator= %s' % (m or 'null'), 'adds a reference to the new object, drops the old one', opts=COPTS)
        def assign(h):
            st, objs = world(h)
            states, p, w = cell_with(h, st, objs, 'A')
            for s in states:
                s.ghost[('own', 'A')] = 0
                s.ghost['shared'] = True
                s.put(p, 8, UNDEF, w)
                s.ghost['given'] = (m,) if m else ()
                for s2 in h.run('c_set', p, objs[m] if m else NULL, st=s):
                    h.check(s2, z3.BoolVal(s2.ghost['acquired'] == 1), 'assignment locks the cell once')
                    h.check(s2, z3.BoolVal(s2.ghost['stored'] == m), 'the cell holds the new object')
                    expect(h, s2, {}, 'assignment')
    mk(_m)
