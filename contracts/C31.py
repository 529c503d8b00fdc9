"""C31: the atomic reference cell is linearizable under real concurrency.

Rely/guarantee.  Rely: while a thread does not hold the lock, each of its looks at the shared word may find any value another
thread may ever have left there, locked or not (this covers stale values, too).  Guarantee, checked at every step of every
operation: an unlocked word is only changed by locking it with its value kept, a locked word only by its holder, once, by
unlocking it.  So between a lock and the unlock that follows nobody else changes the word, and the operation takes effect as a
whole there: get hands out the value locked and stores it back, assignment stores the new value.  What happens inside is handed
from holder to holder: the step that locks acquires and the step that unlocks releases, as a weak memory model needs for the
one to happen before the other.  A reference held by the cell belongs to whoever has locked it, so an object is only used while
one of its references is held; and every step that gives a reference up releases, the one that destroys acquires.
Progress: nothing between lock and unlock waits, and an operation ends once others leave the word unlocked and alone."""
from kv.lib import *
from kv.harness import Targets
import contracts.C19 as c19
T = Targets()
C = Contracts()
CONTRACTS = [C, c19.C]
ASSUMPTIONS = ['other threads act only through the same operations and only on references they hold',
               'the cell is constructed before and destroyed after it is shared',
               'an acquiring step that reads what a releasing step wrote orders what came before the one before what comes after the other (C++ memory model)',
               'a compare-and-swap does not fail spuriously for ever',
               'progress: found for every word the operation starts from, every local state a failed attempt can leave (up to two attempts '
               'failing for any reason), and a word then left alone']
ACQ, REL = {'acquire', 'acq_rel', 'seq_cst'}, {'release', 'acq_rel', 'seq_cst'}


def order(ins):
    o = ins.attrs.get('ord') or ['seq_cst']
    return o[0]


class Cell(c19.Cell):
    def write(self, ex, st, p, old, new):
        was = st.ghost['locked']
        super().write(ex, st, p, old, new)
        if st.dead or not self.isword(st, p) or not st.ghost['shared']:
            return
        o = order(self.ins)
        if not was:
            st.ghost['synced'] = o in ACQ
            # anything else this thread does now is inside
        else:
            self.synced(ex, st)
            ex.oblige(st, z3.BoolVal(o in REL or st.ghost.get('fenced', False)), 'order', 'unlocking releases what was done while locked')

    def synced(self, ex, st):
        ex.oblige(st, z3.BoolVal(st.ghost.get('synced', False)), 'order', 'locking acquires what the previous holder did')

    def store(self, ex, st, ins, p, x):
        self.ins = ins
        super().store(ex, st, ins, p, x)

    def done(self, ex, st, ins, p, old, new):
        self.ins = ins
        super().done(ex, st, ins, p, old, new)

    def fence(self, ex, st, ins):
        if order(ins) in ACQ and st.ghost.get('locked'):
            st.ghost['synced'] = True
        if order(ins) in REL:
            st.ghost['fenced'] = True

    # progress: others change the word a limited number of times, then leave it unlocked and alone
    def interfere(self, ex, st, p):
        k = st.ghost.get('quiet')
        if k is None:
            return super().interfere(ex, st, p)
        if not self.isword(st, p) or st.ghost['locked'] or not st.ghost['shared']:
            return [st]
        outs = []
        for n, tag, v in self.choices(st):
            if k == 0 and (tag or st.ghost.get('left', n) != n):
                continue
            s = st.copy()
            if k:
                s.ghost['quiet'] = k - 1
            else:
                s.ghost['left'] = n
            s.put(Ptr(p.obj, BV(0)), 8, v, st.ghost['word'])
            outs.append(s)
        return outs

    def count(self, ex, st, p, what):
        n = super().count(ex, st, p, what)
        if n is not None:
            st.ghost['fenced'] = False
            if st.ghost['locked'] and n not in st.ghost['given']:
                self.synced(ex, st)
            if what == 'Release' and st.ghost['shared']:
                ex.oblige(st, z3.BoolVal(not st.ghost['locked']), 'progress', 'no code of the objects (a destructor) runs while the cell is locked')
            if st.dead:
                return None
        return n


cell = Cell()
# the counted class' contracts of C19 go through this cell
c19.cell.count = cell.count
OPTS = dict(c19.COPTS, atomic_load=cell.load, atomic_rmw=cell.rmw, atomic_store=cell.store, atomic_done=cell.done, atomic_fail=cell.forget, atomic_fence=cell.fence)
POPTS = dict(OPTS, ends_within=8, no_spurious=True)


@C.on(exact('sched_yield'), 'yielding the processor changes nothing')
def sched(ex, st, ins, av):
    ex.oblige(st, z3.BoolVal(not st.ghost.get('locked')), 'progress', 'nothing waits while the cell is locked')
    ex.setr(st, ins, BV(0, 32))
    return 'dead' if st.dead else None


def setup(h, n):
    st, objs = c19.world(h)
    h.ex.opts['atomic_load']
    p = h.raw('cell', h.const('c31_csize'), st=st)
    st.ghost['given'] = ('A', 'B')
    w = [c19.word_of(h, s, objs, p) for s in h.run('c_ctor', p, objs['A'], st=st)][0]
    for s in h.run('c_ctor', p, objs[n] if n else NULL, st=st):
        s.ghost.update({'cell': p.obj, 'word': w, 'given': (), 'shared': True})
        if n:
            s.ghost[('own', n)] = 0          # the cell's own reference belongs to the cell
        s.put(p, 8, UNDEF, w)
        yield s, p, objs


def atomic(h, s, what, left):
    h.check(s, z3.BoolVal(s.ghost['acquired'] == 1 and not s.ghost['locked']), '%s: one locked section, closed again' % what)
    h.check(s, z3.BoolVal(s.ghost['stored'] == left), '%s: the value left in the cell' % what)


@T.add('AtomicRef::get is one step', 'hands out, with a reference, the value at the moment it locks; changes nothing', opts=OPTS)
def get(h):
    for s, p, objs in setup(h, 'A'):
        r = h.raw('r', h.const('c31_rsize'), st=s)
        for s2 in h.run('c_get', p, r, st=s):
            n = s2.ghost['old']
            atomic(h, s2, 'get', n)
            c19.expect(h, s2, {n: 1} if n else {}, 'get')
            for s3 in h.run('r_arrow', r, st=s2):
                h.check(s3, h.ex.ptr_eq(s3, s3.ret, objs[n] if n else NULL), 'get hands out what the cell held')


for _m in (None, 'A', 'B'):
    @T.add('AtomicRef::operator= %s is one step' % (_m or 'null'), 'replaces the value, whatever it was', opts=OPTS)
    def assign(h, m=_m):
        for s, p, objs in setup(h, 'A'):
            s.ghost['given'] = (m,) if m else ()
            for s2 in h.run('c_set', p, objs[m] if m else NULL, st=s):
                atomic(h, s2, 'assignment', m)
                c19.expect(h, s2, {}, 'assignment')


for _op in ('get', None, 'B'):
    @T.add('progress of %s' % (_op if _op == 'get' else 'operator= %s' % (_op or 'null')), 'ends once the word is left unlocked and alone', opts=POPTS)
    def progress(h, op=_op):
        for k in range(3):
            for s, p, objs in setup(h, 'A'):
                h.ex.no_term = False
                s.ghost['quiet'] = k
                n = 0
                if op == 'get':
                    r = h.raw('r', h.const('c31_rsize'), st=s)
                    fin = h.run('c_get', p, r, st=s)
                else:
                    s.ghost['given'] = (op,) if op else ()
                    fin = h.run('c_set', p, objs[op] if op else NULL, st=s)
                for s2 in fin:
                    n += 1
                h.check(s, z3.BoolVal(n > 0), 'the operation ends')


class Rely(c19.Rely):
    def done(self, ex, st, ins, p, old, new):
        super().done(ex, st, ins, p, old, new)
        g = st.ghost.get('rc')
        if st.dead or not g or p.obj != g[0] or st.ghost['op'] != 'sub':
            return
        ex.oblige(st, z3.BoolVal(order(ins) in REL or st.ghost.get('fenced', False)), 'order', 'giving up a reference releases what was done with it')
        st.ghost['synced'] = order(ins) in ACQ

    def load(self, ex, st, ins, p):
        super().load(ex, st, ins, p)
        g = st.ghost.get('rc')
        if g and p.obj == g[0] and order(ins) in ACQ and st.ghost.get('phase') == 'released':
            st.ghost['synced'] = True

    def fence(self, ex, st, ins):
        if order(ins) in ACQ and st.ghost.get('phase') == 'released':
            st.ghost['synced'] = True
        if order(ins) in REL:
            st.ghost['fenced'] = True


rely = Rely()
ROPTS = {'atomic_load': rely.load, 'atomic_rmw': rely.rmw, 'atomic_store': rely.store, 'atomic_done': rely.done, 'atomic_fence': rely.fence}


@C.on(exact('dying'), 'destructor of a class derived from a counted base')
def dying(ex, st, ins, av):
    ex.oblige(st, z3.BoolVal(av[0].obj is not None and st.mem[av[0].obj].live), 'lifetime', 'only a live object is destroyed')
    if not st.dead and st.ghost.get('phase') == 'released':
        ex.oblige(st, z3.BoolVal(st.ghost.get('synced', False)), 'order', 'the last Release acquires what the others did before it destroys')
    st.event('die', av[0].obj)
    return 'dead' if st.dead else None


for _pre, _rel in (('rc', ['rc_release']), ('vrc', ['vrc_release', 'vrc_irelease']), ('fwd', ['fwd_release'])):
    @T.add('%s base: order of the last steps' % _pre, 'uses of an object come before its destruction', opts=ROPTS)
    def base(h, pre=_pre, rel=_rel):
        h.ex.no_term = True
        for s0 in h.run(pre + '_new'):
            p = s0.ret
            cells0 = dict(s0.mem[p.obj].cells)
            offs = set()
            for s in h.run(pre + '_addref', p, st=s0):
                offs.update(k for k, (n, v) in s.mem[p.obj].cells.items() if not c19.same(v, cells0.get(k, (0, None))[1]))
            h.check(s0, z3.BoolVal(len(offs) == 1), 'AddRef changes exactly the count')
            off = min(offs)
            n, x0 = cells0[off]
            for fn in rel:
                s1 = s0.copy()
                s1.log = ()
                s1.ghost.update({'rc': (p.obj, off, n, x0), 'phase': 'held', 'op': 'sub', 'steps': 0})
                for s in h.run(fn, p, st=s1):
                    h.check(s, z3.BoolVal(s.ghost['steps'] == 1), 'Release takes exactly one atomic step')
                    h.check(s, z3.BoolVal(len(events(s, 'die')) == 1) == (s.ghost['new'] == x0), 'exactly the Release that takes the count to zero destroys the object')
