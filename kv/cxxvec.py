"""Contracts of std::vector<E> and std::deque<E> for an element class known by its TokSpec (dependency contracts).

A vector is laid out as libstdc++ lays it out (begin, end, end of storage), its storage is one sequence whose first `size`
slots hold live elements; accessors and iterators run as compiled, operations that add, remove or reallocate are specified here.
Growing beyond the storage releases it, so references into it die, exactly when there is no room left."""
import re
from .lib import *

MAXLEN = BV(1 << 40)


def norm_names(d, e):
    d = d.replace('> >', '>>').replace('> >', '>>')
    d = d.replace('std::vector<%s, std::allocator<%s>>' % (e, e), 'vec').replace('std::deque<%s, std::allocator<%s>>' % (e, e), 'deq')
    d = d.replace('__gnu_cxx::__normal_iterator<%s const*, vec>' % e, 'iter').replace('__gnu_cxx::__normal_iterator<%s*, vec>' % e, 'iter')
    return d.replace('std::allocator<%s>' % e, 'A')


class VecSpec:
    def __init__(self, elem):
        self.e = elem
        self.size = elem.size
        self.ct = Contracts()
        self.define()

    # -- the words of a vector
    def words(self, ex, st, v, what='vector'):
        ps = [ex.load(st, Ptr(v.obj, norm(v.off + 8 * k)), ir.PTR) for k in range(3)]
        if st.dead:
            return None
        return ps

    def at(self, ex, st, v):
        """(storage or None, size, capacity)"""
        ps = self.words(ex, st, v)
        if ps is None:
            return None
        b, f, c = ps
        if not all(isinstance(x, Ptr) for x in ps):
            raise Unsupported('vector words')
        if b.isnull_const:
            ex.oblige(st, z3.BoolVal(f.isnull_const and c.isnull_const), 'pre', 'a vector without storage is empty')
            return None if st.dead else (None, BV(0), BV(0))
        if b.obj is None or b.obj != f.obj or b.obj != c.obj or not st.mem[b.obj].live:
            ex.oblige(st, FALSE, 'lifetime', 'the vector is alive')
            return None
        out = []
        for p in (f, c):
            r = split_index(norm(p.off), self.size)
            if not r or r[1] != 0:
                raise Unsupported('vector words')
            out.append(r[0])
        ex.oblige(st, norm(b.off) == 0, 'pre', 'the vector starts at its storage')
        return None if st.dead else (b.obj, out[0], out[1])

    def set_size(self, ex, st, v, oid, n):
        ex.store(st, Ptr(v.obj, norm(v.off + 8)), ir.PTR, Ptr(oid, norm(BV(self.size) * n)))

    def new_storage(self, st, cap, data, n):
        p = st.new_seq('storage', cap, self.size, {0: ('bv', self.size)}, kind='heap-vec')
        o = st.w(p.obj)
        o.data[0] = data
        o.shadow['live@0'] = Fn(lambda i: ULT(i, n))
        o.user['vec'] = True
        return p.obj

    def install(self, ex, st, v, oid, n, cap):
        for k, off in enumerate((BV(0), BV(self.size) * n, BV(self.size) * cap)):
            ex.store(st, Ptr(v.obj, norm(v.off + 8 * k)), ir.PTR, Ptr(oid, norm(off)))

    def release(self, ex, st, oid):
        if oid is None:
            return
        o = st.w(oid)
        o.shadow['live@0'] = const_fn(FALSE)
        o.live = False
        st.wr.add(('free', oid))

    def given(self, h, st, name, null=False, n=None, in_place=False):
        """an arbitrary vector at a fresh place; in_place: for code that lets it grow in a loop - the storage object stays, growing
        only changes the capacity (that references into it die is then not checked)"""
        p = st.new_cells(name, 24)
        if null:
            for k in range(3):
                st.put(p, 8, NULL, 8 * k)
            return p, None, BV(0), None
        n = h.bv(name + '.size') if n is None else n
        cap = h.bv(name + '.capacity')
        st.assume(ULE(n, cap), ULE(cap, MAXLEN), UGE(cap, 1))
        data = fresh_fn(name, 8 * self.size, 'i')
        oid = self.new_storage(st, BV(1 << 42) if in_place else cap, data, n)
        if in_place:
            st.w(oid).user['in place'] = True
        self.install(h.ex, st, p, oid, n, cap)
        h.ex.vocab += [n]
        return p, oid, n, data

    def value(self, st, oid):
        return st.mem[oid].data[0]

    # -- operations
    def opened(self, ex, st, v, at, val):
        """states in which slot `at` holds val and what was there and behind has moved up by one"""
        r = self.at(ex, st, v)
        if r is None:
            return []
        oid, n, cap = r
        if oid is None:
            ex.oblige(st, at == 0, 'pre', 'the position is inside the vector')
        else:
            ex.oblige(st, ULE(at, n), 'pre', 'the position is inside the vector')
        if st.dead:
            return []
        st.assume(ULT(n, MAXLEN))
        f = self.value(st, oid) if oid is not None else const_fn(val)
        one = lambda i: If(i == at, val, If(ULT(i, at), f(i), f(norm(i - 1))))
        data = f.store(n, val) if at is n else Fn(one)
        if oid is None:
            f2 = const_fn(val)
            data = f2
        out = []
        grow, room = st, None
        if oid is not None:
            room = st.copy()
            room.assume(ULT(n, cap))
            grow.assume(n == cap)
            if ex.feasible(room):
                o = room.w(oid)
                self.slots_written(room, o, data, norm(n + 1))
                self.set_size(ex, room, v, oid, norm(n + 1))
                out.append((room, oid))
        if ex.feasible(grow):
            cap2 = fresh_bv('capacity')
            grow.assume(UGT(cap2, n), ULE(cap2, MAXLEN))
            if oid is not None and st.mem[oid].user.get('in place'):
                self.slots_written(grow, grow.w(oid), data, norm(n + 1))
                self.install(ex, grow, v, oid, norm(n + 1), cap2)
                out.append((grow, oid))
                return self.hooked(ex, out, val, at)
            new = self.new_storage(grow, cap2, data, norm(n + 1))
            self.release(ex, grow, oid)
            self.install(ex, grow, v, new, norm(n + 1), cap2)
            out.append((grow, new))
        return self.hooked(ex, out, val, at)

    def hooked(self, ex, out, val, at):
        hook = ex.opts.get('on_vec')
        if hook:
            for s, o in out:
                hook(ex, s, 'in', o, val)
        return [(s, o, Ptr(o, norm(BV(self.size) * at))) for s, o in out if not s.dead]

    def slots_written(self, st, o, data, n):
        o.data[0] = data
        st.wr.add(('f', o.id, 0))
        o.shadow['live@0'] = Fn(lambda i: ULT(i, n))
        st.wr.add(('sf', o.id, 'live@0'))

    def closed(self, ex, st, v, lo, hi):
        """elements [lo, hi) are destroyed and those behind move down"""
        r = self.at(ex, st, v)
        if r is None:
            return False
        oid, n, cap = r
        ex.oblige(st, And(ULE(lo, hi), ULE(hi, n)), 'pre', 'the elements removed are elements of the vector')
        if st.dead:
            return False
        if oid is None:
            return True
        f = self.value(st, oid)
        d = norm(hi - lo)
        o = st.w(oid)
        n2 = norm(n - d)
        hook = ex.opts.get('on_vec')
        if hook:
            hook(ex, st, 'out', oid, (lo, hi))
        self.slots_written(st, o, Fn(lambda i: If(ULT(i, lo), f(i), f(norm(i + d)))), n2)
        self.set_size(ex, st, v, oid, n2)
        return not st.dead

    def index(self, ex, st, v, p):
        """the position an iterator is at"""
        r = self.at(ex, st, v)
        if r is None:
            return None
        oid, n, cap = r
        if oid is None:
            ex.oblige(st, norm(p.off) == 0 if isinstance(p, Ptr) and p.obj is None else FALSE, 'pre', 'the iterator belongs to the vector')
            return None if st.dead else BV(0)
        ok = isinstance(p, Ptr) and p.obj == oid
        ex.oblige(st, z3.BoolVal(ok), 'pre', 'the iterator belongs to the vector')
        if st.dead:
            return None
        x = split_index(norm(p.off), self.size)
        if not x or x[1] != 0:
            raise Unsupported('iterator')
        return x[0]

    def source(self, ex, st, kind, p):
        """value of a constructor argument of type kind"""
        e = self.e
        c = e.cls
        if kind in ('%s const&' % c, '%s&' % c):
            return e.read(ex, st, p, 'copy source')
        if kind in ('%s&&' % c, c):
            v = e.read(ex, st, p, 'move source')
            if st.dead:
                return None
            e.moved(ex, st, p)
            return None if st.dead else v
        if re.match(r'(unsigned )?long( const)?&{1,2}$|unsigned long', kind):
            v = ex.load(st, p, ir.I64)
            return None if st.dead else v
        raise Unsupported('element made from %s' % kind)

    def define(self):
        P = self.ct
        e = self.e.cls

        def V(pat):
            c = re.compile('^(?:%s)$' % pat)
            return lambda d, m: c.search(norm_names(d, e)) is not None

        def args(ex, ins):
            d = norm_names(ex.dem[ins.args[0][1]], e)
            return d[d.rindex('(') + 1:d.rindex(')')].split(', ')

        @P.on(V(r'(%s& )?vec::(push_back|emplace_back)(<.*>)?\(.*\)' % re.escape(e)), 'std::vector::push_back / emplace_back: one more element behind the others')
        def push(ex, st, ins, av):
            a = args(ex, ins)
            if len(a) > 1:
                raise Unsupported('element made from %s' % a)
            val = self.source(ex, st, a[0], av[1]) if a[0] else BV(self.e.default)
            if st.dead:
                return 'dead'
            r = self.at(ex, st, av[0])
            if r is None:
                return 'dead'
            out = []
            for s, oid, p in self.opened(ex, st, av[0], r[1], val):
                if ins.res is not None:
                    ex.setr(s, ins, p)
                out.append(s)
            return out

        @P.on(V(r'(iter )?vec::(insert|emplace)(<.*>)?\(iter, [^,]*\)'), 'std::vector::insert / emplace: the new element at the position, those behind moved up')
        def insert(ex, st, ins, av):
            a = args(ex, ins)
            at = self.index(ex, st, av[0], av[1])
            if at is None or st.dead:
                return 'dead'
            val = self.source(ex, st, a[1], av[2])
            if st.dead:
                return 'dead'
            out = []
            for s, oid, p in self.opened(ex, st, av[0], at, val):
                if ins.res is not None:
                    ex.setr(s, ins, p)
                out.append(s)
            return out

        @P.on(V(r'vec::erase\(iter\)'), 'std::vector::erase: the element is destroyed, those behind move down')
        def erase1(ex, st, ins, av):
            at = self.index(ex, st, av[0], av[1])
            if at is None or st.dead or not self.closed(ex, st, av[0], at, norm(at + 1)):
                return 'dead'
            ex.setr(st, ins, av[1])

        @P.on(V(r'vec::erase\(iter, iter\)'), 'std::vector::erase: the elements are destroyed, those behind move down')
        def erase2(ex, st, ins, av):
            lo = self.index(ex, st, av[0], av[1])
            hi = None if st.dead else self.index(ex, st, av[0], av[2])
            if lo is None or hi is None or st.dead or not self.closed(ex, st, av[0], lo, hi):
                return 'dead'
            ex.setr(st, ins, av[1])

        @P.on(V(r'vec::pop_back\(\)'), 'std::vector::pop_back: destroys the last element')
        def pop(ex, st, ins, av):
            r = self.at(ex, st, av[0])
            if r is None:
                return 'dead'
            ex.oblige(st, r[1] != 0, 'pre', 'pop_back: the vector is not empty')
            if st.dead or not self.closed(ex, st, av[0], norm(r[1] - 1), r[1]):
                return 'dead'

        @P.on(V(r'vec::clear\(\)'), 'std::vector::clear: destroys every element')
        def clear(ex, st, ins, av):
            r = self.at(ex, st, av[0])
            if r is None or not self.closed(ex, st, av[0], BV(0), r[1]):
                return 'dead'

        @P.on(V(r'vec::reserve\(unsigned long\)'), 'std::vector::reserve: room for that many elements')
        def reserve(ex, st, ins, av):
            r = self.at(ex, st, av[0])
            if r is None:
                return 'dead'
            oid, n, cap = r
            st.assume(ULE(av[1], MAXLEN))
            enough = st.copy()
            enough.assume(ULE(av[1], cap))
            st.assume(UGT(av[1], cap))
            out = [enough] if ex.feasible(enough) else []
            if ex.feasible(st):
                cap2 = fresh_bv('capacity')
                st.assume(UGE(cap2, av[1]), ULE(cap2, MAXLEN))
                if oid is not None and st.mem[oid].user.get('in place'):
                    self.install(ex, st, av[0], oid, n, cap2)
                    return out + [st]
                new = self.new_storage(st, cap2, self.value(st, oid) if oid is not None else fresh_fn('storage', 8 * self.size, 'i'), n)
                self.release(ex, st, oid)
                self.install(ex, st, av[0], new, n, cap2)
                out.append(st)
            return out

        @P.on(V(r'vec::~vector\(\)'), '~std::vector: destroys every element once and releases the storage once')
        def end(ex, st, ins, av):
            r = self.at(ex, st, av[0])
            if r is None:
                return 'dead'
            st.event('~vector', av[0].obj, r[0])
            self.release(ex, st, r[0])

        @P.on(V(r'vec::operator=\(vec&&\)'), 'std::vector = vector&&: destroys what it had, takes the elements, leaves the source empty')
        def massign(ex, st, ins, av):
            r, q = self.at(ex, st, av[0]), self.at(ex, st, av[1])
            if r is None or q is None:
                return 'dead'
            if av[0].obj == av[1].obj:
                raise Unsupported('self move assignment')
            self.release(ex, st, r[0])
            for k in range(3):
                ex.store(st, Ptr(av[0].obj, norm(av[0].off + 8 * k)), ir.PTR, ex.load(st, Ptr(av[1].obj, norm(av[1].off + 8 * k)), ir.PTR))
                ex.store(st, Ptr(av[1].obj, norm(av[1].off + 8 * k)), ir.PTR, NULL)
            ex.setr(st, ins, av[0])
            return 'dead' if st.dead else None

        @P.on(V(r'vec::swap\(vec&\)'), 'std::vector::swap')
        def swap(ex, st, ins, av):
            for k in range(3):
                a, b = (Ptr(x.obj, norm(x.off + 8 * k)) for x in av[:2])
                x, y = ex.load(st, a, ir.PTR), ex.load(st, b, ir.PTR)
                if st.dead:
                    return 'dead'
                ex.store(st, a, ir.PTR, y)
                ex.store(st, b, ir.PTR, x)

        @P.on(lambda d, m: d.startswith('std::__throw_'), 'exceptions of the library are not raised')
        def throw(ex, st, ins, av):
            ex.oblige(st, FALSE, 'pre', 'no exception is raised')
            return 'dead'
        self.deque(P, V)

    # -- std::deque: a window of an unbounded sequence, its words are not looked at
    def given_deque(self, h, st, name):
        p = h.raw(name, h.const('d_size'), st=st)
        lo, n = h.bv(name + '.first'), h.bv(name + '.size')
        st.assume(ULE(lo, MAXLEN), ULE(n, MAXLEN), UGE(lo, 1))
        data = fresh_fn(name, 8 * self.size, 'i')
        q = st.new_seq(name + '.elements', BV(1 << 42), self.size, {0: ('bv', self.size)}, kind='heap-vec')
        o = st.w(q.obj)
        o.data[0] = data
        o.shadow['live@0'] = Fn(lambda i: And(UGE(i, lo), ULT(i, norm(lo + n))))
        st.ghost['deque'] = {'p': p.obj, 'oid': q.obj, 'lo': lo, 'n': n}
        return p, q.obj, lo, n, data

    def deque(self, P, V):
        def dq(ex, st, p, nonempty=None):
            g = st.ghost.get('deque')
            if not g or g['p'] != p.obj:
                raise Unsupported('deque')
            if nonempty:
                ex.oblige(st, g['n'] != 0, 'pre', '%s: the deque is not empty' % nonempty)
            return None if st.dead else g

        def shrink(ex, st, g, at, lo, n):
            o = st.w(g['oid'])
            self.e.end(ex, st, Ptr(g['oid'], norm(BV(self.size) * at)))
            st.ghost['deque'] = dict(g, lo=lo, n=n)
            return 'dead' if st.dead else None

        for name, last in (('back', True), ('front', False)):
            @P.on(V(r'deq::%s\(\)( const)?' % name), 'std::deque::%s: the %s element' % (name, 'last' if last else 'first'))
            def get(ex, st, ins, av, last=last, name=name):
                g = dq(ex, st, av[0], name)
                if g is None:
                    return 'dead'
                ex.setr(st, ins, Ptr(g['oid'], norm(BV(self.size) * norm(g['lo'] + g['n'] - 1 if last else g['lo']))))

            @P.on(V(r'deq::pop_%s\(\)' % name), 'std::deque::pop_%s: destroys the %s element' % (name, 'last' if last else 'first'))
            def pop(ex, st, ins, av, last=last, name=name):
                g = dq(ex, st, av[0], 'pop_' + name)
                if g is None:
                    return 'dead'
                at = norm(g['lo'] + g['n'] - 1) if last else g['lo']
                return shrink(ex, st, g, at, g['lo'] if last else norm(g['lo'] + 1), norm(g['n'] - 1))

        @P.on(V(r'deq::(size|empty)\(\) const'), 'std::deque::size / empty')
        def size(ex, st, ins, av):
            g = dq(ex, st, av[0])
            ex.setr(st, ins, g['n'] == 0 if '::empty(' in ex.dem[ins.args[0][1]] else g['n'])

        @P.on(V(r'deq::operator\[\]\(unsigned long\)( const)?|deq::at\(unsigned long\)( const)?'), 'std::deque element access')
        def item(ex, st, ins, av):
            g = dq(ex, st, av[0])
            ex.oblige(st, ULT(av[1], g['n']), 'pre', 'the position is inside the deque')
            if st.dead:
                return 'dead'
            ex.setr(st, ins, Ptr(g['oid'], norm(BV(self.size) * norm(g['lo'] + av[1]))))
