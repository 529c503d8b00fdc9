"""Contracts of a counted class (AddRef / Release) with ghost counts, shared by C18, C19 and C29."""
from kv.lib import *


class RefSpec:
    """an object of class `cls`: ghost count, destroyed exactly when a Release takes the count to zero.
    Destroying an object may drop a reference it holds in a smart pointer inside it (ghost child)."""

    def __init__(self, cls='Obj'):
        self.ct = Contracts()
        C = self.ct

        @C.on(rx(r'^%s::AddRef\(\)$' % cls), '%s::AddRef: on a live object, adds one reference' % cls)
        def addref(ex, st, ins, av):
            return self.addref(ex, st, av[0])

        @C.on(rx(r'^%s::Release\(\)$' % cls), '%s::Release: on a live, referenced object drops one reference and destroys it at zero' % cls)
        def release(ex, st, ins, av):
            return self.release(ex, st, av[0])

    def obj(self, ex, st, p, what):
        if not isinstance(p, Ptr) or p.obj is None or p.null is not False:
            ex.oblige(st, FALSE if p.obj is None else Not(p.null), 'null', '%s is not called through null' % what)
            if st.dead or p.obj is None:
                st.dead = True
                return None
        o = st.mem[p.obj]
        key = (p.obj, 'rc')
        if key not in st.ghost:
            if not ex.feasible(st):
                st.dead = True
                return None
            raise Unsupported('%s on an unknown object' % what)
        ex.oblige(st, z3.BoolVal(o.live), 'lifetime', '%s is called on a live object' % what)
        if not o.live:
            st.dead = True
        ex.oblige(st, norm(p.off) == st.ghost[(p.obj, 'rcoff')], 'pointer', '%s is called on the object itself' % what)
        return None if st.dead else p.obj

    def addref(self, ex, st, p):
        oid = self.obj(ex, st, p, 'AddRef')
        if oid is None:
            return 'dead'
        st.setg((oid, 'rc'), simp(st.ghost[(oid, 'rc')] + 1))
        st.event('addref', oid)

    def release(self, ex, st, p):
        oid = self.obj(ex, st, p, 'Release')
        if oid is None:
            return 'dead'
        c = st.ghost[(oid, 'rc')]
        ex.oblige(st, c != 0, 'count', 'Release has a reference to give up')
        if st.dead:
            return 'dead'
        st.setg((oid, 'rc'), simp(c - 1))
        st.event('release', oid)
        s2 = st.copy()
        st.assume(c != 1)
        s2.assume(c == 1)
        out = []
        if ex.feasible(st):
            out.append(st)
        if ex.feasible(s2):
            out += self.die(ex, s2, oid)
        return out

    def die(self, ex, st, oid):
        st.event('die', oid)
        st.w(oid).live = False
        ch = st.ghost.get((oid, 'child'))
        if ch is None:
            return [st]
        # a smart pointer inside the dying object is destroyed with it
        for k, (n, v) in sorted(st.mem[oid].cells.items()):
            if ch <= k and isinstance(v, Ptr) and v.obj is not None:
                r = self.release(ex, st, v)
                return [] if r == 'dead' else (r or [st])
        return [st]

    def make(self, h, st, name, ext, size, off=0):
        """a live object with `ext` references held elsewhere"""
        p = st.new_cells(name, size, 'param')
        st.ghost[(p.obj, 'rc')] = ext
        st.ghost[(p.obj, 'rcoff')] = BV(off)
        st.ghost[(p.obj, 'ext')] = ext
        return p

    def count(self, st, p):
        return st.ghost[(p.obj, 'rc')]
