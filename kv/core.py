"""Program values, memory objects and symbolic states."""
import itertools
import z3
from .prove import *


class Unsupported(Exception):
    """the verifier cannot decide this code (never a violation by itself)"""


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    """pointer into object obj (or a raw address when obj is None); null: condition under which it is null instead"""
    __slots__ = ('obj', 'off', 'null')

    def __init__(self, obj, off, null=False):
        self.obj, self.off = obj, off
        if not isinstance(null, bool):
            if z3.is_true(null):
                null = True
            elif z3.is_false(null):
                null = False
        if null is True:
            self.obj, self.off, null = None, BV(0), False
        self.null = null

    def __repr__(self):
        return 'Ptr(%s,%s%s)' % (self.obj, self.off, '' if self.null is False else ',null=%s' % self.null)

    @property
    def isnull_const(self):
        return self.obj is None and isval(self.off) and self.off.as_long() == 0


NULL = Ptr(None, BV(0))


class Agg:
    def __init__(self, vals):
        self.vals = list(vals)

    def __repr__(self):
        return 'Agg(%s)' % self.vals


_oid = itertools.count(1)


class Obj:
    kind = 'stack'

    def __init__(self, name, kind, size, align=16):
        self.id = next(_oid)
        self.name, self.kind, self.align = name, kind, align
        self.size = size if not isinstance(size, int) else BV(size)
        self.live = True
        self.const = False
        self.user = {}

    def clone(self):
        o = self.__class__.__new__(self.__class__)
        o.__dict__.update(self.__dict__)
        return o


class Cells(Obj):
    def __init__(self, name, kind, size, align=16):
        Obj.__init__(self, name, kind, size, align)
        self.cells = {}       # off -> (nbytes, val)
        self.shadow = {}      # (name, off) -> val
        self.nbytes = size if isinstance(size, int) else (size.as_long() if isval(size) else None)

    def clone(self):
        o = Obj.clone(self)
        o.cells = dict(self.cells)
        o.shadow = dict(self.shadow)
        return o


class Seq(Obj):
    """n elements of `stride` bytes with the given fields.  fields: {off: ('bv', nbytes) | ('ptr', target obj id)}"""

    def __init__(self, name, kind, n, stride, fields, align=16, data=None, tag=None):
        self.n = n if not isinstance(n, int) else BV(n)
        Obj.__init__(self, name, kind, simp(self.n * BV(stride)), align)
        self.stride, self.fields = stride, fields
        self.tag = tag or 'i'
        self.data = {}
        self.shadow = {}
        for off, k in fields.items():
            if data and off in data:
                self.data[off] = data[off]
            elif k[0] == 'bv':
                self.data[off] = fresh_fn('%s.%d' % (name, off), k[1] * 8, self.tag)
            elif k[0] == 'link':
                self.data[off] = fresh_fn('%s.%d' % (name, off), 64, self.tag)
            elif k[0] == 'ptr':
                self.data[off] = fresh_fn('%s.%d' % (name, off), 64, self.tag)
                self.data[(off, 'null')] = fresh_fn('%s.%d.null' % (name, off), 'bool', self.tag)

    def clone(self):
        o = Obj.clone(self)
        o.data = dict(self.data)
        o.shadow = dict(self.shadow)
        return o


class FuncObj(Obj):
    def __init__(self, name):
        Obj.__init__(self, name, 'func', 1)
        self.const = True


class Frame:
    __slots__ = ('func', 'block', 'idx', 'env', 'uid', 'ret_ins', 'allocas', 'prev', 'varargs', 'onret')

    def __init__(self, func, uid, ret_ins):
        self.func, self.uid, self.ret_ins = func, uid, ret_ins
        self.block, self.idx, self.prev = func.entry, 0, None
        self.env = {}
        self.allocas = ()
        self.varargs = None
        self.onret = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.func, f.block, f.idx, f.uid, f.ret_ins, f.allocas, f.prev, f.varargs, f.onret = \
            self.func, self.block, self.idx, self.uid, self.ret_ins, self.allocas, self.prev, self.varargs, self.onret
        f.env = dict(self.env)
        return f


class State:
    def __init__(self):
        self.pc = []
        self.facts = []
        self.mem = {}
        self.frames = []
        self.ghost = {}
        self.log = ()
        self.active = ()
        self.wr = set()
        self.unrolls = {}
        self.trace = ()
        self.ret = None
        self.dead = False
        self.model = None       # of an earlier feasibility check

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.log = self.log
        s.active = self.active
        s.wr = set(self.wr)
        s.unrolls = dict(self.unrolls)
        s.trace = self.trace
        s.ret = self.ret
        s.dead = self.dead
        s.model = self.model
        return s

    @property
    def top(self):
        return self.frames[-1]

    # ---- assumptions
    def assume(self, *cs):
        for c in cs:
            if isinstance(c, Q):
                self.facts.append(c)
                continue
            if isinstance(c, (list, tuple)):
                self.assume(*c)
                continue
            if istrue(c):
                continue
            c = simp(B(c))
            if istrue(c):
                continue
            if isfalse(c):
                self.dead = True
            self.pc.append(c)

    # ---- objects
    def add(self, obj):
        self.mem[obj.id] = obj
        return obj

    def obj(self, oid):
        return self.mem[oid]

    def w(self, oid):
        """writable copy of an object"""
        o = self.mem[oid].clone()
        self.mem[oid] = o
        return o

    def new_cells(self, name, size, kind='param', align=16):
        o = self.add(Cells(name, kind, size, align))
        return Ptr(o.id, BV(0))

    def new_seq(self, name, n, stride, fields, kind='param', **kw):
        o = self.add(Seq(name, kind, n, stride, fields, **kw))
        return Ptr(o.id, BV(0))

    def getg(self, k):
        return self.ghost[k]

    def setg(self, k, v):
        self.ghost[k] = v
        self.wr.add(('g', k))

    def event(self, *e):
        self.log = self.log + (e,)
        self.wr.add(('log',))

    # ---- raw cell access (contract side: concrete offsets, no obligations)
    def put(self, p, nbytes, val, off=0):
        o = self.w(p.obj)
        k = simp(p.off).as_long() + off
        cell_write(o, k, nbytes, val)
        self.wr.add(('c', o.id, k, nbytes))

    def get(self, p, nbytes, off=0):
        o = self.mem[p.obj]
        return cell_read(o, simp(p.off).as_long() + off, nbytes)


def cell_read(o, k, n):
    c = o.cells.get(k)
    if c is not None and c[0] == n:
        return c[1]
    # compose from smaller cells / extract from a larger one
    for k2, (n2, v2) in o.cells.items():
        if k2 <= k and k + n <= k2 + n2:
            if isinstance(v2, Ptr):
                if v2.isnull_const:
                    return BV(0, n * 8)
                raise Unsupported('partial pointer read')
            if v2 is UNDEF:
                return UNDEF
            lo = (k - k2) * 8
            return simp(z3.Extract(lo + n * 8 - 1, lo, v2))
    parts = []
    pos = k
    while pos < k + n:
        c = o.cells.get(pos)
        if c is None or pos + c[0] > k + n:
            # maybe a larger cell overlaps partially
            for k2, (n2, v2) in o.cells.items():
                if k2 < pos < k2 + n2 or (k2 == pos and pos + n2 > k + n):
                    end = min(k + n, k2 + n2)
                    if isinstance(v2, (Ptr, Undef)):
                        return UNDEF if v2 is UNDEF else _unsup('partial pointer read')
                    lo = (pos - k2) * 8
                    parts.append(z3.Extract(lo + (end - pos) * 8 - 1, lo, v2))
                    pos = end
                    break
            else:
                return UNDEF
            continue
        if isinstance(c[1], Ptr):
            if c[1].isnull_const:
                parts.append(BV(0, c[0] * 8))
            else:
                raise Unsupported('composite pointer read')
        elif c[1] is UNDEF:
            return UNDEF
        else:
            parts.append(c[1])
        pos += c[0]
    if len(parts) == 1:
        return simp(parts[0])
    return simp(z3.Concat(*reversed(parts)))


def _unsup(m):
    raise Unsupported(m)


def cell_write(o, k, n, val):
    # remove / split overlapped cells
    if o.cells.get(k, (None,))[0] != n:
        for k2 in list(o.cells):
            n2, v2 = o.cells[k2]
            if k2 + n2 <= k or k + n <= k2:
                continue
            del o.cells[k2]
            if isinstance(v2, Undef):
                continue
            if isinstance(v2, Ptr):
                if v2.isnull_const:
                    v2 = BV(0, 64)
                elif k <= k2 and k2 + n2 <= k + n:
                    continue
                else:
                    raise Unsupported('partial pointer overwrite')
            if k2 < k:
                o.cells[k2] = (k - k2, simp(z3.Extract((k - k2) * 8 - 1, 0, v2)))
            if k2 + n2 > k + n:
                lo = (k + n - k2) * 8
                o.cells[k + n] = (k2 + n2 - k - n, simp(z3.Extract(n2 * 8 - 1, lo, v2)))
    if val is UNDEF:
        o.cells.pop(k, None)
    else:
        o.cells[k] = (n, val)
