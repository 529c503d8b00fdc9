"""Symbolic execution of LLVM IR with contracts and loop invariants: the obligation generator."""
import itertools
import random
import struct
import subprocess
import time
import z3
from .prove import *
from .core import *
from . import ir

FPS = {'float': (z3.Float32(), 32), 'double': (z3.Float64(), 64)}


class Obligation:
    __slots__ = ('label', 'kind', 'status', 'model', 'time', 'where', 'state', 'detail', 'nhyp')

    def __init__(self, label, kind, where):
        self.label, self.kind, self.where = label, kind, where
        self.status = None
        self.model = None
        self.state = None
        self.detail = ''
        self.time = 0

    def __repr__(self):
        return '%s %s %s' % (self.status, self.kind, self.label)


class Missed(Exception):
    """a sample of the paths of a loop body was not enough to find its invariant"""


class LoopCtx:
    def __init__(self, uid, header, blocks, func):
        self.uid, self.header, self.blocks, self.func = uid, header, blocks, func
        self.mode = 'final'
        self.sink = None
        self.nback = 0
        self.variants = None
        self.measure = None
        self.key = None
        self.backs = []
        self.limit = None
        self.cut = False
        self.ids = None


class Cand:
    __slots__ = ('name', 'fn', 'auto')

    def __init__(self, name, fn, auto=True):
        self.name, self.fn, self.auto = name, fn, auto


class Exec:
    def __init__(self, mod, contracts=None, opts=None):
        self.mod = mod
        self.prover = Prover(timeout=(opts or {}).get('timeout', 20.0))
        self.opts = opts or {}
        self.obligations = []
        self.quiet = 0
        self.uid = itertools.count(1)
        self.globals = {}
        self.gstate = {}
        self.dem = {}
        self.handlers = []       # (predicate(demangled, mangled) -> handler)
        self.hcache = {}
        self.loop_specs = []     # functions (ex, entry, view) -> [Cand]
        self.vocab = []          # functions st -> BV term, or BV terms
        self.used_funcs = set()
        self.assumed = set()     # names of contracts assumed on dependencies
        self.inline_depth = 60
        self.paths = 0
        self.max_paths = self.opts.get('max_paths', 4000)
        self.measures = []
        self.loop_measures = {}
        self.loops_done = []
        self.loop_stats = {}
        self.alloc_hints = []
        self.no_term = False
        self.deadline = None
        self.feas_cache = {}
        self.nonull_new = True
        self.check_undef = True
        self.models = []
        self.dice = random.Random(1)
        self.weak = False       # a candidate invariant was dropped undecided, so a refutation behind it need not be real
        self.stack_leak_check = True
        self.stop_on_fail = self.opts.get('stop_on_fail', False)
        names = [n for n in mod.funcs]
        out = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, universal_newlines=True).stdout
        for n, d in zip(names, out.split('\n')):
            self.dem[n] = d

    # ------------------------------------------------------------ obligations
    def where(self, st):
        if not st.frames:
            return 'end'
        f = st.top
        b = f.func.blocks[f.block]
        i = min(max(f.idx - 1, 0), len(b) - 1)
        line = b[i].line
        return '%s:%d' % (self.short(f.func.name), line)

    def short(self, n):
        d = self.dem.get(n, n)
        d = d.split('(')[0] if not d.startswith('(') else d
        return d[-90:]

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def oblige(self, st, goal, kind, label='', timeout=None, rounds=None, assume=True):
        """prove goal in st; afterwards goal is assumed"""
        if st.dead:
            return True
        if isinstance(goal, (list, tuple)):
            r = True
            for i, g in enumerate(conj(goal)):
                r = self.oblige(st, g, kind, label, timeout, rounds, assume) and r
            return r
        if not isinstance(goal, Q):
            goal = simp(B(goal))
        if self.quiet:
            if assume:
                st.assume(goal)
            return True
        self.tick()
        ob = Obligation(label, kind, self.where(st))
        t0 = time.time()
        if not isinstance(goal, Q) and istrue(goal):
            ob.status = 'proved'
            ob.detail = 'trivial'
        else:
            ob.status = None
            if st.facts and rounds is None and self.opts.get('first_round', True):
                # few instances often suffice
                ob.status, ob.model = self.prover.prove(st.pc, st.facts, goal, 1.5, 1)
            if ob.status != 'proved':
                ob.status, ob.model = self.prover.prove(st.pc, st.facts, goal, timeout, rounds)
            if ob.status == 'unknown':
                ob.status, ob.model = self.prover.prove(st.pc, st.facts, goal, (timeout or self.prover.timeout) * 2, 3)
            elif ob.status == 'refuted' and st.facts:
                s2, m2 = self.prover.prove(st.pc, st.facts, goal, timeout, 4)
                if s2 == 'proved':
                    ob.status, ob.model = s2, m2
                elif s2 == 'unknown' :
                    ob.status = 'unknown'
        if ob.status == 'refuted' and self.weak:
            ob.status = 'unknown'
        ob.time = time.time() - t0
        if ob.status != 'proved':
            ob.state = st.copy()
            ob.detail = str(goal.name if isinstance(goal, Q) else goal)[:600]
        self.obligations.append(ob)
        if assume:
            st.assume(goal)
        return ob.status == 'proved'

    def feasible(self, st, conds=()):
        if st.dead:
            return False
        hyps = st.pc + list(conds)
        key = tuple(h.get_id() for h in hyps)
        k2 = (key, len(st.facts))
        r = self.feas_cache.get(k2)
        if r is not None:
            return r[0]
        if self.opts.get('sample'):
            res = self.sat(self.prover.ground(hyps, st.facts, (), 2) if st.facts else hyps, st)
        else:
            res = self.sat(hyps)
        if res == 'sat' and st.facts and not self.opts.get('sample'):
            res = self.sat(self.prover.ground(hyps, st.facts, (), 2))
        v = res != 'unsat'
        self.feas_cache[k2] = (v, hyps)
        return v

    def sat(self, forms, st=None):
        """satisfiability; the models found before are tried first (a branch taken on one side only costs nothing on that side)"""
        mine = [st.model] if st is not None and st.model is not None else []
        for k, (m, known) in enumerate(mine + self.models):
            for x in forms:
                i = x.get_id()
                r = known.get(i)
                if r is None:
                    r = known[i] = (z3.is_true(m.eval(x, model_completion=True)), x)
                if not r[0]:
                    break
            else:
                if st is not None:
                    st.model = (m, known)
                elif k:
                    self.models.insert(0, self.models.pop(k))
                return 'sat'
        res, m = self.prover.check(forms, 5.0, 'try')
        if m is not None:
            mk = (m, {x.get_id(): (True, x) for x in forms})
            if st is not None:
                st.model = mk
            else:
                self.models.insert(0, mk)
                del self.models[6:]
        return res

    def must(self, st, cond, timeout=5.0, rounds=2):
        """does cond provably hold here? (no obligation recorded)"""
        cond = cond if isinstance(cond, Q) else simp(B(cond))
        if not isinstance(cond, Q):
            if istrue(cond):
                return True
            if isfalse(cond):
                return False
        return self.prover.prove(st.pc, st.facts, cond, timeout, rounds)[0] == 'proved'

    # ------------------------------------------------------------ globals
    def glob(self, st, name):
        name = self.mod.aliases.get(name, name)
        oid = self.globals.get(name)
        if oid is None:
            if name in self.mod.funcs:
                o = FuncObj(name)
                self.globals[name] = o.id
                self.gstate[o.id] = o
                st.mem[o.id] = o
                return Ptr(o.id, BV(0))
            const, ty, init = self.mod.parse_global(name)
            sz = self.mod.size(ty)
            if init is not None and init[0] == 'bytes' or (init is not None and init[0] == 'zero' and
                                                           ty[0] == 'arr' and ty[2] == ir.I8):
                data = init[1] if init[0] == 'bytes' else b'\0' * sz
                o = Seq('@' + name, 'global', sz, 1, {0: ('bv', 1)}, data={0: bytes_fn(data)})
                o.user['bytes'] = data
            else:
                o = Cells('@' + name, 'global', sz)
                o.const = bool(const)
                self.globals[name] = o.id
                self.gstate[o.id] = o
                st.mem[o.id] = o
                if init is not None:
                    self.init_cells(st, o, 0, ty, init)
                elif not const:
                    o.user['extern'] = True
            o.const = bool(const)
            self.globals[name] = oid = o.id
            self.gstate[oid] = o
        if oid not in st.mem:
            st.mem[oid] = self.gstate[oid]
        return Ptr(oid, BV(0))

    def init_cells(self, st, o, off, ty, v):
        t = self.mod.resolve(ty)
        if v[0] in ('zero',):
            n = self.mod.size(t)
            self.zero_cells(o, off, t)
            return
        if v[0] == 'undef':
            return
        if t[0] == 'arr':
            es = self.mod.size(t[2])
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]):
                    cell_write(o, off + i, 1, BV(b, 8))
                return
            for i, (et, ev) in enumerate(v[1]):
                self.init_cells(st, o, off + i * es, et, ev)
            return
        if t[0] == 'struct':
            offs, _ = self.mod.offsets(t)
            for fo, (et, ev) in zip(offs, v[1]):
                self.init_cells(st, o, off + fo, et, ev)
            return
        cell_write(o, off, self.mod.size(t), self.const(st, t, v))

    def zero_cells(self, o, off, t):
        t = self.mod.resolve(t)
        if t[0] == 'arr':
            es = self.mod.size(t[2])
            for i in range(t[1]):
                self.zero_cells(o, off + i * es, t[2])
        elif t[0] == 'struct':
            for fo, et in zip(self.mod.offsets(t)[0], t[1]):
                self.zero_cells(o, off + fo, et)
        elif t[0] == 'ptr':
            cell_write(o, off, 8, NULL)
        else:
            n = self.mod.size(t)
            cell_write(o, off, n, BV(0, n * 8))

    # ------------------------------------------------------------ operand evaluation
    def const(self, st, ty, v):
        k = v[0]
        t = self.mod.resolve(ty)
        if k == 'const':
            if t == ir.I1:
                return z3.BoolVal(bool(v[1] & 1))
            return BV(v[1], t[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if t[0] == 'struct' or t[0] == 'arr':
                n = len(t[1]) if t[0] == 'struct' else t[1]
                return Agg([UNDEF] * n)
            return UNDEF
        if k == 'zero':
            if t[0] == 'int':
                return z3.BoolVal(False) if t == ir.I1 else BV(0, t[1])
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return Agg([self.const(st, x, v) for x in t[1]])
            if t[0] in FPS:
                return BV(0, FPS[t[0]][1])
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'fphex':
            h = v[1][2:]
            if h[0] in 'KHLMR':
                raise Unsupported('extended float constant')
            b = int(h, 16)
            if t[0] == 'float':
                d = struct.unpack('>d', struct.pack('>Q', b))[0]
                b = struct.unpack('>I', struct.pack('>f', d))[0]
                return BV(b, 32)
            return BV(b, 64)
        if k == 'fpdec':
            if t[0] == 'float':
                return BV(struct.unpack('>I', struct.pack('>f', v[1]))[0], 32)
            return BV(struct.unpack('>Q', struct.pack('>d', v[1]))[0], 64)
        if k == 'agg':
            return Agg([self.const(st, et, ev) for et, ev in v[1]])
        if k == 'cexpr':
            op = v[1]
            if op == 'getelementptr':
                vs = [(t2, self.const(st, t2, x)) for t2, x in v[3]]
                return self.gep(v[2], vs)
            if op in ('bitcast', 'addrspacecast'):
                return self.const(st, v[2], v[3])
            if op == 'ptrtoint':
                return self.ptrtoint(st, self.const(st, v[2], v[3]), self.mod.resolve(v[4])[1])
            if op == 'inttoptr':
                return self.inttoptr(st, self.const(st, v[2], v[3]))
        raise Unsupported('constant %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'loc':
            return st.top.env[v[1]]
        return self.const(st, ty, v)

    # ------------------------------------------------------------ pointers
    def base(self, st, oid):
        o = st.mem[oid]
        b = o.user.get('base')
        if b is None:
            b = z3.BitVec('base!%d' % oid, 64)
            o = st.w(oid)
            o.user = dict(o.user)
            o.user['base'] = b
            if oid in self.gstate:
                self.gstate[oid] = o
        ax = ('baseax', oid)
        if ax not in st.ghost:
            st.ghost[ax] = True
            st.assume(b != 0, ULE(b, BV(1 << 47)), (b & BV(o.align - 1)) == 0)
            st.assume(UGE(b, BV(4096)))
        return b

    def ptrtoint(self, st, p, n=64):
        if p is UNDEF:
            return UNDEF
        if p.obj is None:
            r = p.off
        else:
            r = self.base(st, p.obj) + p.off
            r = If(p.null, BV(0), r)
        r = norm(r) if p.null is False else r
        return r if n == 64 else simp(z3.Extract(n - 1, 0, r)) if n < 64 else z3.ZeroExt(n - 64, r)

    def inttoptr(self, st, v):
        if v is UNDEF:
            return UNDEF
        v = simp(v)
        if v.size() < 64:
            v = z3.ZeroExt(64 - v.size(), v)
        return self.resolve_raw(st, Ptr(None, v), False)

    def resolve_raw(self, st, p, deep=True):
        """try to see a raw address as a pointer into a known object"""
        if p.obj is not None or isval(p.off):
            return p
        a, c = linear(p.off)
        for oid, o in st.mem.items():
            b = o.user.get('base')
            if b is not None and b.get_id() in a and a[b.get_id()][1] == 1:
                rest = dict(a)
                del rest[b.get_id()]
                if not any(x.user.get('base') is not None and x.user['base'].get_id() in rest for x in st.mem.values()):
                    return Ptr(oid, unlinear(rest, c))
        if deep:
            for oid, o in st.mem.items():
                b = o.user.get('base')
                if b is not None and o.live and self.must(st, p.off == b):
                    return Ptr(oid, BV(0))
        return p

    def gep(self, bt, vs):
        p = vs[0][1]
        off = None
        t = bt
        add = []
        c = 0
        for i, (ty, v) in enumerate(vs[1:]):
            if i == 0:
                sz = self.mod.size(t)
                add.append((v, sz))
                continue
            t = self.mod.resolve(t)
            if t[0] == 'struct':
                k = simp(v).as_long()
                c += self.mod.offsets(t)[0][k]
                t = t[1][k]
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                add.append((v, self.mod.size(t)))
            else:
                raise Unsupported('gep into %s' % (t,))
        if p is UNDEF:
            return UNDEF
        e = p.off
        for v, sz in add:
            if v is UNDEF:
                return UNDEF
            if v.size() < 64:
                v = simp(z3.SignExt(64 - v.size(), v))
            e = e + BV(sz) * v if sz != 1 else e + v
        if c:
            e = e + BV(c)
        return Ptr(p.obj, norm(simp(e) if isval(e) else e), p.null) if (c or add) else p

    def ptr_eq(self, st, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('undef pointer compare')
        if a.obj == b.obj:
            if a.obj is None:
                return simp(a.off == b.off)
            an, bn = B(a.null), B(b.null)
            if a.null is False and b.null is False:
                return simp(norm(a.off) == norm(b.off))
            return simp(Or(And(an, bn), And(Not(an), Not(bn), a.off == b.off)))
        # different objects
        for x, y in ((a, b), (b, a)):
            if y.isnull_const:
                return B(x.null) if x.obj is not None else simp(x.off == 0)
        if a.obj is None or b.obj is None:
            a2, b2 = self.resolve_raw(st, a, False), self.resolve_raw(st, b, False)
            if a2.obj is not None and b2.obj is not None:
                return self.ptr_eq(st, a2, b2)
            return simp(self.ptrtoint(st, a) == self.ptrtoint(st, b))
        # two known, different objects: equal only if both null
        return And(B(a.null), B(b.null))

    def known(self, st, oid):
        """the object; globals first seen on another path are added"""
        o = st.mem.get(oid)
        if o is None and oid in self.gstate:
            o = st.mem[oid] = self.gstate[oid]
        return o

    def any_eq(self, st, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or self.opts.get('tagged_pointers') and a.size() == 64:
            # addresses held as integers: distinct objects have distinct addresses
            a = a if isinstance(a, Ptr) else self.inttoptr(st, a)
            b = b if isinstance(b, Ptr) else self.inttoptr(st, b)
            return self.ptr_eq(st, a, b)
        return simp(a == b)

    # ------------------------------------------------------------ memory access with obligations
    def access(self, st, p, n, what, write=False, quiet=False):
        """resolve an access of n bytes; returns (obj, 'cells', off) or (obj, 'seq', index, fieldoff)"""
        if p is UNDEF:
            self.oblige(st, FALSE, 'memory', '%s through an uninitialised pointer' % what)
            return None
        if p.obj is None:
            p = self.resolve_raw(st, p)
            if p.obj is None:
                if self.must(st, p.off == 0) or p.isnull_const:
                    self.oblige(st, FALSE, 'memory', '%s through a null pointer' % what)
                    return None
                if not self.feasible(st):
                    st.dead = True
                    return None
                if self.quiet:
                    st.dead = True
                    return None
                raise Unsupported('%s through an unknown address %s' % (what, p.off))
        if p.null is not False:
            self.oblige(st, Not(p.null), 'memory', '%s through a possibly null pointer' % what)
            if st.dead:
                return None
            p = Ptr(p.obj, p.off)
        o = self.known(st, p.obj)
        if o is None:
            raise Unsupported('object vanished')
        if not o.live:
            self.oblige(st, FALSE, 'memory', '%s of %s after its lifetime ended' % (what, o.name))
            return None
        if isinstance(o, FuncObj):
            self.oblige(st, FALSE, 'memory', '%s of a function' % what)
            return None
        if write and o.const:
            self.oblige(st, FALSE, 'memory', 'write to constant %s' % o.name)
            return None
        lk = o.user.get('on_access')
        if lk:
            lk(self, st, o, p, n, write)
        if isinstance(o, Cells):
            off = simp(p.off)
            if not isval(off):
                off2 = norm(off)
                if not isval(off2):
                    r = self.pin(st, off2)
                    if r is None:
                        return self.table_access(st, o, off2, n, what)
                    off2 = r
                off = off2
            k = off.as_long()
            ok = o.nbytes is None or k + n <= o.nbytes
            if not ok:
                self.oblige(st, FALSE, 'memory', '%s of %d bytes at offset %d outside %s (%s bytes)' %
                            (what, n, signed(k), o.name, o.nbytes))
                return None
            return (o, 'cells', k)
        r = split_index(p.off, o.stride)
        if r is None:
            raise Unsupported('cannot express offset %s as element of %s' % (p.off, o.name))
        idx, c = r
        idx = simp(idx) if isval(idx) else idx
        k = (c + n + o.stride - 1) // o.stride
        lim = o.n
        if 'extent' in o.user:
            lim = o.user['extent'](self, st, o)
        self.oblige(st, ULT(idx, lim) if k <= 1 else And(ULE(BV(k), lim), ULE(idx, lim - BV(k))), 'memory', '%s inside %s' % (what, o.name))
        if st.dead:
            return None
        return (o, 'seq', idx, c)

    def pin(self, st, e):
        """a symbolic value that can only be one constant here"""
        r, m = self.prover.check(st.pc, 3.0, True)
        if r != 'sat':
            return None
        v = m.eval(e, model_completion=True)
        if self.must(st, e == v):
            return v
        return None

    def table_access(self, st, o, off, n, what):
        if o.nbytes is None or o.nbytes > 256:
            raise Unsupported('symbolic offset into %s' % o.name)
        # possible offsets: same residue modulo the gcd of the coefficients
        a, c = linear(off)
        import math
        g = 0
        for x, k in a.values():
            g = math.gcd(g, abs(signed(k)))
        g = g or 1
        if g & (g - 1):
            g = g & -g
        g = min(g, 256)
        offs = [k for k in range(c % g, o.nbytes - n + 1, g)]
        self.oblige(st, Or(*[off == k for k in offs]), 'memory', '%s inside %s' % (what, o.name))
        if st.dead:
            return None
        return (o, 'table', off, offs)

    def bv_to_val(self, t, v):
        return v

    def load(self, st, p, ty, what='read'):
        t = self.mod.resolve(ty)
        if t[0] == 'struct':
            offs, _ = self.mod.offsets(t)
            out = []
            for fo, ft in zip(offs, t[1]):
                out.append(self.load(st, Ptr(p.obj, simp(p.off + fo), p.null), ft, what))
            return Agg(out)
        n = self.mod.size(t)
        if t[0] == 'int' and t[1] % 8:
            n = (t[1] + 7) // 8
        if t[0] == 'x86_fp80' or t[0] == 'vec':
            raise Unsupported('load of %s' % t[0])
        a = self.access(st, p, n, what)
        if a is None or st.dead:
            return UNDEF
        o = a[0]
        if a[1] == 'cells':
            v = cell_read(o, a[2], n)
            if v is UNDEF and o.user.get('extern'):
                v = fresh_bv('ext', n * 8)
                if t[0] == 'ptr':
                    v = Ptr(None, v)
                cell_write(st.w(o.id), a[2], n, v)
            if v is UNDEF and o.user.get('lazy'):
                v = o.user['lazy'](self, st, o, a[2], n, t)
        elif a[1] == 'table':
            vs = [(k, cell_read(o, k, n)) for k in a[3]]
            if any(isinstance(v, Ptr) for k, v in vs):
                raise Unsupported('table of pointers')
            v = None
            for k, x in vs:
                if x is UNDEF:
                    x = fresh_bv('undef', n * 8)
                v = x if v is None else If(a[2] == k, x, v)
        else:
            v = self.seq_read(st, o, a[2], a[3], n)
        return self.retype(st, v, t)

    def retype(self, st, v, t):
        if v is UNDEF:
            return v
        if t[0] == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isval(v) and v.as_long() == 0:
                return NULL
            return self.inttoptr(st, v)
        if isinstance(v, Ptr):
            if t[0] == 'int' and t[1] == 64:
                return self.ptrtoint(st, v)
            raise Unsupported('pointer read as %s' % (t,))
        if t == ir.I1:
            return simp(z3.Extract(0, 0, v) == 1) if v.size() > 1 else v == 1
        if t[0] == 'int' and v.size() > t[1]:
            return simp(z3.Extract(t[1] - 1, 0, v))
        return v

    def seq_read(self, st, o, idx, c, n):
        f = o.fields.get(c)
        if f is None or (f[0] == 'bv' and f[1] != n) or (f[0] == 'ptr' and n != 8):
            if f is None or f[0] == 'bv':
                # several adjacent fields, or part of one
                parts, pos = [], c
                while pos < c + n and o.fields.get(pos, ('x',))[0] == 'bv' and pos + o.fields[pos][1] <= c + n:
                    parts.append(o.data[pos](idx))
                    pos += o.fields[pos][1]
                if parts and pos == c + n:
                    return z3.Concat(*reversed(parts))
                for fo, fk in o.fields.items():
                    if fk[0] == 'bv' and fo <= c and c + n <= fo + fk[1]:
                        lo = (c - fo) * 8
                        return z3.Extract(lo + n * 8 - 1, lo, o.data[fo](idx))
                if o.stride == 1 and n in (2, 4, 8) and c == 0:
                    return z3.Concat(*[o.data[0](simp(idx + BV(j))) for j in reversed(range(n))])
            if o.user.get('padding'):
                return UNDEF
            raise Unsupported('read of %d bytes at +%d of %s' % (n, c, o.name))
        if f[0] == 'ptr':
            return Ptr(f[1], o.data[c](idx), o.data[(c, 'null')](idx))
        if f[0] == 'special':
            return f[1](self, st, o, idx)
        if f[0] == 'link':
            # the number of an element of this sequence; 0 (which is no element) stands for null
            if n != 8:
                raise Unsupported('part of a link')
            v = simp(o.data[c](idx))
            if (isval(v) and v.as_long() == 0) or (not isval(v) and self.must(st, v == 0)):
                return NULL
            known = isval(v) or self.must(st, v != 0)
            return Ptr(o.id, norm(BV(o.stride) * v + f[1]), False if known else v == 0)
        v = o.data[c](idx)
        return simp(v) if isval(idx) else v

    def tobytes(self, st, v, n):
        if isinstance(v, (Ptr, Undef)):
            return v
        if z3.is_bool(v):
            return If(v, BV(1, 8), BV(0, 8))
        if v.size() < n * 8:
            return z3.ZeroExt(n * 8 - v.size(), v)
        return v

    def store(self, st, p, ty, v, what='write'):
        t = self.mod.resolve(ty)
        if t[0] == 'struct':
            offs, _ = self.mod.offsets(t)
            for fo, ft, x in zip(offs, t[1], v.vals):
                self.store(st, Ptr(p.obj, simp(p.off + fo), p.null), ft, x, what)
            return
        n = self.mod.size(t)
        if t[0] == 'int' and t[1] % 8:
            n = (t[1] + 7) // 8
        if t[0] == 'x86_fp80' or t[0] == 'vec':
            raise Unsupported('store of %s' % t[0])
        a = self.access(st, p, n, what, True)
        if a is None or st.dead:
            return
        self.store_at(st, a, n, self.tobytes(st, v, n))

    def store_at(self, st, a, n, v):
        o = st.w(a[0].id)
        if a[1] == 'cells':
            cell_write(o, a[2], n, v)
            st.wr.add(('c', o.id, a[2], n))
            return
        if a[1] == 'table':
            for k in a[3]:
                old = cell_read(o, k, n)
                if isinstance(v, (Ptr, Undef)) or isinstance(old, Ptr):
                    raise Unsupported('table of pointers')
                if old is UNDEF:
                    old = fresh_bv('undef', n * 8)
                cell_write(o, k, n, If(a[2] == k, v, old))
                st.wr.add(('c', o.id, k, n))
            return
        idx, c = a[2], a[3]
        f = o.fields.get(c)
        if f is not None and f[0] == 'link' and n == 8:
            v = self.inttoptr(st, v) if isinstance(v, z3.BitVecRef) else v
            if not isinstance(v, Ptr):
                raise Unsupported('link that is not a pointer')
            if v.isnull_const:
                w = BV(0)
            else:
                r = split_index(norm(v.off), o.stride) if v.obj == o.id else None
                if not r or r[1] != f[1]:
                    raise Unsupported('link to something else')
                self.oblige(st, Or(B(v.null), r[0] != 0), 'pre', 'link to an element')
                w = r[0] if v.null is False else If(B(v.null), BV(0), r[0])
            o.data[c] = o.data[c].store(idx, w)
            st.wr.add(('f', o.id, c))
            return
        if v is UNDEF:
            v = fresh_bv('undef', n * 8)
        if f is not None and f[0] == 'bv' and isinstance(v, Ptr) and f[1] == 8:
            v = self.ptrtoint(st, v)
        if o.stride == 1 and c == 0 and n in (2, 4, 8) and isinstance(v, z3.BitVecRef):
            for j in range(n):
                o.data[0] = o.data[0].store(simp(idx + BV(j)), simp(z3.Extract(8 * j + 7, 8 * j, v)))
            st.wr.add(('f', o.id, 0))
            return
        if f is None or (f[0] == 'bv' and f[1] != n):
            raise Unsupported('write of %d bytes at +%d of %s' % (n, c, o.name))
        if f[0] == 'ptr':
            if not isinstance(v, Ptr):
                v = self.inttoptr(st, v)
            if v.isnull_const:
                o.data[(c, 'null')] = o.data[(c, 'null')].store(idx, TRUE)
            elif v.obj == f[1]:
                o.data[c] = o.data[c].store(idx, v.off)
                o.data[(c, 'null')] = o.data[(c, 'null')].store(idx, B(v.null))
            else:
                raise Unsupported('store of a pointer to another object in %s' % o.name)
            st.wr.add(('f', o.id, c))
            return
        if o.stride == 1 and isval(v) and v.as_long() == 0:
            # a hint where a terminator may be
            o.shadow['nul'] = (idx,) + o.shadow.get('nul', ())[:7]
        o.data[c] = o.data[c].store(idx, v)
        st.wr.add(('f', o.id, c))

    # ------------------------------------------------------------ running
    def start(self, fname, args, st=None):
        st = st or State()
        f = self.mod.funcs[fname]
        if not f.has_body:
            raise Unsupported('no body for ' + fname)
        f.parse()
        self.used_funcs.add(fname)
        fr = Frame(f, next(self.uid), None)
        for (t, nm, at), a in zip(f.params, args):
            fr.env[nm] = a
        st.frames.append(fr)
        return st

    def explore(self, states, base_depth, probe=None):
        """run to completion. -> dict kind -> states"""
        out = {'ret': [], 'back': [], 'exit': []}
        work = list(states)
        limit = probe.limit if probe is not None else None
        while work:
            if limit is None:
                st = work.pop()
            elif len(probe.backs) >= limit:
                probe.cut = True
                break
            else:
                # a sample: spread over the whole body
                st = work.pop(self.dice.randrange(len(work)))
            if st.dead:
                continue
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            self.tick()
            while True:
                r = self.step(st, base_depth, probe)
                if r is None:
                    if st.dead:
                        break
                    continue
                kind, more = r
                if kind == 'fork':
                    work.extend(more)
                    break
                if kind == 'done':
                    break
                out[kind].append(st)
                break
        return out

    def step(self, st, base_depth, probe):
        fr = st.frames[-1]
        blk = fr.func.blocks[fr.block]
        ins = blk[fr.idx]
        op = ins.op
        il = self.opts.get('interleave')
        if il is not None and (op in ('load', 'store', 'cmpxchg', 'atomicrmw') or
                               op == 'call' and ins.args[0][0] == 'glob' and ins.args[0][1] in self.opts['switch_calls']):
            # another thread may run here: contract code pushes its call, this instruction follows
            if not st.ghost.pop('noswitch', False):
                r = il(self, st, ins)
                if r:
                    st.ghost['noswitch'] = True
                    return 'fork', [st] + r
        fr.idx += 1
        m = getattr(self, 'op_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        r = m(st, ins)
        if r is not None:
            if r == 'ret':
                if probe is not None and len(st.frames) < probe.depth:
                    return 'exit', None
                if len(st.frames) < base_depth or not st.frames:
                    return 'ret', None
                return None
            if r == 'dead':
                return 'done', None
            if isinstance(r, tuple) and r[0] == 'goto':
                return self.goto(st, r[1], probe)
            if isinstance(r, list):
                return 'fork', r
            if isinstance(r, tuple) and r[0] == 'branch':
                outs = []
                for s2, tgt in r[1]:
                    k = self.goto(s2, tgt, probe)
                    if k is None:
                        outs.append(s2)
                    elif k[0] == 'fork':
                        outs.extend(k[1])
                    elif k[0] == 'done':
                        pass
                    else:
                        self.deliver(probe, k[0], s2)
                return 'fork', outs
        return None

    def deliver(self, probe, kind, st):
        if kind == 'back':
            probe.backs.append(st)

    def goto(self, st, tgt, probe):
        fr = st.top
        src = fr.block
        f = fr.func
        # leaving loops
        act = st.active
        na = tuple(lc for lc in act if not (lc.uid == fr.uid and tgt not in lc.blocks))
        if len(na) != len(act):
            left = [lc for lc in act if lc not in na]
            st.active = na
            if probe is not None and probe in left:
                return 'exit', None
        fr.prev, fr.block, fr.idx = src, tgt, 0
        if tgt in f.loops:
            if f.irreducible:
                raise Unsupported('irreducible control flow in ' + f.name)
            for lc in st.active:
                if lc.uid == fr.uid and lc.header == tgt:
                    if lc.mode == 'probe':
                        lc.backs.append(st)
                        return 'done', None
                    self.final_back(st, lc)
                    return 'done', None
            return self.enter_loop(st, tgt, probe)
        return None

    # ------------------------------------------------------------ instructions
    def setr(self, st, ins, v):
        if ins.res is not None:
            st.frames[-1].env[ins.res] = v

    def opnd(self, st, tv):
        return self.val(st, tv[0], tv[1])

    def op_alloca(self, st, ins):
        ty, n = ins.args
        sz = self.mod.size(ty)
        if n is not None:
            k = self.opnd(st, n)
            k = simp(k)
            if not isval(k):
                raise Unsupported('variable length array')
            sz *= k.as_long()
        rt = self.mod.resolve(ty)
        nm = '%s.%s' % (ins.res, self.short(st.top.func.name)[:30])
        if rt[0] == 'arr' and rt[2] == ir.I8 and sz > 64:
            o = Seq(nm, 'stack', sz, 1, {0: ('bv', 1)})
        else:
            o = Cells(nm, 'stack', sz, ins.attrs['align'])
        st.add(o)
        st.top.allocas = st.top.allocas + (o.id,)
        self.setr(st, ins, Ptr(o.id, BV(0)))

    def op_load(self, st, ins):
        p = self.val(st, ir.PTR, ins.args[0])
        if ins.attrs.get('atomic'):
            h = self.opts.get('atomic_load')
            if h:
                r = h(self, st, ins, p)
                if r is not None:
                    return r
        v = self.load(st, p, ins.ty)
        if st.dead:
            return 'dead'
        self.setr(st, ins, v)

    def op_store(self, st, ins):
        (ty, v), pv = ins.args
        p = self.val(st, ir.PTR, pv)
        x = self.val(st, ty, v)
        if ins.attrs.get('atomic'):
            h = self.opts.get('atomic_store')
            if h:
                h(self, st, ins, p, x)
                if st.dead:
                    return 'dead'
        self.store(st, p, ty, x)
        if st.dead:
            return 'dead'

    def op_getelementptr(self, st, ins):
        bt, vs = ins.args
        self.setr(st, ins, self.gep(bt, [(t, self.val(st, t, v)) for t, v in vs]))

    def undef_use(self, st, *vs):
        for v in vs:
            if v is UNDEF:
                self.oblige(st, FALSE, 'uninitialised', 'use of an uninitialised value')
                return True
        return False

    def binop(self, st, ins):
        a0, b0 = ins.args
        a, b = self.val(st, ins.ty, a0), self.val(st, ins.ty, b0)
        if self.undef_use(st, a, b):
            return 'dead'
        if z3.is_bool(a):
            f = {'and': And, 'or': Or, 'xor': lambda x, y: z3.Xor(x, y), 'add': lambda x, y: z3.Xor(x, y),
                 'sub': lambda x, y: z3.Xor(x, y)}.get(ins.op)
            if f is None:
                raise Unsupported('i1 ' + ins.op)
            self.setr(st, ins, simp(f(a, b)))
            return
        if ins.op[0] == 'f' and ins.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fbin(st, ins, a, b)
        n = a.size()
        op = ins.op
        fl = ins.attrs
        lab = {'add': 'addition', 'sub': 'subtraction', 'mul': 'multiplication', 'shl': 'shift'}
        if fl.get('nsw') or fl.get('nuw'):
            gs = []
            if op == 'add':
                if fl.get('nsw'):
                    gs += [z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)]
                if fl.get('nuw'):
                    gs += [z3.BVAddNoOverflow(a, b, False)]
            elif op == 'sub':
                if fl.get('nsw'):
                    gs += [z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)]
                if fl.get('nuw'):
                    gs += [ULE(b, a)]
            elif op == 'mul':
                if fl.get('nsw'):
                    gs += [z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)]
                if fl.get('nuw'):
                    gs += [z3.BVMulNoOverflow(a, b, False)]
            if gs:
                self.oblige(st, And(*gs), 'overflow', 'no signed overflow in %s' % lab.get(op, op))
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, ULT(b, BV(n, n)), 'shift', 'shift amount below the width')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, b != 0, 'division', 'no division by zero')
            if op[0] == 's':
                self.oblige(st, Or(a != BV(1 << (n - 1), n), b != BV(-1, n)), 'division', 'no division overflow')
        if st.dead:
            return 'dead'
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]()
        if n == 64 and op in ('and', 'or', 'xor') and self.opts.get('tagged_pointers'):
            q = self.low_bits(st, op, a, b)
            if q is not None:
                r = q
        if op == 'mul' and n == 64 and 'product' in self.opts and not isval(a) and not isval(b):
            # a product with an inductive definition over the contract's ghosts
            q = self.opts['product'](st, a, b)
            if q is not None:
                r = q
        if 'binop' in self.opts:
            # an operation a contract knows under a name of its own
            q = self.opts['binop'](st, op, a, b)
            if q is not None:
                r = q
        if n == 64 and op in ('add', 'sub', 'mul', 'shl'):
            # pointer difference divided by the element size etc. stay linear
            r = norm(simp(r) if isval(a) and isval(b) else r)
        elif op in ('sdiv', 'udiv') and n == 64 and isval(b):
            q = self.exact_div(st, a, b, op, fl)
            r = q if q is not None else simp(r)
        else:
            r = simp(r)
        self.setr(st, ins, r)

    def low_bits(self, st, op, a, b):
        """bit operations on the low bits of an address, where these are known"""
        if isval(a):
            a, b = b, a
        if not isval(b) or isval(a):
            return None
        k = b.as_long()
        m = k if op != 'and' else ~k & ((1 << 64) - 1)
        if m > 15 and op != 'and' or op == 'and' and m > 15 and k > 15:
            return None
        mask = m if m <= 15 else k
        for v in range(16):
            if v & ~mask:
                continue
            if self.must(st, (a & BV(mask)) == v):
                if op == 'and':
                    return norm(a - BV(v)) if m <= 15 else BV(v)
                return norm(a + BV((mask & ~v) if op == 'or' else ((v ^ k) - v) & ((1 << 64) - 1)))
        return None

    def exact_div(self, st, a, b, op, fl):
        k = b.as_long()
        if k == 0:
            return None
        at, c = linear(a)
        if at and all(signed(x[1]) % k == 0 for x in at.values()) and signed(c) % k == 0:
            q = unlinear({i: (x, (signed(kk) // k) & ((1 << 64) - 1)) for i, (x, kk) in at.items()},
                         (signed(c) // k) & ((1 << 64) - 1))
            # exact when k*q does not wrap
            if op == 'sdiv':
                lim = (1 << 62) // k
                if self.must(st, And(q <= BV(lim), q >= BV(-lim))):
                    return q
            else:
                if self.must(st, ULE(q, BV(((1 << 64) - 1) // k))):
                    return q
        return None

    op_add = op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = op_shl = op_lshr = op_ashr = binop
    op_and = op_or = op_xor = op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = binop

    # floats are carried as their bit patterns
    def tofp(self, v):
        return z3.fpBVToFP(v, z3.Float32() if v.size() == 32 else z3.Float64())

    def fromfp(self, st, e):
        n = e.sort().ebits() + e.sort().sbits()
        r = fresh_bv('fp', n)
        st.assume(z3.fpBVToFP(r, e.sort()) == e)
        return r

    def fbin(self, st, ins, a, b):
        x, y = self.tofp(a), self.tofp(b)
        rm = z3.RNE()
        if ins.op == 'frem':
            raise Unsupported('frem')
        e = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y),
             'fdiv': lambda: z3.fpDiv(rm, x, y)}[ins.op]()
        self.setr(st, ins, self.fromfp(st, e))

    def op_fneg(self, st, ins):
        v = self.val(st, ins.ty, ins.args[0])
        self.setr(st, ins, simp(v ^ BV(1 << (v.size() - 1), v.size())))

    def op_icmp(self, st, ins):
        pred, ty, a0, b0 = ins.args
        a, b = self.val(st, ty, a0), self.val(st, ty, b0)
        if self.undef_use(st, a, b):
            return 'dead'
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = self.inttoptr(st, a)
            if not isinstance(b, Ptr):
                b = self.inttoptr(st, b)
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                self.setr(st, ins, simp(e if pred == 'eq' else Not(e)))
                return
            if a.obj == b.obj and a.obj is not None:
                a, b = a.off, b.off
            else:
                a, b = self.ptrtoint(st, a), self.ptrtoint(st, b)
        if z3.is_bool(a):
            a, b = If(a, BV(1, 1), BV(0, 1)), If(b, BV(1, 1), BV(0, 1))
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        self.setr(st, ins, simp(f))

    def op_fcmp(self, st, ins):
        pred, ty, a0, b0 = ins.args
        a, b = self.val(st, ty, a0), self.val(st, ty, b0)
        if self.undef_use(st, a, b):
            return 'dead'
        x, y = self.tofp(a), self.tofp(b)
        un = Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': lambda: z3.fpEQ(x, y), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y),
                'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y))}
        if pred in ('true', 'false'):
            e = z3.BoolVal(pred == 'true')
        elif pred == 'uno':
            e = un
        elif pred == 'ord':
            e = Not(un)
        elif pred[0] == 'o':
            e = And(Not(un), base[pred[1:]]())
        else:
            e = Or(un, base[pred[1:]]())
        self.setr(st, ins, simp(e))

    def op_cast(self, st, ins):
        ty, v0 = ins.args
        v = self.val(st, ty, v0)
        op = ins.op
        t2 = self.mod.resolve(ins.ty)
        if v is UNDEF:
            self.setr(st, ins, UNDEF)
            return
        if op == 'ptrtoint':
            r = self.ptrtoint(st, v, t2[1])
        elif op == 'inttoptr':
            r = self.inttoptr(st, v)
        elif op in ('bitcast', 'addrspacecast'):
            r = v
        elif op == 'trunc':
            if isinstance(v, Ptr):
                v = self.ptrtoint(st, v)
            r = simp(z3.Extract(0, 0, v) == 1) if t2 == ir.I1 else simp(z3.Extract(t2[1] - 1, 0, v))
        elif op == 'zext':
            r = simp(If(v, BV(1, t2[1]), BV(0, t2[1]))) if z3.is_bool(v) else simp(z3.ZeroExt(t2[1] - v.size(), v))
        elif op == 'sext':
            r = simp(If(v, BV(-1, t2[1]), BV(0, t2[1]))) if z3.is_bool(v) else simp(z3.SignExt(t2[1] - v.size(), v))
        elif op == 'fpext' or op == 'fptrunc':
            r = self.fromfp(st, z3.fpToFP(z3.RNE(), self.tofp(v), FPS[t2[0]][0]))
        elif op in ('sitofp', 'uitofp'):
            f = z3.fpSignedToFP if op[0] == 's' else z3.fpUnsignedToFP
            r = self.fromfp(st, f(z3.RNE(), v, FPS[t2[0]][0]))
        elif op in ('fptosi', 'fptoui'):
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            r = f(z3.RTZ(), self.tofp(v), z3.BitVecSort(t2[1]))
        self.setr(st, ins, r)

    op_trunc = op_zext = op_sext = op_fptrunc = op_fpext = op_fptoui = op_fptosi = op_uitofp = op_sitofp = op_cast
    op_ptrtoint = op_inttoptr = op_bitcast = op_addrspacecast = op_cast

    def ite(self, st, c, a, b):
        """value merge, or None when it cannot be expressed"""
        if a is b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return Ptr(a.obj, norm(a.off) if a.off.eq(b.off) else If(c, a.off, b.off), If(c, B(a.null), B(b.null)) if (a.null is not False or b.null is not False) else False)
            if a.isnull_const and b.obj is not None:
                return Ptr(b.obj, b.off, simp(Or(c, B(b.null))))
            if b.isnull_const and a.obj is not None:
                return Ptr(a.obj, a.off, simp(Or(Not(c), B(a.null))))
            return None
        if isinstance(a, (Ptr, Undef, Agg)) or isinstance(b, (Ptr, Undef, Agg)):
            return None
        return simp(If(c, a, b))

    def op_select(self, st, ins):
        c, a0, b0 = ins.args
        c = self.opnd(st, c)
        if self.undef_use(st, c):
            return 'dead'
        a, b = self.val(st, ins.ty, a0), self.val(st, ins.ty, b0)
        if istrue(c) or isfalse(c):
            self.setr(st, ins, a if istrue(c) else b)
            return
        v = self.ite(st, c, a, b)
        if v is not None:
            self.setr(st, ins, v)
            return
        s2 = st.copy()
        st.assume(c)
        self.setr(st, ins, a)
        s2.assume(Not(c))
        self.setr(s2, ins, b)
        return [s for s in (st, s2) if self.feasible(s)]

    def op_freeze(self, st, ins):
        v = self.val(st, ins.ty, ins.args[0])
        self.setr(st, ins, v)

    def op_phi(self, st, ins):
        for v, b in ins.args:
            if b == st.top.prev:
                self.setr(st, ins, self.val(st, ins.ty, v))
                return
        raise Unsupported('phi without matching predecessor')

    def op_br(self, st, ins):
        a = ins.args
        if a['cond'] is None:
            return ('goto', a['targets'][0])
        c = self.val(st, ir.I1, a['cond'])
        if self.undef_use(st, c):
            return 'dead'
        t, f = a['targets']
        if istrue(c) or t == f:
            return ('goto', t)
        if isfalse(c):
            return ('goto', f)
        s2 = st.copy()
        st.assume(c)
        s2.assume(Not(c))
        outs = []
        f1 = self.feasible(st)
        f2 = self.feasible(s2) if f1 else True
        lc = self.symbranch(st, t, f) if f1 and f2 else None
        if f1:
            outs.append((st, t))
        if f2:
            outs.append((s2, f))
        return ('branch', outs)

    def symbranch(self, st, t, f):
        """note symbolic loop exits (for constant-trip loop detection)"""
        fr = st.top
        for lc in st.active:
            if lc.uid == fr.uid and lc.mode == 'peek':
                if (t in lc.blocks) != (f in lc.blocks):
                    lc.symbolic = True

    def op_switch(self, st, ins):
        a = ins.args
        v = self.opnd(st, a['val'])
        if self.undef_use(st, v):
            return 'dead'
        outs = []
        conds = []
        for c, tgt in a['cases']:
            e = simp(v == BV(c[1], v.size())) if c[0] == 'const' else None
            if istrue(e):
                return ('goto', tgt)
            conds.append((e, tgt))
        if conds and all(isfalse(e) for e, _ in conds):
            return ('goto', a['default'])
        for e, tgt in conds:
            if isfalse(e):
                continue
            s2 = st.copy()
            s2.assume(e)
            if self.feasible(s2):
                outs.append((s2, tgt))
        st.assume(*[Not(e) for e, _ in conds])
        if self.feasible(st):
            outs.append((st, a['default']))
        return ('branch', outs)

    def op_unreachable(self, st, ins):
        self.oblige(st, FALSE, 'unreachable', 'unreachable code')
        return 'dead'

    def op_fence(self, st, ins):
        st.event('fence')
        if self.opts.get('atomic_fence'):
            self.opts['atomic_fence'](self, st, ins)

    def op_extractvalue(self, st, ins):
        v = self.opnd(st, ins.args[0])
        for i in ins.args[1]:
            v = v.vals[i]
        self.setr(st, ins, v)

    def op_insertvalue(self, st, ins):
        v, e, idx = ins.args
        v = self.opnd(st, v)
        e = self.opnd(st, e)

        def upd(a, path):
            vals = list(a.vals)
            vals[path[0]] = e if len(path) == 1 else upd(vals[path[0]], path[1:])
            return Agg(vals)
        self.setr(st, ins, upd(v, idx))

    def op_atomicrmw(self, st, ins):
        o, pv, (ty, v) = ins.args
        p = self.val(st, ir.PTR, pv)
        x = self.val(st, ty, v)
        # interference by other threads comes before each atomic step
        h = self.opts.get('atomic_rmw')
        sts = (h(self, st, ins, p, o, x) if h else None) or [st]
        outs = []
        for st in sts:
            if st.dead:
                continue
            old = self.load(st, p, ty, 'atomic update')
            if st.dead:
                continue
            if isinstance(old, Ptr) or isinstance(x, Ptr):
                new = x if o == 'xchg' else _unsup('atomic pointer arithmetic')
            else:
                new = {'add': lambda: old + x, 'sub': lambda: old - x, 'xchg': lambda: x, 'and': lambda: old & x,
                       'or': lambda: old | x, 'xor': lambda: old ^ x}[o]()
                new = simp(new)
            self.store(st, p, ty, new, 'atomic update')
            st.event('rmw', o, p, x, old, new)
            a = self.opts.get('atomic_done')
            if a:
                a(self, st, ins, p, old, new)
            self.setr(st, ins, old)
            if not st.dead:
                outs.append(st)
        return outs if len(outs) != 1 or outs[0] is not sts[0] or len(sts) > 1 else None

    def op_cmpxchg(self, st, ins):
        pv, (ty, c), (_, n) = ins.args
        p = self.val(st, ir.PTR, pv)
        c, n = self.val(st, ty, c), self.val(st, ty, n)
        h = self.opts.get('atomic_rmw')
        sts = (h(self, st, ins, p, 'cmpxchg', n) if h else None) or [st]
        outs = []
        for st in sts:
            if st.dead:
                continue
            old = self.load(st, p, ty, 'atomic update')
            if st.dead:
                continue
            eq = self.any_eq(st, old, c)
            s2 = st.copy()
            st.assume(eq)
            if self.feasible(st):
                self.store(st, p, ty, n, 'atomic update')
                st.event('cas', p, True, n, old)
                a = self.opts.get('atomic_done')
                if a:
                    a(self, st, ins, p, old, n)
                self.setr(st, ins, Agg([old, TRUE]))
                if not st.dead:
                    outs.append(st)
            if not ins.attrs.get('weak') or self.opts.get('no_spurious'):
                s2.assume(Not(eq))
            if self.feasible(s2):
                s2.event('cas', p, False, n, old)
                a = self.opts.get('atomic_fail')
                if a:
                    a(self, s2, ins, p)
                self.setr(s2, ins, Agg([old, FALSE]))
                outs.append(s2)
        return outs

    # ------------------------------------------------------------ calls
    def end_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = st.mem[oid]
            self.end_life(st, oid, drop=True)
        st.active = tuple(lc for lc in st.active if lc.uid != fr.uid)
        return fr

    def end_life(self, st, oid, drop=False):
        o = st.mem[oid]
        if isinstance(o, Cells):
            if self.stack_leak_check:
                for (nm, off), v in o.shadow.items():
                    if nm == 'live' and not isfalse(v):
                        self.oblige(st, Not(B(v)), 'lifetime', 'element in local %s destroyed before it goes away' % o.name)
        if drop:
            o = st.w(oid)
            o.live = False
            if isinstance(o, Cells):
                o.cells = {}
                o.shadow = {}

    def op_ret(self, st, ins):
        v = None if ins.args[0] is None else self.val(st, ins.args[0], ins.args[1])
        last = len(st.frames) == 1
        if last:
            st.ret = v
        fr = self.end_frame(st)
        if st.dead:
            return 'dead'
        if not last and fr.ret_ins is not None and fr.ret_ins.res is not None:
            st.top.env[fr.ret_ins.res] = v
        if fr.onret:
            v = fr.onret(self, st, v)
        return 'ret'

    def handler(self, name):
        h = self.hcache.get(name, 0)
        if h == 0:
            d = self.dem.get(name, name)
            h = None
            for pred, fn in self.handlers:
                if pred(d, name):
                    h = fn
                    break
            self.hcache[name] = h
        return h

    def op_call(self, st, ins):
        callee, args, attrs = ins.args
        if callee[0] == 'glob':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            fp = self.val(st, ir.PTR, callee)
            if fp is UNDEF:
                self.oblige(st, FALSE, 'memory', 'call through an uninitialised pointer')
                return 'dead'
            if fp.obj is not None and fp.null is not False:
                self.oblige(st, Not(fp.null), 'memory', 'call through a null function pointer')
                if st.dead:
                    return 'dead'
            o = self.known(st, fp.obj)
            if o is not None and 'method' in o.user:
                avs = [self.opnd(st, a) for a in args]
                return o.user['method'](self, st, ins, avs, o)
            if not isinstance(o, FuncObj):
                if fp.isnull_const:
                    self.oblige(st, FALSE, 'memory', 'call through a null function pointer')
                    return 'dead'
                if not self.feasible(st):
                    return 'dead'
                raise Unsupported('call through unknown pointer %s' % fp)
            name = o.name
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name, args)
        avs = [self.opnd(st, a) for a in args]
        h = self.handler(name)
        if h is not None:
            r = h(self, st, ins, avs)
            if r is not NOTHANDLED:
                return r
        f = self.mod.funcs.get(name)
        if f is None or not f.has_body:
            raise Unsupported('no contract for external function %s' % self.dem.get(name, name))
        if len(st.frames) > self.inline_depth:
            raise Unsupported('call depth')
        if any(fr.func is f for fr in st.frames) and sum(fr.func is f for fr in st.frames) > 4:
            raise Unsupported('recursion in ' + self.short(name))
        f.parse()
        self.used_funcs.add(name)
        fr = Frame(f, next(self.uid), ins)
        for (t, nm, at), a, ca in zip(f.params, avs, attrs):
            if 'byval' in at:
                # caller-side copy
                sz = self.mod.size(at['byval'])
                o = st.add(Cells('byval.' + nm, 'stack', sz))
                fr.allocas = fr.allocas + (o.id,)
                self.memcpy(st, Ptr(o.id, BV(0)), a, BV(sz))
                a = Ptr(o.id, BV(0))
            fr.env[nm] = a
        if f.vararg:
            fr.varargs = avs[len(f.params):]
        st.frames.append(fr)

    def call(self, st, fname, args, onret=None):
        """contract code: push a call of an IR function; execution continues in it"""
        f = self.mod.funcs[fname]
        f.parse()
        fr = Frame(f, next(self.uid), None)
        for (t, nm, at), a in zip(f.params, args):
            fr.env[nm] = a
        fr.onret = onret
        st.frames.append(fr)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, ins, name, args):
        n = name.split('.')
        k = n[1]
        if k == 'lifetime':
            p = self.opnd(st, args[1])
            if isinstance(p, Ptr) and p.obj is not None and isval(p.off):
                o = st.mem[p.obj]
                if n[2] == 'end':
                    self.end_life(st, p.obj)
                if isinstance(o, Cells):
                    o = st.w(p.obj)
                    o.cells = {}
                    o.shadow = {}
                    o.user = dict(o.user)
                    if n[2] == 'end':
                        o.live = False
                    else:
                        o.live = True
            return
        if k in ('dbg', 'donothing', 'experimental', 'invariant', 'prefetch', 'stacksave', 'stackrestore', 'pseudoprobe'):
            return
        avs = [self.opnd(st, a) for a in args]
        if k == 'assume':
            self.oblige(st, avs[0], 'assume', 'compiler assumption holds')
            return
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, avs[0], avs[1], avs[2], k)
            return 'dead' if st.dead else None
        if k == 'memset':
            self.memset(st, avs[0], avs[1], avs[2])
            return 'dead' if st.dead else None
        if k in ('expect', 'launder', 'strip', 'ssa'):
            if k == 'ssa':
                raise Unsupported(name)
            self.setr(st, ins, avs[0])
            return
        if k in ('ctlz', 'cttz', 'ctpop'):
            x = avs[0]
            if self.undef_use(st, x):
                return 'dead'
            w = x.size()
            if k != 'ctpop' and istrue(avs[1]):
                self.oblige(st, x != 0, 'bits', 'bit scan of a nonzero value')
            if k == 'ctlz':
                r = BV(w, w)
                for i in range(w):
                    r = If(z3.Extract(i, i, x) == 1, BV(w - 1 - i, w), r)
            elif k == 'cttz':
                r = BV(w, w)
                for i in reversed(range(w)):
                    r = If(z3.Extract(i, i, x) == 1, BV(i, w), r)
            else:
                r = BV(0, w)
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            self.setr(st, ins, simp(r))
            return
        if k in ('umax', 'umin', 'smax', 'smin'):
            a, b = avs
            c = {'umax': z3.UGE(a, b), 'umin': z3.ULE(a, b), 'smax': a >= b, 'smin': a <= b}[k]
            self.setr(st, ins, simp(z3.If(c, a, b)))
            return
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and n[2] == 'with':
            a, b = avs
            if self.undef_use(st, a, b):
                return 'dead'
            sg = k[0] == 's'
            if k[1:] == 'add':
                r, ok = a + b, And(z3.BVAddNoOverflow(a, b, sg), z3.BVAddNoUnderflow(a, b) if sg else TRUE)
            elif k[1:] == 'sub':
                r, ok = a - b, And(z3.BVSubNoOverflow(a, b) if sg else TRUE, z3.BVSubNoUnderflow(a, b, sg))
            else:
                r, ok = a * b, And(z3.BVMulNoOverflow(a, b, sg), z3.BVMulNoUnderflow(a, b) if sg else TRUE)
            self.setr(st, ins, Agg([norm(r) if r.size() == 64 else simp(r), simp(Not(ok))]))
            return
        if k == 'trap' or k == 'ubsantrap':
            self.oblige(st, FALSE, 'trap', 'trap')
            return 'dead'
        if k == 'is' and n[2] == 'constant':
            self.setr(st, ins, FALSE)
            return
        if k == 'objectsize':
            self.setr(st, ins, BV(-1, 64))
            return
        if k == 'va_start':
            from . import cxxstd
            cxxstd.va_start(self, st, avs[0], st.top.varargs or ())
            return
        if k == 'va_end':
            st.put(avs[0], 8, BV(3))
            return
        if k == 'va_copy':
            d, s = avs
            self.memcpy(st, d, s, BV(24))
            return
        if k == 'fabs':
            x = avs[0]
            self.setr(st, ins, simp(x & BV((1 << (x.size() - 1)) - 1, x.size())))
            return
        if k == 'is' and n[2] == 'fpclass':
            x = self.tofp(avs[0])
            mask = simp(avs[1]).as_long()
            c = []
            neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
            if mask & 3:
                if mask & 3 != 3:
                    raise Unsupported('signalling nan test')
                c.append(z3.fpIsNaN(x))
            for bit, e in ((2, And(z3.fpIsInf(x), neg)), (3, And(z3.fpIsNormal(x), neg)),
                           (4, And(z3.fpIsSubnormal(x), neg)), (5, And(z3.fpIsZero(x), neg)),
                           (6, And(z3.fpIsZero(x), pos)), (7, And(z3.fpIsSubnormal(x), pos)),
                           (8, And(z3.fpIsNormal(x), pos)), (9, And(z3.fpIsInf(x), pos))):
                if mask >> bit & 1:
                    c.append(e)
            self.setr(st, ins, simp(Or(*c)))
            return
        if k == 'abs':
            x = avs[0]
            self.setr(st, ins, simp(z3.If(x < 0, -x, x)))
            return
        if k == 'bswap':
            x = avs[0]
            bs = [z3.Extract(i * 8 + 7, i * 8, x) for i in range(x.size() // 8)]
            self.setr(st, ins, simp(z3.Concat(*bs)))
            return
        if k in ('fshl', 'fshr'):
            a, b, c = avs
            w = a.size()
            cat = z3.Concat(a, b)
            sh = z3.ZeroExt(w, z3.URem(c, BV(w, w)))
            r = z3.Extract(2 * w - 1, w, cat << sh) if k == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(cat, sh))
            self.setr(st, ins, simp(r))
            return
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ block memory operations
    def byte_at(self, st, o):
        """closure reading byte i (BV64) of a byte sequence"""
        return o.data[0]

    def rng(self, st, p, n, what, write=False):
        """check that [p, p+n) (n BV64, may be 0) is accessible; -> (obj, off) or None when n is 0 / dead"""
        n = simp(n)
        if isval(n) and n.as_long() == 0:
            return None
        if p is UNDEF:
            self.oblige(st, FALSE, 'memory', '%s through an uninitialised pointer' % what)
            return None
        if p.obj is None:
            p = self.resolve_raw(st, p)
            if p.obj is None:
                self.oblige(st, n == 0, 'memory', '%s through a null or unknown pointer' % what)
                return None
        if p.null is not False:
            self.oblige(st, Or(n == 0, Not(p.null)), 'memory', '%s through a possibly null pointer' % what)
        o = st.mem[p.obj]
        if not o.live:
            self.oblige(st, n == 0, 'memory', '%s of %s after its lifetime ended' % (what, o.name))
            return None
        if write and o.const:
            self.oblige(st, n == 0, 'memory', 'write to constant %s' % o.name)
            return None
        sz = o.user['extent'](self, st, o) if 'extent' in o.user else o.size
        self.oblige(st, Or(n == 0, And(ULE(p.off, sz), ULE(n, sz - p.off))), 'memory', '%s range inside %s' % (what, o.name))
        return o, p.off

    def memcpy(self, st, d, s, n, kind='memcpy'):
        n = simp(n)
        rs = self.rng(st, s, n, 'read')
        rd = self.rng(st, d, n, 'write', True)
        if rs is None or rd is None or st.dead:
            return
        so, soff = rs
        do, doff = rd
        if kind == 'memcpy' and so.id == do.id and not (isval(n) and norm(soff).eq(norm(doff))):
            self.oblige(st, Or(ULE(soff + n, doff), ULE(doff + n, soff)), 'memory', 'memcpy ranges do not overlap')
        soff, doff = norm(soff), norm(doff)
        if isinstance(so, Cells) and isinstance(do, Cells):
            if not isval(n):
                v = self.pin(st, n)
                if v is None:
                    raise Unsupported('variable-length copy between structures')
                n = v
            if not (isval(soff) and isval(doff)):
                raise Unsupported('copy at a symbolic structure offset')
            k, a, b = n.as_long(), soff.as_long(), doff.as_long()
            w = st.w(do.id)
            src = []
            for off, (m, v) in so.cells.items():
                if a <= off and off + m <= a + k:
                    src.append((off - a, m, v))
                elif off < a + k and off + m > a:
                    lo, hi = max(off, a), min(off + m, a + k)
                    src.append((lo - a, hi - lo, cell_read(so, lo, hi - lo)))
            for off in list(w.cells):
                m, v = w.cells[off]
                if b <= off and off + m <= b + k:
                    del w.cells[off]
            for off, m, v in src:
                cell_write(w, b + off, m, v)
            for off in range(0, k):
                pass
            for off, m, v in src:
                st.wr.add(('c', do.id, b + off, m))
            return
        if isinstance(so, Seq) and isinstance(do, Seq) and so.stride == 1 and do.stride == 1:
            w = st.w(do.id)
            sf = so.data[0]
            w.data[0] = w.data[0].guarded(lambda j: And(ULE(doff, j), ULT(j - doff, n)), lambda j: sf(norm(soff + (j - doff))))
            st.wr.add(('f', do.id, 0))
            return
        if isval(n) and n.as_long() <= 256:
            k = n.as_long()
            if isinstance(so, Seq) and so.stride == 1 and isinstance(do, Cells) and isval(doff):
                w = st.w(do.id)
                for i in range(k):
                    cell_write(w, doff.as_long() + i, 1, simp(so.data[0](norm(soff + BV(i)))))
                    st.wr.add(('c', do.id, doff.as_long() + i, 1))
                return
            if isinstance(so, Cells) and isinstance(do, Seq) and do.stride == 1 and isval(soff):
                w = st.w(do.id)
                for i in range(k):
                    v = cell_read(so, soff.as_long() + i, 1)
                    w.data[0] = w.data[0].store(norm(doff + BV(i)), v if v is not UNDEF else fresh_bv('undef', 8))
                st.wr.add(('f', do.id, 0))
                return
            # element-wise copy between a structure and an element of a sequence
            if isinstance(so, Seq) and isinstance(do, Cells) and isval(doff):
                r = split_index(soff, so.stride)
                if r is not None and r[1] + k <= so.stride:
                    for fo, fk in so.fields.items():
                        fn = 8 if fk[0] in ('ptr', 'link') else fk[1]
                        if r[1] <= fo and fo + fn <= r[1] + k:
                            v = self.seq_read(st, so, r[0], fo, fn)
                            o2 = doff.as_long() + fo - r[1]
                            cell_write(st.w(do.id), o2, fn, v)
                            st.wr.add(('c', do.id, o2, fn))
                    return
            if isinstance(so, Cells) and isinstance(do, Seq) and isval(soff):
                r = split_index(doff, do.stride)
                if r is not None and r[1] + k <= do.stride:
                    for fo, fk in do.fields.items():
                        fn = 8 if fk[0] in ('ptr', 'link') else fk[1]
                        if r[1] <= fo and fo + fn <= r[1] + k:
                            v = cell_read(so, soff.as_long() + fo - r[1], fn)
                            self.store_at(st, (st.mem[do.id], 'seq', r[0], fo), fn, v)
                    return
            if isinstance(so, Seq) and isinstance(do, Seq):
                r, q = split_index(soff, so.stride), split_index(doff, do.stride)
                if r and q and r[1] + k <= so.stride and q[1] + k <= do.stride:
                    for fo, fk in so.fields.items():
                        fn = 8 if fk[0] in ('ptr', 'link') else fk[1]
                        if r[1] <= fo and fo + fn <= r[1] + k:
                            v = self.seq_read(st, so, r[0], fo, fn)
                            self.store_at(st, (st.mem[do.id], 'seq', q[0], fo - r[1] + q[1]), fn, v)
                    return
        raise Unsupported('copy between %s and %s' % (so.name, do.name))

    def memset(self, st, d, v, n):
        rd = self.rng(st, d, n, 'write', True)
        if rd is None or st.dead:
            return
        o, off = rd
        n = simp(n)
        off = norm(off)
        w = st.w(o.id)
        if isinstance(o, Seq) and o.stride == 1:
            w.data[0] = w.data[0].guarded(lambda j: And(ULE(off, j), ULT(j - off, n)), lambda j: v)
            st.wr.add(('f', o.id, 0))
            return
        if isinstance(o, Cells) and isval(n) and isval(off):
            k, a = n.as_long(), off.as_long()
            # keep natural granularity: 8-byte chunks where possible
            i = 0
            while i < k:
                m = 8 if (a + i) % 8 == 0 and k - i >= 8 else (4 if (a + i) % 4 == 0 and k - i >= 4 else 1)
                cell_write(w, a + i, m, simp(z3.Concat(*[v] * m)) if m > 1 else v)
                st.wr.add(('c', o.id, a + i, m))
                i += m
            return
        raise Unsupported('memset of %s' % o.name)

    # ------------------------------------------------------------ allocation
    def new_heap(self, st, n, name, kind='heap'):
        """a fresh heap object of n (BV64) bytes; its contents are arbitrary"""
        n = simp(n)
        for h in self.alloc_hints:
            o = h(self, st, n, name)
            if o is not None:
                o.kind = kind
                st.add(o)
                return Ptr(o.id, BV(0))
        if isval(n):
            k = n.as_long()
            if k <= 4096:
                o = Cells(name, kind, k)
            else:
                o = Seq(name, kind, k, 1, {0: ('bv', 1)})
        else:
            o = Seq(name, kind, n, 1, {0: ('bv', 1)})
        st.add(o)
        return Ptr(o.id, BV(0))

    def free(self, st, p, how):
        if p is UNDEF:
            self.oblige(st, FALSE, 'memory', 'release of an uninitialised pointer')
            return
        if p.isnull_const:
            return
        if p.obj is None:
            p = self.resolve_raw(st, p)
            if p.obj is None:
                self.oblige(st, p.off == 0, 'memory', 'release of an unknown pointer')
                return
        if p.null is not False:
            raise Unsupported('release of a possibly null pointer')
        o = st.mem[p.obj]
        self.oblige(st, norm(p.off) == 0, 'memory', '%s of the start of an object' % how)
        if not o.live:
            self.oblige(st, FALSE, 'memory', '%s of %s that is already gone' % (how, o.name))
            return
        if o.kind not in ('heap', 'heap-' + how):
            self.oblige(st, FALSE, 'memory', '%s of %s which does not come from the matching allocation' % (how, o.name))
            return
        self.check_no_live(st, o, '%s of %s' % (how, o.name))
        o = st.w(p.obj)
        o.live = False
        st.wr.add(('free', o.id))
        st.event('free', o.id)

    def check_no_live(self, st, o, what):
        if isinstance(o, Cells):
            for (nm, off), v in o.shadow.items():
                if nm == 'live' and not isfalse(v):
                    self.oblige(st, Not(B(v)), 'lifetime', '%s holds no live element' % what)
        else:
            for k, f in o.shadow.items():
                if str(k).startswith('live'):
                    self.oblige(st, Q(o.tag, lambda i, f=f: Implies(ULT(i, o.n), Not(f(i)))), 'lifetime',
                                '%s holds no live element' % what)

    # ------------------------------------------------------------ loops
    def enter_loop(self, st, header, probe):
        fr = st.top
        blocks = fr.func.loops[header]
        self.tick()
        key = (fr.uid, header)
        # constant trip count?
        cnt = st.unrolls.get(key, 0)
        lim = self.opts.get('unroll', 40)
        ends = self.opts.get('ends_within')
        if ends is not None:
            # executed iteration by iteration; one that is reached beyond the limit does not end
            if cnt >= ends and self.feasible(st):
                self.oblige(st, FALSE, 'termination', 'the loop ends')
                st.dead = True
                return 'done', None
            st.unrolls[key] = cnt + 1
            st.wr.add(('unrolled',))
            return None
        if cnt < lim:
            lc = LoopCtx(fr.uid, header, blocks, fr.func)
            lc.mode = 'peek'
            lc.symbolic = False
            if self.peek_concrete(st, lc):
                st.unrolls[key] = cnt + 1
                st.wr.add(('unrolled',))
                return None
        st.unrolls.pop(key, None)
        heads = self.summarise(st, header, blocks)
        return 'fork', heads

    def peek_concrete(self, st, lc):
        """does one iteration decide every exit of this loop without a symbolic branch?"""
        s = st.copy()
        lc2 = LoopCtx(lc.uid, lc.header, lc.blocks, lc.func)
        fr = s.top
        depth = len(s.frames)
        # cheap straight-line look-ahead: execute until the first branch that leaves the loop or comes back
        steps = 0
        self.quiet += 1
        try:
            while steps < 3000:
                steps += 1
                f = s.frames[-1]
                ins = f.func.blocks[f.block][f.idx]
                if ins.op == 'br' and len(s.frames) == depth:
                    a = ins.args
                    if a['cond'] is None:
                        tgt = a['targets'][0]
                    else:
                        c = self.val(s, ir.I1, a['cond'])
                        if not (istrue(c) or isfalse(c)):
                            t, g = a['targets']
                            return False if (t in lc.blocks) != (g in lc.blocks) else False
                        tgt = a['targets'][0] if istrue(c) else a['targets'][1]
                    if tgt not in lc.blocks:
                        return True
                    if tgt == lc.header:
                        return True
                    # exit decided inside the loop? one concrete exit test suffices
                    if a['cond'] is not None and any(x not in lc.blocks for x in a['targets']):
                        return True
                    if tgt in f.func.loops:
                        return False
                    f.prev, f.block, f.idx = f.block, tgt, 0
                    continue
                if ins.op == 'br':
                    a = ins.args
                    if a['cond'] is None:
                        tgt = a['targets'][0]
                    else:
                        c = self.val(s, ir.I1, a['cond'])
                        if not (istrue(c) or isfalse(c)):
                            return False
                        tgt = a['targets'][0] if istrue(c) else a['targets'][1]
                    if tgt in f.func.loops:
                        return False
                    f.prev, f.block, f.idx = f.block, tgt, 0
                    continue
                if ins.op in ('switch',):
                    return False
                f.idx += 1
                r = getattr(self, 'op_' + ins.op)(s, ins)
                if s.dead:
                    return False
                if r is not None and r != 'ret':
                    return False
                if r == 'ret' and len(s.frames) < depth:
                    return False
            return False
        except (Unsupported, KeyError, AttributeError):
            return False
        finally:
            self.quiet -= 1

    # -- what changes in one iteration
    def shape_of(self, st, v):
        if v is UNDEF or v is None:
            return ('undef',)
        if isinstance(v, Ptr):
            if v.isnull_const:
                return ('null',)
            if v.obj is None:
                return ('raw',)
            o = self.known(st, v.obj)
            if isinstance(o, FuncObj):
                return ('exact', v.obj)
            if isinstance(o, Cells):
                a, c = linear(norm(v.off))
                if a:
                    g = 0
                    import math
                    for x, k in a.values():
                        g = math.gcd(g, abs(signed(k)))
                    return ('ptr', v.obj, c % g, g, v.null is not False)
                return ('ptrc', v.obj, c, v.null is not False)
            r = split_index(v.off, o.stride)
            if r is None:
                raise Unsupported('loop pointer with unknown stride')
            return ('ptr', v.obj, r[1], o.stride, v.null is not False)
        if isinstance(v, z3.ExprRef):
            return ('bool',) if z3.is_bool(v) else ('bv', v.size())
        if isinstance(v, Fn):
            return ('fn',)
        return ('py', v)

    def summarise(self, st, header, blocks):
        """replace st (at the loop header) by invariant states; returns the states to continue from"""
        fr = st.top
        name = '%s:%s' % (self.short(fr.func.name), header)
        entry = st
        ids = set(st.mem)
        mods = set()
        shapes = {}
        t0 = time.time()
        # ---- which locations change, and which shapes do they take
        first = None
        # (a sample of the paths of the body first, where that is asked for; the last round sees them all)
        limit = self.opts.get('sample')
        # an outermost loop: the continuation below sees every path of the body; when the sample missed
        # something, it raises Missed and everything is done again with all paths
        once = bool(limit) and not entry.active and not self.quiet and not self.opts.get('all')
        for rnd in range(24):
            heads = self.generalise(entry, mods, shapes)
            cut = False
            backs = []
            self.quiet += 1
            try:
                for h, key, cur in heads:
                    bs, c = self.probe(h, header, blocks, limit)
                    backs += bs
                    cut = cut or c
            finally:
                self.quiet -= 1
            changed = False
            if first is None:
                # the back edge after the first iteration, from the entry state itself
                first = any(self.feasible(b) for b in backs)
            for b in backs:
                if self.widen(b, len(entry.frames), ids, mods, shapes):
                    changed = True
            for w in mods:
                sh = self.shape_of(entry, self.loc_value(entry, w))
                s0 = shapes.setdefault(w, [])
                if sh not in s0:
                    s0.append(sh)
                    changed = True
            if not changed:
                if not cut or once:
                    break
                limit = None
        else:
            raise Unsupported('loop state does not stabilise: ' + name)
        if not backs:
            # never iterates a second time: no cutting needed
            lc = LoopCtx(fr.uid, header, blocks, fr.func)
            lc.mode = 'final'
            lc.depth = len(st.frames)
            lc.variants = None
            lc.key = None
            lc.cands = []
            lc.name = name
            st.active = st.active + (lc,)
            return [st]
        # ---- candidate invariants
        heads = self.generalise(entry, mods, shapes)
        cands = {}
        for h, key, cur in heads:
            cands[key] = self.candidates(entry, h, mods, cur, fr, name)
        # entry: which header state does the entry state belong to
        ekey = self.key_of(entry, mods, shapes)
        cands[ekey] = self.houdini_filter(entry, cands[ekey])
        self.quiet += 1
        it = 0
        limit = self.opts.get('sample')
        try:
            while True:
                it += 1
                cut = False
                self.tick()
                if it > 40:
                    raise Unsupported('invariant inference does not converge: ' + name)
                heads = self.generalise(entry, mods, shapes)
                dropped = False
                for h, key, cur in heads:
                    self.assume_cands(h, cands[key])
                    if not self.feasible(h):
                        continue
                    bs, c = self.probe(h, header, blocks, limit)
                    cut = cut or c
                    for b in bs:
                        bk = self.key_of(b, mods, shapes)
                        keep = self.houdini_filter(b, cands[bk])
                        if len(keep) != len(cands[bk]):
                            cands[bk] = keep
                            dropped = True
                if not dropped:
                    if not cut or once:
                        break
                    limit = None
        finally:
            self.quiet -= 1
        if self.opts.get('verbose'):
            print('  loop', name, 'mods', len(mods), 'shapes', len(heads), 'rounds', it, 'time %.1f' % (time.time() - t0))
            for k in cands:
                print('    inv', [c.name for c in cands[k]])
        self.loop_stats[name] = self.loop_stats.get(name, 0) + 1
        # ---- continue from the invariant states; the back edge is checked in final mode
        group = {'variants': None, 'name': name, 'measures': None, 'first': first}
        outs = []
        for h, key, cur in self.generalise(entry, mods, shapes):
            self.assume_cands(h, cands[key])
            if not self.feasible(h):
                continue
            lc = LoopCtx(fr.uid, header, blocks, fr.func)
            lc.depth = len(st.frames)
            lc.cands = cands
            lc.mods, lc.shapes = mods, shapes
            lc.group = group
            lc.name = name
            lc.start = {k: self.loc_value(h, k) for k in mods}
            lc.mfuncs = [(m, None) for m in self.measures] + self.loop_measures.get(name, [])
            lc.measures = [m(h) for m, _ in lc.mfuncs]
            if once:
                lc.ids = ids
                h.wr = set(mods)
            h.active = h.active + (lc,)
            outs.append(h)
        if not self.quiet:
            self.loops_done.append(group)
        return outs

    def widen(self, b, depth, ids, mods, shapes):
        """take the changes seen at the back edge b into account; anything new?"""
        changed = False
        if len(b.frames) != depth:
            raise Unsupported('loop frame mismatch')
        for w in b.wr:
            if w[0] in ('c', 'f', 's', 'sf') and w[1] not in ids:
                continue
            if w[0] == 'free':
                if w[1] in ids:
                    raise Unsupported('loop releases %s' % b.mem[w[1]].name)
                continue
            if w[0] in ('log', 'unrolled'):
                continue
            if w not in mods:
                mods.add(w)
                changed = True
        for oid, o in b.mem.items():
            if oid not in ids and o.live and o.kind.startswith('heap'):
                raise Unsupported('loop keeps allocating')
        for w in mods:
            sh = self.shape_of(b, self.loc_value(b, w))
            s0 = shapes.setdefault(w, [])
            # (a null and a pointer to T merge into maybe-null T)
            if sh not in s0:
                s0.append(sh)
                changed = True
        return changed

    def probe(self, h, header, blocks, limit=None):
        fr = h.top
        lc = LoopCtx(fr.uid, header, blocks, fr.func)
        lc.mode = 'probe'
        lc.limit = limit
        lc.depth = len(h.frames)
        lc.backs = []
        s = h.copy()
        s.wr = set()
        s.active = s.active + (lc,)
        # execute from the header block
        self.explore([s], lc.depth, lc)
        res = []
        for b in lc.backs:
            b.active = tuple(x for x in b.active if x is not lc)
            res.append(b)
        return res, lc.cut

    def loc_value(self, st, w):
        k = w[0]
        if k == 'c':
            o = st.mem.get(w[1])
            if o is None or not o.live:
                return UNDEF
            try:
                return cell_read(o, w[2], w[3])
            except Unsupported:
                return UNDEF
        if k == 'f':
            return st.mem[w[1]].data[w[2]]
        if k == 's':
            return st.mem[w[1]].shadow.get((w[2], w[3]), FALSE)
        if k == 'sf':
            return st.mem[w[1]].shadow.get(w[2]) or const_fn(FALSE)
        if k == 'g':
            return st.ghost.get(w[1])
        raise Unsupported('modified location %r' % (w,))

    def merged_shapes(self, shs):
        """-> list of header shapes for one location"""
        if ('undef',) in shs:
            return [('undef',)]
        if self.opts.get('split_null') and all(x[0] in ('null', 'ptrc') for x in shs):
            return list(shs)
        if ('null',) in shs and len(shs) > 1:
            out = []
            others = [s for s in shs if s != ('null',)]
            done = False
            for s in others:
                if s[0] in ('ptr', 'ptrc') and not done:
                    s = s[:-1] + (True,)
                    done = True
                if s not in out:
                    out.append(s)
            if not done:
                out.append(('null',))
            shs = out
        out = []
        for s in shs:
            # different constant offsets into one structure
            if s[0] == 'ptrc':
                same = [x for x in shs if x[0] == 'ptrc' and x[1] == s[1]]
                nul = any(x[3] for x in same)
                s = ('ptrc', s[1], s[2], nul)
            elif s[0] == 'ptr':
                nul = any(x[4] for x in shs if x[:4] == s[:4])
                s = s[:4] + (nul,)
            if s not in out:
                out.append(s)
        return out

    def generalise(self, entry, mods, shapes):
        """-> list of (state, key, current values)"""
        heads = [(entry.copy(), ())]
        fresh_used = {}
        for w in sorted(mods, key=str):
            shs = self.merged_shapes(shapes.get(w, []))
            if not shs:
                continue
            new = []
            for st, key in heads:
                for j, sh in enumerate(shs):
                    s = st.copy() if len(shs) > 1 else st
                    v = self.fresh_shape(s, sh, w, shapes)
                    self.set_loc(s, w, v, entry)
                    new.append((s, key + ((w, sh),) if len(shs) > 1 else key))
            heads = new
            if len(heads) > 40:
                raise Unsupported('too many loop header shapes')
        out = []
        for s, key in heads:
            s.wr = s.wr | mods
            out.append((s, key, {w: self.loc_value(s, w) for w in mods}))
        return out

    def fresh_shape(self, st, sh, w, shapes=None):
        nm = 'L%s' % '.'.join(str(x) for x in w[1:3])
        if sh[0] == 'undef':
            return UNDEF
        if sh[0] == 'null':
            return NULL
        if sh[0] == 'raw':
            return Ptr(None, fresh_bv(nm))
        if sh[0] == 'exact':
            return Ptr(sh[1], BV(0))
        if sh[0] == 'ptrc':
            return Ptr(sh[1], BV(sh[2]), fresh_bool(nm) if sh[3] else False)
        if sh[0] == 'ptr':
            k = fresh_bv(nm)
            off = norm(BV(sh[3]) * k + BV(sh[2])) if sh[3] != 1 else k
            return Ptr(sh[1], off, fresh_bool(nm) if sh[4] else False)
        if sh[0] == 'bool':
            return fresh_bool(nm)
        if sh[0] == 'bv':
            return fresh_bv(nm, sh[1])
        if sh[0] == 'fn':
            old = self.loc_value(st, w)
            so = old(BV(0))
            tag = 'i'
            if w[0] in ('f', 'sf'):
                tag = st.mem[w[1]].tag
            if w[0] == 'g':
                tag = getattr(old, 'tag', None) or self.opts.get('ghost_tags', {}).get(w[1], 'i')
            f = fresh_fn(nm, 'bool' if z3.is_bool(so) else so.size(), tag)
            f.tag = tag
            return f
        raise Unsupported('loop-carried value of kind %s at %r' % (sh, w))

    def set_loc(self, st, w, v, entry):
        k = w[0]
        if k == 'c':
            o = st.w(w[1])
            if v is UNDEF:
                cell_write(o, w[2], w[3], UNDEF)
            else:
                cell_write(o, w[2], w[3], v)
        elif k == 'f':
            st.w(w[1]).data[w[2]] = v
        elif k == 's':
            st.w(w[1]).shadow[(w[2], w[3])] = v
        elif k == 'sf':
            st.w(w[1]).shadow[w[2]] = v
        elif k == 'g':
            st.ghost[w[1]] = v

    def key_of(self, st, mods, shapes):
        key = ()
        for w in sorted(mods, key=str):
            shs = self.merged_shapes(shapes.get(w, []))
            if len(shs) > 1:
                sh = self.shape_of(st, self.loc_value(st, w))
                for c in shs:
                    if c == sh or (c[0] in ('ptr', 'ptrc') and c[:-1] == sh[:-1]):
                        key += ((w, c),)
                        break
                    if sh[0] == 'null' and c[0] in ('ptr', 'ptrc') and c[-1]:
                        key += ((w, c),)
                        break
                else:
                    raise Unsupported('loop shape not covered')
        return key

    def assume_cands(self, st, cands):
        for c in cands:
            g = c.fn(st)
            st.assume(g) if not isinstance(g, (list, tuple)) else st.assume(*g)

    def houdini_filter(self, st, cands):
        """the candidates that provably hold in st"""
        if not cands or not self.feasible(st):
            return cands
        keep = list(cands)
        goals = {}
        extra_all = []
        simple = []
        for c in keep:
            try:
                gs = conj(c.fn(st))
            except Unsupported:
                gs = [FALSE]
            parts = []
            ex = []
            for g in gs:
                if isinstance(g, Q):
                    b, vs = g.skolem()
                    ex += [(t, v) for t, v in zip(g.tags, vs)]
                    parts.append(simp(B(b)))
                else:
                    parts.append(simp(B(g)))
            goals[c] = (And(*parts), ex)
        # plain candidates together, by model-based elimination
        plain = [c for c in keep if not goals[c][1]]
        quant = [c for c in keep if goals[c][1]]
        res = set()
        alive = [c for c in plain if not istrue(goals[c][0])]
        res.update(c for c in plain if istrue(goals[c][0]))
        alive = [c for c in alive if not isfalse(goals[c][0])]
        cheap = []
        # first without facts (fast), then what is left with facts
        for facts in ([], st.facts) if st.facts else ([],):
            pend = alive if not facts else cheap
            failed = []
            while pend:
                neg = z3.Or(*[z3.Not(goals[c][0]) for c in pend])
                forms = self.prover.ground(st.pc + [neg], facts, ())
                r, m = self.prover.check(forms, 20.0, True)
                if r == 'unsat':
                    break
                if r != 'sat' or m is None:
                    # undecided together: one by one
                    pend2 = []
                    for c in pend:
                        rr, _ = self.prover.prove(st.pc, facts, goals[c][0], 5.0)
                        (pend2 if rr == 'proved' else failed).append(c)
                        if rr == 'unknown' and (facts or not st.facts):
                            self.weak = True
                    pend = pend2
                    break
                bad = [c for c in pend if not z3.is_true(m.eval(goals[c][0], model_completion=True))]
                if not bad:
                    bad = [pend[0]]
                failed += bad
                bs = set(bad)
                pend = [c for c in pend if c not in bs]
            res.update(pend)
            cheap = failed
        for c in quant:
            g, ex = goals[c]
            if istrue(g):
                res.add(c)
                continue
            prev = -1
            for rd in self.opts.get('quant_rounds', (3,)):
                forms = self.prover.ground(st.pc + [z3.Not(g)], st.facts, ex, rd)
                if len(forms) == prev:
                    break
                prev = len(forms)
                r, m = self.prover.check(forms, 25.0 if rd == 3 else 2.0)
                if r == 'unsat':
                    break
            if r == 'unsat':
                res.add(c)
            else:
                self.weak = self.weak or r == 'unknown'
                if self.opts.get('verbose', 0) > 1:
                    print('      drop', c.name, r)
        return [c for c in keep if c in res]

    def views(self, entry, mods, cur):
        """counters: (name, entry term, state -> current term (BV64), stride)"""
        out = []
        for w in sorted(cur, key=str):
            v0, v = self.loc_value(entry, w), cur[w]
            if isinstance(v, Ptr) and v.obj is not None:
                if isval(v.off):
                    continue
                e0 = v0.off if isinstance(v0, Ptr) and v0.obj == v.obj else None
                o = entry.mem[v.obj]
                st_ = o.stride if isinstance(o, Seq) else 1

                def get(s, w=w, obj=v.obj):
                    x = self.loc_value(s, w)
                    if isinstance(x, Ptr) and x.obj == obj:
                        return x.off
                    return None
                out.append((w, e0, get, st_, 'ptr', v.obj))
            elif isinstance(v, z3.BitVecRef):
                e0 = v0 if isinstance(v0, z3.BitVecRef) else None

                def get(s, w=w):
                    x = self.loc_value(s, w)
                    return x if isinstance(x, z3.BitVecRef) else None
                out.append((w, e0, get, 1, 'bv%d' % v.size(), None))
        return out

    def candidates(self, entry, head, mods, cur, fr, name):
        cs = []

        def add(nm, fn):
            cs.append(Cand(nm, fn))

        def tot(get, f):
            def g(s):
                x = get(s)
                return FALSE if x is None else f(x)
            return g
        vs = self.views(entry, mods, cur)

        def z64(e):
            return e if e.size() == 64 else z3.ZeroExt(64 - e.size(), e)
        # vocabulary of bounds
        voc = []
        for t in self.vocab:
            x = t(entry) if callable(t) else t
            if x is not None:
                voc.append(x)
        # unchanged integer and pointer locals of the current frame
        ptrvoc = []
        for oid in fr.allocas:
            o = entry.mem[oid]
            if not isinstance(o, Cells) or not o.live:
                continue
            for off, (n, v) in o.cells.items():
                if ('c', oid, off, n) in mods:
                    continue
                if isinstance(v, z3.BitVecRef) and n >= 4:
                    voc.append(v)
                elif isinstance(v, Ptr) and v.obj is not None:
                    ptrvoc.append(v)
        seen = {}
        voc2 = []
        for x in voc:
            x = simp(x)
            if x.get_id() not in seen:
                seen[x.get_id()] = 1
                voc2.append(x)
        voc = voc2[:40]
        # cells: null flags, equalities with the entry value
        for w in sorted(cur, key=str):
            v, v0 = cur[w], self.loc_value(entry, w)
            if isinstance(v, Ptr) and v.null is not False:
                def nn(s, w=w):
                    x = self.loc_value(s, w)
                    return Not(B(x.null)) if isinstance(x, Ptr) and x.obj is not None else FALSE
                add('nonnull %s' % (w,), nn)
            if isinstance(v, z3.BoolRef) and isinstance(v0, z3.BoolRef):
                add('same %s' % (w,), lambda s, w=w, v0=v0: self.loc_value(s, w) == v0)
            if isinstance(v, z3.BitVecRef) and isinstance(v0, z3.BitVecRef):
                add('same %s' % (w,), lambda s, w=w, v0=v0: self.loc_value(s, w) == v0)
        for i, (w, e0, get, sd, kind, obj) in enumerate(vs):
            nm = '.'.join(str(x) for x in w[1:3])
            if e0 is not None:
                add('%s>=entry' % nm, tot(get, lambda x, e=e0: UGE(x, e)))
                add('%s<=entry' % nm, tot(get, lambda x, e=e0: ULE(x, e)))
                if kind.startswith('bv'):
                    add('%s s>=entry' % nm, tot(get, lambda x, e=e0: x >= e))
                    add('%s s<=entry' % nm, tot(get, lambda x, e=e0: x <= e))
            if kind == 'ptr':
                o = entry.mem[obj]
                add('%s<=size' % nm, tot(get, lambda x, o=o: ULE(x, o.size)))
                if isinstance(o, Seq) and o.stride > 1:
                    # element index bounds (no wrap-around of index*stride)
                    add('%s idx<=n' % nm, tot(get, lambda x, o=o: (lambda r: ULE(r[0], o.n) if r else FALSE)(split_index(x, o.stride))))
                    add('%s idx<n' % nm, tot(get, lambda x, o=o: (lambda r: ULT(r[0], o.n) if r else FALSE)(split_index(x, o.stride))))
                for pv in ptrvoc:
                    if pv.obj == obj:
                        add('%s<=ptr' % nm, tot(get, lambda x, t=pv.off: ULE(x, t)))
                        add('%s>=ptr' % nm, tot(get, lambda x, t=pv.off: UGE(x, t)))
            else:
                n = int(kind[2:])
                for k in (0, 1):
                    add('%s>=%d' % (nm, k), tot(get, lambda x, k=k: UGE(x, BV(k, x.size()))))
                    add('%s s>=%d' % (nm, k), tot(get, lambda x, k=k: x >= BV(k, x.size())))
                    add('%s<=%d' % (nm, k), tot(get, lambda x, k=k: ULE(x, BV(k, x.size()))))
            for t in voc:
                if kind == 'ptr' and t.size() == 64:
                    add('%s<=%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: ULE(x, t)))
                    add('%s<%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: ULT(x, t)))
                    if e0 is not None:
                        add('%s-e<=%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t, e=e0: ULE(x - e, t)))
                        add('%s-e<%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t, e=e0: ULT(x - e, t)))
                elif kind == 'bv%d' % t.size():
                    add('%s<=%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: ULE(x, t)))
                    add('%s<%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: ULT(x, t)))
                    add('%s>=%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: UGE(x, t)))
                    if t.size() == 32:
                        add('%s s<=%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: x <= t))
                elif kind.startswith('bv') and t.size() == 64 and kind != 'bv8':
                    add('zx%s<=%s' % (nm, str(t)[:20]), tot(get, lambda x, t=t: ULE(z64(x), t)))
            for j, (w2, f0, get2, sd2, kind2, obj2) in enumerate(vs):
                if j == i:
                    continue
                nm2 = '.'.join(str(x) for x in w2[1:3])

                def rel(f, get=get, get2=get2):
                    def g(s):
                        a, b = get(s), get2(s)
                        if a is None or b is None:
                            return FALSE
                        return f(a, b)
                    return g
                w1_, w2_ = (64 if kind == 'ptr' else int(kind[2:])), (64 if kind2 == 'ptr' else int(kind2[2:]))
                if w1_ < 16 or w2_ < 16:
                    continue
                if j > i and e0 is not None and f0 is not None:
                    for ka, kb in {(1, 1), (sd, 1), (1, sd2), (sd2, sd), (sd, sd2)}:
                        add('d%s*%d==d%s*%d' % (nm, ka, nm2, kb), rel(lambda a, b, e=e0, f=f0, ka=ka, kb=kb:
                            (z64(a) - z64(e)) * BV(ka) == (z64(b) - z64(f)) * BV(kb)))
                    add('d%s==-d%s' % (nm, nm2), rel(lambda a, b, e=e0, f=f0: (z64(a) - z64(e)) == (z64(f) - z64(b))))
                if w1_ == w2_ and (obj == obj2):
                    add('%s<=%s' % (nm, nm2), rel(lambda a, b: ULE(a, b)))
                    add('%s<%s' % (nm, nm2), rel(lambda a, b: ULT(a, b)))
                    add('%s==%s' % (nm, nm2), rel(lambda a, b: a == b))
        # frames of modified sequences
        seqs = [w for w in mods if w[0] in ('f', 'sf') or (w[0] == 'g' and isinstance(cur.get(w), Fn))]
        terms = self.index_views(entry, vs)
        for w in seqs:
            e = self.loc_value(entry, w)
            if e is None:
                continue
            tag = entry.mem[w[1]].tag if w[0] in ('f', 'sf') else (getattr(cur[w], 'tag', None) or 'i')
            for tn, tf in terms:
                for side in ('below', 'above'):
                    def fn(s, w=w, e=e, tf=tf, side=side, tag=tag):
                        t = tf(s)
                        c = self.loc_value(s, w)
                        if t is None or c is None:
                            return FALSE
                        if side == 'below':
                            return Q(tag, lambda i: Implies(ULT(i, t), c(i) == e(i)), 'frame')
                        return Q(tag, lambda i: Implies(UGE(i, t), c(i) == e(i)), 'frame')
                    add('frame %s %s %s' % (w[1:], side, tn), fn)
        ms = []
        for spec in self.loop_specs:
            lv = LoopView(self, entry, mods, cur, fr, name, vs, terms)
            for c in spec(self, entry, lv):
                cs.append(c)
            ms += lv.measures
        self.loop_measures[name] = ms
        if 'candidates' in self.opts:
            # which candidates a contract has use for in this loop (fewer only prove less)
            cs = [c for c in cs if self.opts['candidates'](mods, c.name)]
        return cs

    def index_views(self, entry, vs):
        """BV64 terms that count progress: (name, state -> term)"""
        terms = []
        for (w, e0, get, sd, kind, obj) in vs:
            nm = '.'.join(str(x) for x in w[1:3])
            if kind == 'bv8':
                continue

            def idx(s, get=get, sd=sd, kind=kind):
                x = get(s)
                if x is None:
                    return None
                if kind == 'ptr':
                    if sd != 1:
                        r = split_index(x, sd)
                        return r[0] if r else None
                    return x
                return x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x)
            terms.append((nm, idx))
            if e0 is not None and not (isval(e0) and e0.as_long() == 0):
                def dl(s, get=get, sd=sd, kind=kind, e0=e0):
                    x = get(s)
                    if x is None:
                        return None
                    if sd != 1:
                        r = split_index(norm(x - e0), sd)
                        return r[0] if r else None
                    d = x - e0
                    return norm(d) if d.size() == 64 else z3.ZeroExt(64 - d.size(), d)
                terms.append(('d' + nm, dl))

                def ng(s, get=get, sd=sd, kind=kind, e0=e0):
                    x = get(s)
                    if x is None or sd != 1:
                        return None
                    d = e0 - x
                    return norm(d) if d.size() == 64 else z3.ZeroExt(64 - d.size(), d)
                terms.append(('n' + nm, ng))
        return terms

    def final_back(self, st, lc):
        """a back edge of a loop whose invariant is being used: preservation and progress"""
        if lc.key is None and not hasattr(lc, 'group'):
            raise Unsupported('unexpected back edge')
        if self.quiet:
            return
        if not self.feasible(st):
            return
        if lc.ids is not None and self.widen(st, lc.depth, lc.ids, lc.mods, lc.shapes):
            raise Missed(lc.name)
        key = self.key_of(st, lc.mods, lc.shapes)
        for c in lc.cands[key]:
            pass      # preservation was established by the filter on exactly these paths; recorded below
        ok = self.houdini_filter(st, lc.cands[key])
        if lc.ids is not None and len(ok) != len(lc.cands[key]):
            raise Missed(lc.name)
        ob = Obligation('loop invariant preserved (%d conjuncts)' % len(lc.cands[key]), 'invariant', lc.name)
        ob.status = 'proved' if len(ok) == len(lc.cands[key]) else 'unknown'
        if ob.status != 'proved':
            ob.detail = ', '.join(c.name for c in lc.cands[key] if c not in ok)
            ob.state = st.copy()
        self.obligations.append(ob)
        # progress
        g = lc.group
        cand = []
        for w, v0 in lc.start.items():
            v = self.loc_value(st, w)
            a = b = None
            if isinstance(v0, Ptr) and isinstance(v, Ptr) and v0.obj == v.obj and v.obj is not None:
                a, b = v0.off, v.off
            elif isinstance(v0, z3.BitVecRef) and isinstance(v, z3.BitVecRef) and v0.size() == v.size():
                a, b = v0, v
            if a is None or a.eq(b):
                continue
            cand.append((w, 'inc', ULT(a, b)))
            cand.append((w, 'dec', ULT(b, a)))
        for i, m0 in enumerate(lc.measures):
            if m0 is None:
                continue
            m1 = lc.mfuncs[i][0](st)
            if m1 is None:
                continue
            if lc.mfuncs[i][1] is not None:
                # a well-founded relation of the contract
                cand.append((('m', i), 'dec', lc.mfuncs[i][1](m1, m0)))
                continue
            if isinstance(m0, tuple):
                e = FALSE
                for x, y in reversed(list(zip(m0, m1))):
                    e = Or(ULT(y, x), And(x == y, e))
                cand.append((('m', i), 'dec', e))
            else:
                cand.append((('m', i), 'dec', ULT(m1, m0)))
        prev = g['variants']
        ok = set()
        for w, d, e in cand:
            if prev is not None and (w, d) not in prev:
                continue
            if self.must(st, e, 5.0):
                ok.add((w, d))
        g['variants'] = ok
        g['back'] = True

    def finish_loops(self):
        for g in self.loops_done:
            if g.get('first') and not g.get('back') and not any(o.status != 'proved' for o in self.obligations):
                # the entry state satisfies the invariant, so its first iteration must be seen here too
                raise Unsupported('the invariant of %s excludes an iteration that happens' % g['name'])
            if g.get('back') and not g.get('checked'):
                g['checked'] = True
                if self.no_term:
                    continue
                ob = Obligation('loop terminates', 'termination', g['name'])
                ob.status = 'proved' if g['variants'] else 'unknown'
                self.obligations.append(ob)


class LoopView:
    """what a loop template may look at"""

    def __init__(self, ex, entry, mods, cur, fr, name, counters, terms):
        self.ex, self.entry, self.mods, self.cur, self.frame, self.name = ex, entry, mods, cur, fr, name
        self.counters, self.terms = counters, terms
        self.measures = []      # (state -> value, (after, before) -> Bool): values go down in a well-founded order

    def modifies(self, oid, field=0):
        return ('f', oid, field) in self.mods

    def ghost_modified(self, k):
        return ('g', k) in self.mods


NOTHANDLED = object()


def bytes_fn(data):
    def at(i):
        if isval(i):
            k = i.as_long()
            return BV(data[k] if k < len(data) else 0, 8)
        r = BV(0, 8)
        for k in reversed(range(len(data))):
            r = If(i == k, BV(data[k], 8), r)
        return r
    return Fn(at)
