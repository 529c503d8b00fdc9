"""Terms, quantified facts and the solver interface.

All program data are bit-vectors.  Arrays are Python closures over uninterpreted functions; universally quantified
facts are kept outside the solver and instantiated at the index terms that occur in a query, so every query the
solver sees is quantifier free."""
import itertools
import os
import re
import subprocess
import tempfile
import time
import z3

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_fresh = itertools.count()


def fresh_name(p):
    return '%s!%d' % (p, next(_fresh))


def BV(v, n=64):
    return z3.BitVecVal(v, n)


def fresh_bv(p, n=64):
    return z3.BitVec(fresh_name(p), n)


def fresh_bool(p):
    return z3.Bool(fresh_name(p))


def isval(e):
    return z3.is_bv_value(e)


_KEEP = (z3.BoolVal(True), z3.BoolVal(False))
_T, _F = (x.get_id() for x in _KEEP)


def istrue(e):
    return e is True or (isinstance(e, z3.ExprRef) and e.get_id() == _T)


def isfalse(e):
    return e is False or (isinstance(e, z3.ExprRef) and e.get_id() == _F)


def B(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def simp(e):
    return z3.simplify(e)


def And(*xs):
    xs = [x for x in xs if not istrue(x)]
    if any(isfalse(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return B(xs[0])
    return z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not isfalse(x)]
    if any(istrue(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return B(xs[0])
    return z3.Or(*xs)


def Not(x):
    if istrue(x):
        return FALSE
    if isfalse(x):
        return TRUE
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return B(a) == B(b)


def If(c, a, b):
    if istrue(c):
        return a
    if isfalse(c):
        return b
    if isinstance(a, bool):
        a = B(a)
    if isinstance(b, bool):
        b = B(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def ULT(a, b):
    return simp2(z3.ULT(a, b), a, b)


def ULE(a, b):
    return simp2(z3.ULE(a, b), a, b)


def UGT(a, b):
    return simp2(z3.UGT(a, b), a, b)


def UGE(a, b):
    return simp2(z3.UGE(a, b), a, b)


def simp2(e, a, b):
    if isval(a) and isval(b):
        return z3.simplify(e)
    return e


# ------------------------------------------------------------------ linear forms over BV64 offsets
def linear(e):
    """-> (dict id -> (atom, coeff), const) modulo 2**n"""
    n = e.size()
    mask = (1 << n) - 1
    atoms = {}
    const = 0
    st = [(e, 1)]
    while st:
        x, k = st.pop()
        if z3.is_bv_value(x):
            const += k * x.as_long()
            continue
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for c in x.children():
                st.append((c, k))
            continue
        if d == z3.Z3_OP_BSUB:
            ch = x.children()
            st.append((ch[0], k))
            for c in ch[1:]:
                st.append((c, -k))
            continue
        if d == z3.Z3_OP_BNEG:
            st.append((x.children()[0], -k))
            continue
        if d == z3.Z3_OP_BMUL:
            ch = x.children()
            cs = [c for c in ch if z3.is_bv_value(c)]
            if len(cs) == len(ch):
                kk = k
                for c in cs:
                    kk *= c.as_long()
                const += kk
                continue
            if len(cs) == len(ch) - 1:
                kk = k
                for c in cs:
                    kk *= c.as_long()
                o = [c for c in ch if not z3.is_bv_value(c)][0]
                st.append((o, kk & mask if kk >= 0 else -((-kk) & mask)))
                continue
        if d == z3.Z3_OP_BSHL:
            a, b = x.children()
            if z3.is_bv_value(b):
                st.append((a, k << b.as_long()))
                continue
        if d == z3.Z3_OP_CONCAT:
            # concat(extract(n-k-1,0,x), 0^k): a left shift
            ch = x.children()
            if len(ch) == 2 and z3.is_bv_value(ch[1]) and ch[1].as_long() == 0 and \
                    ch[0].decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = ch[0].params()
                inner = ch[0].children()[0]
                if lo == 0 and inner.size() == n:
                    st.append((inner, k << ch[1].size()))
                    continue
        i = x.get_id()
        if i in atoms:
            atoms[i] = (x, atoms[i][1] + k)
        else:
            atoms[i] = (x, k)
    out = {}
    for i, (x, k) in atoms.items():
        k &= mask
        if k:
            out[i] = (x, k)
    return out, const & mask


def unlinear(atoms, const, n=64):
    e = None
    for i in sorted(atoms):
        x, k = atoms[i]
        t = x if k == 1 else BV(k, n) * x
        e = t if e is None else e + t
    if e is None:
        return BV(const, n)
    if const:
        e = e + BV(const, n)
    return e


def norm(e):
    if isval(e):
        return e
    a, c = linear(e)
    return unlinear(a, c, e.size())


def signed(v, n=64):
    return v - (1 << n) if v >> (n - 1) else v


def split_index(off, stride):
    """off = index*stride + c with 0 <= c < stride, from its linear form; None when not possible."""
    if stride == 1:
        return off, 0
    a, c = linear(off)
    ia = {}
    for i, (x, k) in a.items():
        ks = signed(k)
        if ks % stride:
            return None
        ia[i] = (x, (ks // stride) & ((1 << 64) - 1))
    cs = signed(c)
    q, r = divmod(cs, stride)
    return unlinear(ia, q & ((1 << 64) - 1)), r


# ------------------------------------------------------------------ functions (symbolic arrays)
UFTAG = {}     # decl name -> tuple of tags, one per argument


class Fn:
    """total function from index to value"""
    def __init__(self, at):
        self.at = at

    def __call__(self, i):
        return self.at(i)

    def store(self, i, v):
        old = self.at

        def at(j):
            return If(i == j if not (isval(i) and isval(j)) else z3.BoolVal(i.as_long() == j.as_long()), v, old(j))
        return Fn(at)

    def guarded(self, pred, val):
        """pred(j) ? val(j) : old(j)"""
        old = self.at
        return Fn(lambda j: If(pred(j), val(j), old(j)))


def fresh_fn(name, sort, tag='i', argsort=64):
    nm = fresh_name(name)
    rng = z3.BoolSort() if sort == 'bool' else z3.BitVecSort(sort)
    f = z3.Function(nm, z3.BitVecSort(argsort), rng)
    UFTAG[nm] = (tag,)
    r = Fn(lambda i: f(i))
    r.base = f
    return r


def const_fn(v):
    return Fn(lambda i: v)


def fresh_fn2(name, sort, tags, argsorts=(64, 64)):
    nm = fresh_name(name)
    rng = z3.BoolSort() if sort == 'bool' else z3.BitVecSort(sort)
    f = z3.Function(nm, *[z3.BitVecSort(a) for a in argsorts], rng)
    UFTAG[nm] = tuple(tags)
    return f


def mark_tags(f, tags):
    UFTAG[f.name()] = tuple(tags)


class Q:
    """forall vars (with tags and widths): body"""
    def __init__(self, tags, body, name='', widths=None):
        self.tags = (tags,) if isinstance(tags, str) else tuple(tags)
        self.body = body
        self.name = name
        self.widths = widths or (64,) * len(self.tags)
        self.cache = {}

    def inst(self, args):
        k = tuple(a.get_id() for a in args)
        r = self.cache.get(k)
        if r is None:
            r = (self.body(*args), args)
            self.cache[k] = r
        return r[0]

    def skolem(self):
        vs = [fresh_bv('sk', w) for w in self.widths]
        return self.body(*vs), vs


def conj(*xs):
    """several goals/facts as a list"""
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(conj(*x))
        else:
            out.append(x)
    return out


_terms_cache = {}


def index_terms(e):
    """tag -> {id: term} of arguments of tagged functions occurring in e"""
    eid = e.get_id()
    r = _terms_cache.get(eid)
    if r is not None and r[1].eq(e):
        return r[0]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                tags = UFTAG.get(d.name())
                if tags:
                    for t, a in zip(tags, x.children()):
                        if t:
                            out.setdefault(t, {})[a.get_id()] = a
            st.extend(x.children())
    _terms_cache[eid] = (out, e)
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backends = {}
        self.btime = {}

    def hit(self, name, dt):
        self.backends[name] = self.backends.get(name, 0) + 1
        self.btime[name] = self.btime.get(name, 0.0) + dt


def find_tool(*names):
    for n in names:
        for d in os.environ.get('PATH', '').split(':') + ['/usr/local/bin', '/usr/bin', '/opt/veriftools/bin']:
            if d and os.path.exists(os.path.join(d, n)):
                return os.path.join(d, n)


CVC5 = find_tool('cvc5')
Z3 = find_tool('z3-new', 'z3')


TACTIC = '(check-sat-using (then simplify propagate-values solve-eqs smt))'


def hard_ops(fs):
    """does a formula multiply or divide two variables?"""
    seen = set()
    st = list(fs)
    bad = {z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I,
           z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BMUL}
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() in bad and x.size() >= 32 and sum(not z3.is_bv_value(c) for c in x.children()) >= 2:
                return True
            st.extend(x.children())
    return False


def run_smt(smt, cmd):
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(smt)
        return subprocess.Popen(cmd + [fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True), fn
    except OSError:
        os.unlink(fn)
        raise


class Prover:
    def __init__(self, timeout=20.0, rounds=2, max_inst=4000):
        self.timeout = timeout
        self.rounds = rounds
        self.max_inst = max_inst
        self.stats = Stats()
        self.dump = None
        self.deadline = None

    def ground(self, hyps, facts, extra=(), rounds=None):
        """instantiate facts at the terms of hyps (+ extra {tag:[terms]})"""
        if not facts:
            return list(hyps)
        pool = {}

        def add(e):
            new = False
            for t, d in index_terms(e).items():
                p = pool.setdefault(t, {})
                for k, v in d.items():
                    if k not in p:
                        p[k] = v
                        new = True
            return new
        for h in hyps:
            add(h)
        for t, v in extra:
            pool.setdefault(t, {})[v.get_id()] = v
        out = list(hyps)
        done = set()
        n = 0
        for r in range(rounds or self.rounds):
            newf = []
            for qi, q in enumerate(facts):
                lists = []
                for t, w in zip(q.tags, q.widths):
                    lists.append([x for x in pool.get(t, {}).values() if x.size() == w])
                if not all(lists):
                    continue
                for args in itertools.product(*lists):
                    k = (qi,) + tuple(a.get_id() for a in args)
                    if k in done:
                        continue
                    done.add(k)
                    f = q.inst(args)
                    if istrue(f):
                        continue
                    newf.append(f)
                    n += 1
                    if n > self.max_inst:
                        break
                if n > self.max_inst:
                    break
            if not newf:
                break
            out.extend(newf)
            ch = False
            for f in newf:
                if add(f):
                    ch = True
            if not ch or n > self.max_inst:
                break
        return out

    def solver(self, timeout):
        s = z3.Solver()
        s.set('timeout', int(max(50, timeout * 1000)))
        return s

    def check(self, forms, timeout=None, want_model=False):
        """-> ('sat'|'unsat'|'unknown', model)"""
        fs = []
        for f in forms:
            if istrue(f):
                continue
            if isfalse(f):
                return 'unsat', None
            fs.append(f)
        t0 = time.time()
        to = timeout or self.timeout
        if self.deadline is not None:
            to = min(to, max(0.05, self.deadline - t0))
        s = z3.SimpleSolver()
        s.set('timeout', int(max(50, min(to, 0.5) * 1000)))
        s.add(*fs)
        r = s.check()
        if r == z3.unknown and to > 0.5:
            s = self.solver(min(to, 1.0))
            s.add(*fs)
            r = s.check()
        m = s.model() if r == z3.sat and want_model else None
        self.stats.queries += 1
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.hit('z3', dt)
        if self.dump:
            self.dump(s, r)
        if r == z3.unknown and want_model is not True and to <= 2:
            t1 = time.time()
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            s2.set('timeout', int(max(50, min(to, 2.0) * 1000)))
            s2.add(*fs)
            r = s2.check()
            dt = time.time() - t1
            self.stats.time += dt
            self.stats.hit('z3 with equation solving', dt)
        if r == z3.unknown and to > 2:
            r = self.portfolio(s, fs, to)
            if r == 'sat' and want_model is True:
                s.set('timeout', int(to * 1000))
                if s.check() == z3.sat:
                    m = s.model()
        return str(r), m

    def portfolio(self, s, fs, to):
        """cvc5 with bit-vectors solved as integers, cvc5 by bit-blasting, and z3, next to each other"""
        t0 = time.time()
        smt = '(set-logic ALL)\n' + re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', s.to_smt2())
        ps = []
        try:
            tl = '--tlimit=%d' % int(to * 1000)
            for nm, cmd in (('cvc5 --solve-bv-as-int=sum', [CVC5, tl, '--solve-bv-as-int=sum']),
                            ('cvc5 --bv-solver=bitblast', [CVC5, tl, '--bv-solver=bitblast']),
                            ('z3 with equation solving', [Z3, '-T:%d' % int(to + 1)])):
                if cmd[0]:
                    ps.append(run_smt(smt if 'z3' not in nm else smt.replace('(check-sat)', TACTIC), cmd) + (nm,))
            while time.time() - t0 < to + 1:
                done = True
                for p, fn, nm in ps:
                    if p.poll() is None:
                        done = False
                        continue
                    if getattr(p, 'answer', None) is None:
                        p.answer = (p.stdout.read() or '').strip().split('\n')[0]
                        if p.answer in ('sat', 'unsat'):
                            self.stats.hit(nm, time.time() - t0)
                            return p.answer
                if done:
                    break
                time.sleep(0.02)
            return 'unknown'
        finally:
            self.stats.time += time.time() - t0
            for p, fn, nm in ps:
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdout.close()
                os.unlink(fn)

    def prove(self, hyps, facts, goal, timeout=None, rounds=None):
        """goal: Bool or Q.  -> ('proved'|'refuted'|'unknown', model)"""
        extra = []
        if isinstance(goal, Q):
            g, vs = goal.skolem()
            extra = [(t, v) for t, v in zip(goal.tags, vs)]
        else:
            g = B(goal)
        g = simp(g)
        if istrue(g):
            return 'proved', None
        ng = z3.Not(g)
        forms = self.ground(list(hyps) + [ng], facts, extra, rounds)
        r, m = self.check(forms, timeout, True)
        if r == 'unsat':
            return 'proved', None
        if r == 'sat':
            return 'refuted', m
        return 'unknown', None
