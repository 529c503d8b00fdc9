"""C15: HashMap and HashSet forward keys, values and state faithfully.

The map and the set are checked against the contracts of the hash table's operations (discharged by C11-C14): a lookup gives
the slot of its key, or a slot without element where the key is absent; making room before an addition either fails and
changes nothing, or leaves the table as it is, or moves everything to other storage."""
from kv.lib import *
from kv.harness import Targets
KEY = z3.Function('KEY', z3.BitVecSort(64), z3.BitVecSort(64))
CH = z3.Function('CH', z3.BitVecSort(64), z3.BitVecSort(32))
HASH = z3.Function('HASH', z3.BitVecSort(64), z3.BitVecSort(32))
key, val = TokSpec('Key', 8), TokSpec('Val', 8)
C = Contracts()
CXXFLAGS = ['-Wno-invalid-offsetof']
CONTRACTS = [key.ct, val.ct, C]
TABLE = r'(^|\s)ke::HashTable<ke::Hash(Map|Set)<[^()]*>::Policy, AP>::'


def W(v):
    return BV(v, 32)


def key_of(ex, st, p, cls):
    """the key a lookup value stands for"""
    if cls == 'unsigned long':
        k = ex.load(st, p, ir.I64)
        return None if st.dead else k
    v = key.read(ex, st, p, 'lookup')
    return None if st.dead else KEY(v)


def callee(ex, ins):
    return ex.dem[ins.args[0][1]]


@C.on(rx(r'^AP::AP\((AP const&|AP&&)?\)$'), 'allocator policy construction: takes the state of its source')
def ap_ctor(ex, st, ins, av):
    v = ex.load(st, av[1], ir.I64) if len(av) > 1 else BV(0xA110C)
    if st.dead:
        return 'dead'
    ex.store(st, av[0], ir.I64, v)
    return 'dead' if st.dead else None


@C.on(rx(r'^HP::hash\((unsigned long|Key) const&\)$'), 'policy hash: some function of the key')
def hp_hash(ex, st, ins, av):
    k = key_of(ex, st, av[0], callee(ex, ins).split('(')[1].split(' const')[0])
    if k is None:
        return 'dead'
    ex.setr(st, ins, HASH(k))


@C.on(rx(r'^HP::matches\((unsigned long|Key) const&, Key const&\)$'), 'policy matches: called with a live key; true exactly for that key')
def hp_matches(ex, st, ins, av):
    k = key_of(ex, st, av[0], callee(ex, ins).split('(')[1].split(' const')[0])
    if k is None:
        return 'dead'
    v = key.read(ex, st, av[1], 'comparison')
    if st.dead:
        return 'dead'
    ex.setr(st, ins, KEY(v) == k)


def same_table(ex, st, p, what):
    g = st.ghost['box']
    ok = isinstance(p, Ptr) and p.obj == g.p.obj
    ex.oblige(st, And(z3.BoolVal(ok), norm(p.off) == norm(g.p.off + g.off) if ok else FALSE), 'pre', '%s: the table of the %s' % (what, g.kind))
    return not st.dead


@C.on(rx(TABLE + r'(find|lookup)<[^()]*>\('), 'table find (C11): the entry of the key, or an entry that holds no element')
def t_find(ex, st, ins, av):
    cls = re.search(r'>::(?:find|lookup)<([^()]*)>\(', callee(ex, ins)).group(1)
    if not same_table(ex, st, av[0], 'find'):
        return 'dead'
    k = key_of(ex, st, av[1], cls)
    if k is None:
        return 'dead'
    g = st.ghost['box']
    ex.oblige(st, k == g.k, 'pre', 'the key looked up is the one given')
    if st.dead:
        return 'dead'
    st.event('find')
    ex.setr(st, ins, st.ghost['entry'])


@C.on(rx(TABLE + r'(findForAdd|lookupForAdd)<[^()]*>\('), 'table findForAdd (C12): the entry of the key, or a place for it')
def t_findadd(ex, st, ins, av):
    cls = re.search(r'>::(?:findForAdd|lookupForAdd)<([^()]*)>\(', callee(ex, ins)).group(1)
    if not same_table(ex, st, av[0], 'findForAdd'):
        return 'dead'
    k = key_of(ex, st, av[1], cls)
    if k is None:
        return 'dead'
    g = st.ghost['box']
    ex.oblige(st, k == g.k, 'pre', 'the key looked up is the one given')
    if st.dead:
        return 'dead'
    st.assume(UGE(CH(k), 2))
    ex.setr(st, ins, Agg([st.ghost['entry'], CH(k)]))


@C.on(rx(TABLE + r'checkDensity\(\)'), 'table checkDensity (C14): failure and no change, or room in the same storage, or everything in other storage')
def t_density(ex, st, ins, av):
    if not same_table(ex, st, av[0], 'checkDensity'):
        return 'dead'
    g = st.ghost['box']
    s2, s3 = st.copy(), st.copy()
    ex.setr(s2, ins, FALSE)
    s2.event('allocfail')
    ex.setr(st, ins, TRUE)
    ex.setr(s3, ins, TRUE)
    cap = fresh_bv('new capacity', 32)
    s3.assume(cap != s3.get(g.p, 4, g.off + g.c['cap']))
    s3.put(g.p, 4, cap, g.off + g.c['cap'])
    s3.put(g.p, 4, W(0), g.off + g.c['ndel'])
    s3.w(s3.ghost['entry'].obj).live = False
    s3.ghost['resized'] = True
    return [st, s2, s3]


@C.on(rx(TABLE + r'insertUnique\(unsigned int\)$'), 'table insertUnique (C14): a free entry for the hash')
def t_unique(ex, st, ins, av):
    if not same_table(ex, st, av[0], 'insertUnique'):
        return 'dead'
    ex.oblige(st, And(z3.BoolVal(bool(st.ghost.get('resized'))), av[1] == CH(st.ghost['box'].k)), 'pre', 'insertUnique: the hash of the key, in a table without removed entries')
    if st.dead:
        return 'dead'
    st.ghost['entry'] = st.ghost['box'].make_entry(st, W(0), FALSE)
    ex.setr(st, ins, Agg([st.ghost['entry'], av[1]]))


@C.on(rx(TABLE + r'init\(unsigned long\)$'), 'table init (C14): storage of that capacity from the table\'s allocator, or failure')
def t_init(ex, st, ins, av):
    if not same_table(ex, st, av[0], 'init'):
        return 'dead'
    r = fresh_bool('init ok')
    st.event('init', av[1], r, ex.load(st, av[0], ir.I64))
    ex.setr(st, ins, r)


@C.on(rx(TABLE + r'clear\(\)$'), 'table clear (C13): no elements are left')
def t_clear(ex, st, ins, av):
    if not same_table(ex, st, av[0], 'clear'):
        return 'dead'
    g = st.ghost['box']
    st.event('clear')
    st.put(g.p, 4, W(0), g.off + g.c['nel'])
    st.put(g.p, 4, W(0), g.off + g.c['ndel'])


@C.on(rx(TABLE + r'~HashTable\(\)$'), 'table destruction (C14)')
def t_end(ex, st, ins, av):
    if not same_table(ex, st, av[0], 'destruction'):
        return 'dead'
    st.event('end')


@C.on(rx(TABLE + r'iterator::iterator\(ke::HashTable<'), 'table iterator (C13): at the first element of that table')
def t_iter(ex, st, ins, av):
    if not same_table(ex, st, av[1], 'iteration'):
        return 'dead'
    a = ex.access(st, av[0], st.ghost['box'].h.const('cm_it'), 'iterator', True)
    if a is None or st.dead:
        return 'dead'
    st.event('iter', av[0])


class Box:
    """an arbitrary map or set, seen through its answer for one key"""

    def __init__(self, h, kind):
        self.h, self.kind = h, kind
        self.pre = p = {'map': 'cm_', 'set': 'cs_'}[kind]
        c = h.const
        self.size, self.off, self.entry_size, self.t, self.hoff = c(p + 'size'), c(p + 'table'), c(p + 'entry'), c(p + 't'), c(p + 'h')
        self.kvs = [(key, c('cm_key')), (val, c('cm_val'))] if kind == 'map' else [(key, 0)]
        self.c = {x: c('c_' + x) for x in ('cap', 'nel', 'ndel', 'tab', 'min')}
        st = h.st
        self.p = h.raw(kind, self.size)
        self.w = {x: h.bv('%s.%s' % (kind, x), 32) for x in ('cap', 'nel', 'ndel', 'min')}
        self.apw = h.bv('allocator')
        self.slots = st.new_cells('slots', 8)
        st.put(self.p, 8, self.apw, self.off)
        for x, v in self.w.items():
            st.put(self.p, 4, v, self.off + self.c[x])
        st.put(self.p, 8, self.slots, self.off + self.c['tab'])
        self.k = h.bv('k')
        self.present = h.bool('present')
        # what the table's invariant says of its counts
        h.assume(ULE(self.w['cap'], c('c_max')), ULT(self.w['nel'] + self.w['ndel'], self.w['cap']), ULT(self.w['nel'], self.w['cap']), ULT(self.w['ndel'], self.w['cap']),
                 Implies(self.present, self.w['nel'] != 0))
        self.hash = h.bv('stored hash', 32)
        h.assume(self.present == UGE(self.hash, 2), Implies(self.present, self.hash == CH(self.k)), Implies(self.hash == 1, self.w['ndel'] != 0))
        self.kvals = [h.bv('stored ' + s.cls) for s, o in self.kvs]
        h.assume(Implies(self.present, KEY(self.kvals[0]) == self.k))
        st.ghost['box'] = self
        self.e = st.ghost['entry'] = self.make_entry(st, self.hash, self.present)

    def make_entry(self, st, hv, live):
        p = st.new_cells('entry', self.entry_size)
        st.put(p, 4, hv, self.hoff)
        for (s, o), v in zip(self.kvs, self.kvals):
            st.put(p, 8, v, self.t + o)
            st.w(p.obj).shadow[('live', self.t + o)] = live
        return p

    def keyp(self, st):
        p = st.new_cells('key', 8)
        st.put(p, 8, self.k)
        return p

    def word(self, s, x):
        return s.get(self.p, 4, self.off + self.c[x])

    def words(self, s, **new):
        """the table's words are as they were, but for those given"""
        tab = s.get(self.p, 8, self.off + self.c['tab'])
        ok = isinstance(tab, Ptr) and tab.obj == self.slots.obj
        return And(z3.BoolVal(ok), s.get(self.p, 8, self.off) == self.apw, *[self.word(s, x) == new.get(x, v) for x, v in self.w.items()])

    def holds(self, s, e, vals, hv=None):
        """the entry holds these live elements"""
        cs = [(s.get(e, 4, self.hoff) == hv) if hv is not None else UGE(s.get(e, 4, self.hoff), 2)]
        for (sp, o), v in zip(self.kvs, vals):
            cs += [B(sp.live_at(s, e, self.t + o)), sp.val_at(s, e, self.t + o) == v]
        return And(*cs)

    def untouched(self, s, e=None):
        e = e or self.e
        cs = [s.get(e, 4, self.hoff) == self.hash]
        for (sp, o), v in zip(self.kvs, self.kvals):
            cs += [B(sp.live_at(s, e, self.t + o)) == self.present, Implies(self.present, sp.val_at(s, e, self.t + o) == v)]
        return And(*cs)

    def quiet(self, s, what):
        self.h.check(s, And(self.words(s), self.untouched(s)), '%s: nothing changes' % what)
        self.h.check(s, z3.BoolVal(not any(events(s, x) for x in ('init', 'clear', 'end'))), '%s: has no other effect' % what)


def no_temporaries(h, s, what):
    """whatever else was made along the way is gone: the only elements left are the stored ones and the caller's"""
    keep = s.ghost['kept']
    for o in s.mem.values():
        if isinstance(o, Cells) and o.id not in keep and o.live and o.id != s.ghost['entry'].obj and o.id != s.ghost['box'].e.obj:
            for kx, l in o.shadow.items():
                if isinstance(kx, tuple) and kx[0] == 'live':
                    h.check(s, Not(B(l)), '%s: no temporary is left' % what)


T = Targets()


def both(name, doc):
    def deco(fn):
        for kind in ('map', 'set'):
            def body(h, kind=kind):
                b = Box(h, kind)
                h.st.ghost['kept'] = set()
                fn(h, b, b.pre)
            T.add('%s %s' % (kind, name), doc)(body)
        return fn
    return deco


@both('find', 'gives the entry of the key exactly when it is present, and changes nothing')
def find(h, b, p):
    fns = [p + 'find', p + 'findadd'] + (['cm_cfind'] if b.kind == 'map' else [])
    for fn in fns:
        st = h.st.copy()
        out = h.raw('out', h.const('cm_ins'), st=st)
        for s in h.run(fn, b.p, b.keyp(st), out, st=st):
            b.quiet(s, fn[3:])
            r = s.get(out, 8)
            h.check(s, z3.BoolVal(isinstance(r, Ptr) and r.obj == b.e.obj), '%s: gives what the table finds' % fn[3:])
            if fn == p + 'findadd':
                for s2 in h.run(p + 'found', out, st=s):
                    h.check(s2, B(s2.ret) == b.present, 'found: the key is present')
            for s2 in h.run(p + 'found', out, st=s):
                h.check(s2, B(s2.ret) == b.present, 'found: the key is present')
                ok = s2.copy()
                ok.assume(B(s2.ret))
                for s3 in h.run({'map': 'cm_deref', 'set': 'cs_deref'}[b.kind], out, st=ok):
                    r = s3.ret
                    g = isinstance(r, Ptr) and r.obj == b.e.obj
                    h.check(s3, And(z3.BoolVal(g), norm(r.off) == b.t if g else FALSE), 'found: gives the stored element')


@both('removal', 'removes the entry of the key, if there is one, and nothing else')
def removal(h, b, p):
    def gone(s, what, was=None):
        if was is None or True:
            there, absent = s.copy(), s.copy()
            there.assume(b.present)
            absent.assume(Not(b.present))
            if h.ex.feasible(absent):
                b.quiet(absent, what + ' of an absent key')
            if h.ex.feasible(there):
                h.check(there, b.words(there, nel=b.w['nel'] - 1, ndel=b.w['ndel'] + 1), what + ': one element fewer')
                h.check(there, And(there.get(b.e, 4, b.hoff) == 1, *[Not(B(sp.live_at(there, b.e, b.t + o))) for sp, o in b.kvs]), what + ': the element is destroyed and its entry marked')
                for sp, o in b.kvs:
                    h.check(there, z3.BoolVal(len([1 for e in events(there, 'destroy') if e[1] == sp.cls]) == 1), what + ': destroys one %s' % sp.cls)
    st = h.st.copy()
    for s in h.run(p + 'removekey', b.p, b.keyp(st), st=st):
        gone(s, 'removeIfExists')
    st = h.st.copy()
    st.assume(b.present)
    r = h.raw('result', h.const('cm_res'), st=st)
    for s in h.run(p + 'find', b.p, b.keyp(st), r, st=st):
        for s2 in h.run(p + 'remove', b.p, r, st=s):
            gone(s2, 'remove')


def given(h, s, fn, what):
    """what is not given away stays as it was"""
    how = fn.split('_')[-1]
    for (sp, p, v), m in zip(s.ghost.get('args', ()), how):
        if m != 'm':
            h.check(s, And(B(sp.live_at(s, p)), sp.val_at(s, p) == v), what + ': the %s given is not changed' % sp.cls)


def addition(h, b, fn, args, want, what, st, k=None, absent=True):
    """want: the values the new entry must hold"""
    p = b.pre
    if absent:
        st.assume(Not(b.present))
    ins = h.raw('insert', h.const('cm_ins'), st=st)
    for s in h.run(p + 'findadd', b.p, b.keyp(st), ins, st=st):
        for s2 in h.run(fn, b.p, ins, *args, st=s):
            given(h, s2, fn, what)
            ok, bad = s2.copy(), s2.copy()
            ok.assume(B(s2.ret))
            bad.assume(Not(B(s2.ret)))
            if h.ex.feasible(bad):
                b.quiet(bad, what + ' failing')
                h.check(bad, z3.BoolVal(bool(events(bad, 'allocfail') or events(bad, 'report'))), what + ': fails only for want of room')
                no_temporaries(h, bad, what)
            if h.ex.feasible(ok):
                added(h, b, ok, want, what)
                r = ok.get(ins, 8)
                h.check(ok, z3.BoolVal(isinstance(r, Ptr) and r.obj == ok.ghost['entry'].obj), what + ': the insertion gives the new entry')


def added(h, b, s, want, what):
    e = s.ghost['entry']
    h.check(s, b.holds(s, e, want, CH(b.k)), what + ': stores exactly the given contents')
    if s.ghost.get('resized'):
        h.check(s, And(b.word(s, 'nel') == b.w['nel'] + 1, b.word(s, 'ndel') == 0, s.get(b.p, 8, b.off) == b.apw), what + ': one element more')
    else:
        h.check(s, b.words(s, nel=b.w['nel'] + 1, ndel=If(b.hash == 1, b.w['ndel'] - 1, b.w['ndel'])), what + ': one element more')
    no_temporaries(h, s, what)


@C.on(rx(r'^AP::report'), 'allocator policy reports return')
def ap_report(ex, st, ins, av):
    st.event('report')


def arg(h, st, sp, name, v=None):
    v = h.bv(name) if v is None else v
    p = sp.make_obj(st, name, v)
    st.ghost['kept'] = st.ghost['kept'] | {p.obj}
    st.ghost['args'] = st.ghost.get('args', ()) + ((sp, p, v),)
    return p, v


for nm, fn, n in [('key and value moved', 'cm_add_mm', 2), ('key and value copied', 'cm_add_cc', 2), ('key moved, value copied', 'cm_add_mc', 2), ('key and value given as variables', 'cm_add_ll', 2), ('key given as a variable, no value', 'cm_add_l', 1),
                  ('key moved, no value', 'cm_add_m', 1), ('key copied, no value', 'cm_add_c', 1), ('nothing given', 'cm_add0', 0)]:
    def body(h, fn=fn, n=n):
        h.st.ghost['kept'] = set()
        b = Box(h, 'map')
        st = h.st.copy()
        args, want = [], []
        if n:
            p, v = arg(h, st, key, 'new key')
            st.assume(KEY(v) == b.k)
            args.append(p)
            want.append(v)
        if n == 2:
            p, v = arg(h, st, val, 'new value')
            args.append(p)
            want.append(v)
        want += [BV(s.default) for s, o in b.kvs[len(want):]]
        addition(h, b, fn, args, want, 'add', st)
    T.add('map add: ' + nm, 'the entry holds exactly the given key and value, a default value when none is given')(body)

for nm, fn, n in [('key moved', 'cs_add_m', 1), ('key given as a variable', 'cs_add_l', 1), ('key copied', 'cs_add_c', 1), ('nothing given', 'cs_add0', 0)]:
    def body(h, fn=fn, n=n):
        h.st.ghost['kept'] = set()
        b = Box(h, 'set')
        st = h.st.copy()
        args, want = [], []
        if n:
            p, v = arg(h, st, key, 'new key')
            st.assume(KEY(v) == b.k)
            args.append(p)
            want.append(v)
        want += [BV(s.default) for s, o in b.kvs[len(want):]]
        addition(h, b, fn, args, want, 'add', st)
    T.add('set add: ' + nm, 'the entry holds exactly the given key')(body)

for nm, fn in [('moved', 'cs_addkey_m'), ('given as a variable', 'cs_addkey_l'), ('copied', 'cs_addkey_c')]:
    def body(h, fn=fn):
        h.st.ghost['kept'] = set()
        b = Box(h, 'set')
        st = h.st.copy()
        p, v = arg(h, st, key, 'new key')
        st.assume(KEY(v) == b.k)
        for s in h.run(fn, b.p, p, st=st):
            given(h, s, fn, 'add')
            there, absent = s.copy(), s.copy()
            there.assume(b.present)
            absent.assume(Not(b.present))
            if h.ex.feasible(there):
                b.quiet(there, 'adding a key that is present')
                h.check(there, And(B(key.live_at(there, p)), key.val_at(there, p) == v), 'adding a key that is present: the key given is not consumed')
            if h.ex.feasible(absent):
                if events(absent, 'allocfail') or events(absent, 'report'):
                    b.quiet(absent, 'add failing')
                else:
                    added(h, b, absent, [v], 'add')
    T.add('set add without insert: key ' + nm, 'adds an absent key, leaves the set alone when the key is present')(body)


@T.add('set has', 'true exactly when the key is present')
def has(h):
    h.st.ghost['kept'] = set()
    b = Box(h, 'set')
    for s in h.run('cs_has', b.p, b.keyp(h.st)):
        h.check(s, B(s.ret) == b.present, 'has: the key is present')
        b.quiet(s, 'has')


@both('queries', 'count, memory and allocator are those of the table')
def queries(h, b, p):
    for s in h.run(p + 'elements', b.p):
        h.check(s, s.ret == z3.ZeroExt(32, b.w['nel']), 'elements: the number of elements')
        b.quiet(s, 'elements')
    for s in h.run(p + 'memory', b.p):
        h.check(s, s.ret == z3.ZeroExt(32, b.w['cap']) * b.entry_size, 'memory: the size of the storage')
        b.quiet(s, 'memory')
    for fn in ('ap', 'cap'):
        for s in h.run(p + fn, b.p):
            ok = isinstance(s.ret, Ptr) and s.ret.obj == b.p.obj
            h.check(s, And(z3.BoolVal(ok), norm(s.ret.off) == b.off if ok else FALSE), 'allocPolicy: the allocator in use')
            b.quiet(s, 'allocPolicy')


@both('clear, iteration, init, destruction', 'are those of the table')
def forwards(h, b, p):
    st = h.st.copy()
    for s in h.run(p + 'clear', b.p, st=st):
        h.check(s, z3.BoolVal(len(events(s, 'clear')) == 1), 'clear: clears the table')
        h.check(s, b.words(s, nel=W(0), ndel=W(0)), 'clear: leaves everything else')
    st = h.st.copy()
    out = h.raw('iterator', h.const('cm_it'), st=st)
    for s in h.run(p + 'iter', b.p, out, st=st):
        ev = events(s, 'iter')
        h.check(s, z3.BoolVal(len(ev) == 1 and ev[0][1].obj == out.obj), 'iter: an iterator over the table')
        b.quiet(s, 'iter')
    n = h.bv('n')
    st = h.st.copy()
    for s in h.run(p + 'init', b.p, n, st=st):
        ev = events(s, 'init')
        h.check(s, z3.BoolVal(len(ev) == 1), 'init: initialises the table once')
        if ev:
            h.check(s, And(ev[0][1] == n, B(s.ret) == ev[0][2], ev[0][3] == b.apw), 'init: with the given capacity and the given allocator')
    st = h.st.copy()
    for s in h.run(p + 'init0', b.p, st=st):
        ev = events(s, 'init')
        h.check(s, z3.BoolVal(len(ev) == 1), 'init(): initialises the table once')
        if ev:
            m = ev[0][1]
            h.check(s, And(B(s.ret) == ev[0][2], Or(m == 0, And(m & (m - 1) == 0, ULE(m, h.const('c_max')))), ev[0][3] == b.apw), 'init(): with a capacity the table accepts')
    st = h.st.copy()
    for s in h.run(p + 'end', b.p, st=st):
        h.check(s, z3.BoolVal(len(events(s, 'end')) == 1), 'destruction: destroys the table once')


@both('construction', 'uses the allocator handed over and holds nothing')
def construction(h, b, p):
    for given in (True, False):
        st = h.st.copy()
        ap = st.new_cells('ap', 8)
        w = h.bv('ap')
        st.put(ap, 8, w)
        m = h.raw('new', b.size, st=st)
        for s in h.run(p + 'new' if given else p + 'new0', m, *([ap] if given else []), st=st):
            for fn in ('ap', 'cap'):
                for s2 in h.run(p + fn, m, st=s):
                    got = s2.get(s2.ret, 8) if isinstance(s2.ret, Ptr) and s2.ret.obj in s2.mem else None
                    h.check(s2, z3.BoolVal(isinstance(s2.ret, Ptr) and s2.ret.obj == m.obj), 'construction: reports its own allocator')
                    if given:
                        h.check(s2, FALSE if got is None or got is UNDEF else got == w, 'construction: the allocator is the one handed over')
                    else:
                        h.check(s2, z3.BoolVal(got is not None and got is not UNDEF), 'construction: has an allocator')
            for s2 in h.run(p + 'elements', m, st=s):
                h.check(s2, s2.ret == 0, 'construction: empty')
            tab = s.get(m, 8, b.off + b.c['tab'])
            h.check(s, And(z3.BoolVal(isinstance(tab, Ptr) and tab.isnull_const), s.get(m, 4, b.off + b.c['cap']) == 0, s.get(m, 4, b.off + b.c['ndel']) == 0), 'construction: no storage')


@both('move', 'transfers the table, its allocator and all contents, and leaves the source empty')
def move(h, b, p):
    to = h.raw('to', b.size)
    for s in h.run(p + 'move', to, b.p):
        old = b.p
        b.p = to
        h.check(s, b.words(s), 'move: the new object has everything of the source')
        b.p = old
        h.check(s, b.untouched(s), 'move: the elements are not touched')
        for s2 in h.run(p + 'elements', old, st=s):
            h.check(s2, s2.ret == 0, 'move: the source is empty')
        tab = s.get(old, 8, b.off + b.c['tab'])
        h.check(s, And(z3.BoolVal(isinstance(tab, Ptr) and tab.isnull_const), s.get(old, 4, b.off + b.c['cap']) == 0, s.get(old, 4, b.off + b.c['ndel']) == 0), 'move: the source has no storage')


@both('policy', 'hashes and compares by the policy given, on the key; elements move and end as a whole')
def policy(h, b, p):
    pay = h.const('cm_pay') if b.kind == 'map' else 8
    st = h.st.copy()
    kp = b.keyp(st)
    for s in h.run(p + 'phash', kp, st=st):
        h.check(s, s.ret == HASH(b.k), 'hash: the hash of the key')

    def element(st):
        o = st.new_cells('element', pay)
        vs = []
        for sp, off in b.kvs:
            v = h.bv('element ' + sp.cls)
            sp.make(st, o, v, off)
            vs.append(v)
        return o, vs
    st = h.st.copy()
    kp = b.keyp(st)
    o, vs = element(st)
    for s in h.run(p + 'pmatch', kp, o, st=st):
        h.check(s, B(s.ret) == (KEY(vs[0]) == b.k), 'matches: the key of the element')
        h.check(s, And(*[And(B(sp.live_at(s, o, off)), sp.val_at(s, o, off) == v) for (sp, off), v in zip(b.kvs, vs)]), 'matches: leaves the element')
    st = h.st.copy()
    o, vs = element(st)
    to = h.raw('to', pay, st=st)
    for s in h.run(p + 'pmove', to, o, st=st):
        h.check(s, And(*[And(B(sp.live_at(s, to, off)), sp.val_at(s, to, off) == v) for (sp, off), v in zip(b.kvs, vs)]), 'moving an element: the contents are the same')
        h.check(s, And(*[B(sp.live_at(s, o, off)) for sp, off in b.kvs]), 'moving an element: the source is alive')
        for s2 in h.run(p + 'pend', o, st=s):
            h.check(s2, And(*[Not(B(sp.live_at(s2, o, off))) for sp, off in b.kvs]), 'destroying an element: destroys its parts')
