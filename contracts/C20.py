"""C20: Function owns one copy of its callable and always calls it."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
CALL = {'Sml': TokSpec('Sml', 8), 'Med': TokSpec('Med', 16), 'Lrg': TokSpec('Lrg', 24), 'Aln': TokSpec('Aln', 32), 'Ref': TokSpec('Ref', 8)}
C = Contracts()
CONTRACTS = [tok.ct, C] + [c.ct for c in CALL.values()]
RESULT = {}


def result(cls, v, a, t):
    """what calling a callable of value v returns: an arbitrary function of the callable and the arguments"""
    f = RESULT.setdefault(cls, z3.Function('result_' + cls, v.sort(), a.sort(), t.sort(), z3.BitVecSort(64)))
    return f(v, a, t)


@C.on(rx(r'^(Sml|Med|Lrg|Aln)::operator\(\)\(unsigned long, Tok\) const$'), 'calling a live callable with live arguments returns its result for them')
def call(ex, st, ins, av):
    cls = ex.dem[ins.args[0][1]].split('::')[0]
    v = CALL[cls].read(ex, st, av[0], 'called object')
    if st.dead:
        return 'dead'
    t = tok.read(ex, st, av[2], 'argument')
    if st.dead:
        return 'dead'
    st.event('call', cls, v, av[1], t)
    ex.setr(st, ins, result(cls, v, av[1], t))


@C.on(exact('plain'), 'calling a plain function returns its result for the arguments')
def plain(ex, st, ins, av):
    t = tok.read(ex, st, av[1], 'argument')
    if st.dead:
        return 'dead'
    st.event('call', 'plain', BV(0), av[0], t)
    ex.setr(st, ins, result('plain', BV(0), av[0], t))


@C.on(rx(r'^Ref::operator\(\)\(Tok&\) const$'), 'calling a live callable with a reference')
def callref(ex, st, ins, av):
    v = CALL['Ref'].read(ex, st, av[0], 'called object')
    if st.dead:
        return 'dead'
    st.event('call', 'Ref', v, av[1])


def lives(st):
    """live callables anywhere"""
    n = []
    for o in st.mem.values():
        if isinstance(o, Cells) and o.live:
            for (nm, off), v in o.shadow.items():
                if nm == 'live' and not isfalse(v):
                    n.append((o.id, off, v))
    return n


def obj_of(s, cls, v):
    p = s.new_cells('callable', CALL[cls].size, 'param', 32)
    CALL[cls].make(s, p, v)
    return p


KINDS = ('empty', 'Sml', 'Med', 'Lrg', 'copy of Sml')


def given(h, st, name, kind):
    """-> [(state, function, class held or None, value)]"""
    p = h.raw(name, h.const('c20_size'), st=st)
    if kind == 'empty':
        r = [(s, p, None, None) for s in h.run('c20_def', p, st=st)]
    else:
        cls = kind.split()[-1]
        v = h.bv(name + '.callable', CALL[cls].size * 8)
        o = obj_of(st, cls, v)
        r = []
        if kind.startswith('copy'):
            q = h.raw(name + '.orig', h.const('c20_size'), st=st)
            for s in h.run('c20_c_' + cls, q, o, st=st):
                for s2 in h.run('c20_copync', p, q, st=s):
                    for s3 in h.run('c20_dtor', q, st=s2):
                        r.append((s3, p, cls, v))
        else:
            for s in h.run('c20_c_' + cls, p, o, st=st):
                r.append((s, p, cls, v))
        for s, *_ in r:
            CALL[cls].end(h.ex, s, o)
    for s, *_ in r:
        s.log = ()
    return r


def is_inline(h, s, p):
    r = [x.ret for x in h.run('c20_inline', p, st=s)]
    return all(istrue(simp(B(x))) for x in r)


def holds(h, s, p, cls, v, what):
    """p is empty / holds exactly a callable of class cls and value v, and calls it"""
    for s2 in h.run('c20_bool', p, st=s):
        h.check(s2, B(s2.ret) == z3.BoolVal(cls is not None), '%s: non-empty exactly when it holds a callable' % what)
        if cls is None:
            for s3 in h.run('c20_inline', p, st=s2):
                h.check(s3, Not(s3.ret), '%s: an empty function does not use its inline storage' % what)
            continue
        s2.log = ()
        a, tv = h.bv('a'), h.bv('t')
        t = tok.make_obj(s2, 't', tv)
        for s3 in h.run('c20_call', p, a, t, st=s2):
            ev = events(s3, 'call')
            h.check(s3, z3.BoolVal(len(ev) == 1), '%s: calls the callable once' % what)
            if len(ev) != 1:
                continue
            h.check(s3, z3.BoolVal(ev[0][1] == cls), '%s: calls the held callable' % what)
            if ev[0][1] == cls:
                h.check(s3, And(ev[0][2] == v, ev[0][3] == a, ev[0][4] == tv), '%s: calls it with exactly the given arguments' % what)
                h.check(s3, s3.ret == result(cls, v, a, tv), '%s: returns its result' % what)
            h.check(s3, And(tok.live_at(s3, t), tok.val_at(s3, t) == tv), '%s: the argument object is untouched' % what)


def settle(h, s, fs, what, others=0):
    """every function of fs holds its callable; nothing else is alive; destroying all of them leaves nothing"""
    for p, cls, v in fs:
        holds(h, s, p, cls, v, what)
    held = sum(1 for f in fs if f[1])
    h.check(s, z3.BoolVal(len([x for x in lives(s) if istrue(simp(B(x[2])))]) == held + others), '%s: each function holds exactly one callable' % what)
    for order in (fs, fs[::-1]):
        states = [s.copy()]
        for p, cls, v in order:
            nxt = []
            for x in states:
                nxt += h.run('c20_dtor', p, st=x)
            states = nxt
        for x in states:
            h.check(x, z3.BoolVal(len(lives(x)) == others), '%s: destruction destroys each callable once' % what)
            h.check(x, z3.BoolVal(not live_objects(x)), '%s: destruction releases all storage' % what)
        if len(fs) < 2:
            break


@T.add('empty', 'default and null functions are empty')
def empty(h):
    for fn in ('c20_def', 'c20_null'):
        p = h.raw('f', h.const('c20_size'))
        for s in h.run(fn, p):
            settle(h, s, [(p, None, None)], fn)


for _cls in ('Sml', 'Med', 'Lrg', 'Aln'):
    def mk(cls):
        @T.add('construct from ' + cls, 'holds a copy of / takes over the callable')
        def t(h):
            for how in ('c', 'l', 'm'):
                s = h.st.copy()
                v = h.bv('callable', CALL[cls].size * 8)
                o = obj_of(s, cls, v)
                p = h.raw('f', h.const('c20_size'), st=s)
                for s2 in h.run('c20_%s_%s' % (how, cls), p, o, st=s):
                    what = 'function made from a callable'
                    if cls in ('Sml', 'Med'):
                        h.check(s2, z3.BoolVal(not events(s2, 'alloc')), '%s: a small callable is not allocated on the heap' % what)
                        for s3 in h.run('c20_inline', p, st=s2):
                            h.check(s3, s3.ret, '%s: a small callable is held inline' % what)
                    h.check(s2, CALL[cls].live_at(s2, o), '%s: the original is still alive' % what)
                    if how != 'm':
                        h.check(s2, CALL[cls].val_at(s2, o) == v, '%s: the original is unchanged' % what)
                    # where it is held is suitably aligned
                    for oid, off, l in lives(s2):
                        if oid != o.obj:
                            al = 32 if cls == 'Aln' else 8
                            ob = s2.mem[oid]
                            base = h.const('c20_falign') if oid == p.obj else 16
                            if cls == 'Aln':
                                h.check(s2, z3.BoolVal(ob.user.get('release') == 'heap-delete-aligned' or ob.kind.endswith('aligned') or oid != p.obj), 'an over-aligned callable is not in the inline buffer')
                            else:
                                h.check(s2, z3.BoolVal(off % al == 0 and base % al == 0), 'the callable is suitably aligned')
                    settle(h, s2, [(p, cls, v)], what, 1)

        @T.add('assign from ' + cls, 'replaces the old callable')
        def t2(h):
            for kind in KINDS:
                for how in ('ac', 'am'):
                    for s, p, c0, v0 in given(h, h.st.copy(), 'f', kind):
                        v = h.bv('callable', CALL[cls].size * 8)
                        o = obj_of(s, cls, v)
                        for s2 in h.run('c20_%s_%s' % (how, cls), p, o, st=s):
                            h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                            if cls in ('Sml', 'Med'):
                                h.check(s2, z3.BoolVal(not events(s2, 'alloc')), 'a small callable is not allocated on the heap')
                            settle(h, s2, [(p, cls, v)], 'function assigned a callable', 1)
    mk(_cls)


@T.add('plain function', 'holds and calls a function pointer')
def plainf(h):
    p = h.raw('f', h.const('c20_size'))
    for s in h.run('c20_plain', p):
        h.check(s, z3.BoolVal(not events(s, 'alloc')), 'a function pointer is not allocated on the heap')
        s.log = ()
        holds(h, s, p, 'plain', BV(0), 'function made from a function pointer')
        for s2 in h.run('c20_dtor', p, st=s):
            h.check(s2, z3.BoolVal(not live_objects(s2)), 'releases all storage')


@T.add('reference argument', 'a reference argument is passed through')
def refarg(h):
    v = h.bv('callable')
    o = obj_of(h.st, 'Ref', v)
    p = h.raw('g', h.const('c20_gsize'))
    t = tok.make_obj(h.st, 't', h.bv('t'))
    for s in h.run('c20_g', p, o):
        s.log = ()
        for s2 in h.run('c20_gcall', p, t, st=s):
            ev = events(s2, 'call')
            h.check(s2, z3.BoolVal(len(ev) == 1), 'calls the callable once')
            h.check(s2, And(ev[0][2] == v, h.ex.ptr_eq(s2, ev[0][3], t)), 'passes the referenced object itself')
            h.check(s2, z3.BoolVal(not events(s2, 'copy') and not events(s2, 'move')), 'copies nothing')
            for s3 in h.run('c20_gdtor', p, st=s2):
                h.check(s3, z3.BoolVal(len(lives(s3)) == 2 and not live_objects(s3)), 'destroys its callable once')


for _k in KINDS:
    def mk3(kind):
        @T.add('copy and move construct from ' + kind, 'copies are independent, moves empty the source')
        def t(h):
            for fn in ('c20_copy', 'c20_copync', 'c20_move'):
                for s, q, cls, v in given(h, h.st.copy(), 'src', kind):
                    inl = is_inline(h, s, q)
                    p = h.raw('f', h.const('c20_size'), st=s)
                    for s2 in h.run(fn, p, q, st=s):
                        mv = fn == 'c20_move'
                        if fn != 'c20_copync' and inl or mv:
                            h.check(s2, z3.BoolVal(not events(s2, 'alloc')), 'an inline callable is not moved to the heap')
                        settle(h, s2, [(p, cls, v), (q, None if mv else cls, None if mv else v)], fn)

        @T.add('assign null to ' + kind, 'becomes empty')
        def t2(h):
            for s, p, cls, v in given(h, h.st.copy(), 'f', kind):
                for s2 in h.run('c20_asgnull', p, st=s):
                    h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                    settle(h, s2, [(p, None, None)], 'function assigned null')

        @T.add('self assignment of ' + kind, 'keeps the callable')
        def t3(h):
            for fn in ('c20_asg', 'c20_asgnc', 'c20_asgm'):
                for s, p, cls, v in given(h, h.st.copy(), 'f', kind):
                    for s2 in h.run(fn, p, p, st=s):
                        h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                        settle(h, s2, [(p, cls, v)], 'self assignment')
        for _k2 in KINDS:
            def mk4(kind2):
                @T.add('assign %s = %s' % (kind, kind2), 'old callable destroyed once, new one held')
                def t4(h):
                    for fn in ('c20_asg', 'c20_asgnc', 'c20_asgm'):
                        for s, p, c0, v0 in given(h, h.st.copy(), 'f', kind):
                            for s1, q, cls, v in given(h, s, 'src', kind2):
                                inl = is_inline(h, s1, q)
                                for s2 in h.run(fn, p, q, st=s1):
                                    mv = fn == 'c20_asgm'
                                    h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                                    if inl or mv:
                                        h.check(s2, z3.BoolVal(not events(s2, 'alloc')), 'an inline callable is not moved to the heap')
                                    settle(h, s2, [(p, cls, v), (q, None if mv else cls, None if mv else v)], fn)
            mk4(_k2)
    mk3(_k)
