"""C17: Maybe holds its value exactly once."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
tok = TokSpec()
CONTRACTS = [tok.ct]


def given(h, st, name, valid):
    """an arbitrary Maybe that reports valid (holding a live element with an arbitrary value) or not"""
    out = []
    p = h.arbitrary(name, h.const('c17_size'), st=st)
    for s in h.run('c17_valid', p, st=st):
        s.assume(s.ret if valid else Not(s.ret))
        if not h.ex.feasible(s):
            continue
        v = None
        if valid:
            v = h.bv(name + '.value')
            # where the element lives is whatever get() says
            for s2 in h.run('c17_cget', p, st=s):
                if s2.ret.obj != p.obj:
                    raise Unsupported('Maybe keeps its value elsewhere')
                tok.make(s2, s2.ret, v)
                out.append((s2, p, v))
        else:
            out.append((s, p, None))
    if not out:
        h.check(st, FALSE, 'a Maybe can be %s' % ('full' if valid else 'empty'))
    return out


def lives(st, p):
    return [(k[1], v) for k, v in st.mem[p.obj].shadow.items() if k[0] == 'live' and not isfalse(v)]


def holds(h, s, p, v, what):
    """post: *p reports a value, contains exactly one live element, and it has value v"""
    for s2 in h.run('c17_valid', p, st=s):
        h.check(s2, s2.ret, '%s holds a value' % what)
        for s3 in h.run('c17_cget', p, st=s2):
            h.check(s3, z3.BoolVal(s3.ret.obj == p.obj), '%s: value is inside the Maybe' % what)
            off = simp(s3.ret.off).as_long()
            h.check(s3, tok.live_at(s3, s3.ret), '%s: value is live' % what)
            h.check(s3, And(*[Or(z3.BoolVal(o == off), Not(l)) for o, l in lives(s3, p)]), '%s: exactly one live element' % what)
            h.check(s3, tok.val_at(s3, s3.ret) == v, '%s: value is the one last stored' % what)


def empty(h, s, p, what):
    for s2 in h.run('c17_valid', p, st=s):
        h.check(s2, Not(s2.ret), '%s is empty' % what)
        h.check(s2, And(*[Not(l) for o, l in lives(s2, p)]), '%s: no live element' % what)


def post(h, s, p, v, what):
    if v is None:
        empty(h, s, p, what)
    else:
        holds(h, s, p, v, what)


for _fn in ('ctor', 'nothing'):
    def mk(fn):
        @T.add(fn, 'constructs an empty Maybe')
        def t(h):
            p = h.raw('m', h.const('c17_size'))
            for s in h.run('c17_' + fn, p):
                empty(h, s, p, 'new Maybe')
    mk(_fn)

for _valid in (False, True):
    def mk(valid):
        nm = 'full' if valid else 'empty'

        @T.add('dtor ' + nm, 'destroys the element exactly once')
        def dtor(h):
            for s, p, v in given(h, h.st, 'm', valid):
                for s2 in h.run('c17_dtor', p, st=s):
                    h.check(s2, And(*[Not(l) for o, l in lives(s2, p)]), 'nothing left alive')
                    h.check(s2, z3.BoolVal(len(events(s2, 'destroy')) == (1 if valid else 0)), 'destroyed exactly once')

        @T.add('init ' + nm, 'old element destroyed once, holds the new value; argument stays alive')
        def init(h):
            for s, p, v in given(h, h.st, 'm', valid):
                a = h.bv('arg')
                q = tok.make_obj(s, 'arg', a)
                for fn in ('c17_init_c', 'c17_init_m'):
                    for s2 in h.run(fn, p, q, st=s):
                        holds(h, s2, p, a, 'Maybe after ' + fn)
                        h.check(s2, tok.live_at(s2, q), 'argument is still alive')
                        if fn == 'c17_init_c':
                            h.check(s2, tok.val_at(s2, q) == a, 'argument unchanged')
                        h.check(s2, z3.BoolVal(len(events(s2, 'destroy')) == (1 if valid else 0)), 'old element destroyed once')
                for s2 in h.run('c17_init_n', p, a, st=s):
                    holds(h, s2, p, a, 'Maybe after init(n)')
                for s2 in h.run('c17_init_0', p, st=s):
                    holds(h, s2, p, BV(tok.default), 'Maybe after init()')

        @T.add('copy ctor ' + nm, 'same contents, source unchanged')
        def copy(h):
            for s, p, v in given(h, h.st, 'src', valid):
                d = h.raw('m', h.const('c17_size'), st=s)
                for s2 in h.run('c17_copy', d, p, st=s):
                    post(h, s2, d, v, 'copy')
                    post(h, s2, p, v, 'copied source')

        @T.add('move ctor ' + nm, 'takes the contents, source becomes empty')
        def move(h):
            for s, p, v in given(h, h.st, 'src', valid):
                d = h.raw('m', h.const('c17_size'), st=s)
                for s2 in h.run('c17_move', d, p, st=s):
                    post(h, s2, d, v, 'moved-to Maybe')
                    empty(h, s2, p, 'moved-from Maybe')

        @T.add('self assign ' + nm, 'self copy- and move-assignment keep the contents')
        def selfasg(h):
            for fn in ('c17_asg', 'c17_asgm'):
                for s, p, v in given(h, h.st.copy(), 'm', valid):
                    for s2 in h.run(fn, p, p, st=s):
                        h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                        post(h, s2, p, v, 'self-assigned Maybe (%s)' % fn)

        @T.add('assign Nothing ' + nm, 'becomes empty, element destroyed')
        def asgn(h):
            for s, p, v in given(h, h.st, 'm', valid):
                for s2 in h.run('c17_asgn', p, st=s):
                    empty(h, s2, p, 'Maybe = Nothing')

        for _v2 in (False, True):
            def mk2(v2):
                @T.add('assign %s = %s' % (nm, 'full' if v2 else 'empty'), 'copy/move assignment')
                def asg(h):
                    for s, p, v in given(h, h.st, 'm', valid):
                        for s1, q, w in given(h, s, 'src', v2):
                            for s2 in h.run('c17_asg', p, q, st=s1):
                                h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                                post(h, s2, p, w, 'copy-assigned Maybe')
                                post(h, s2, q, w, 'source of copy assignment')
                            for s2 in h.run('c17_asgm', p, q, st=s1):
                                h.check(s2, h.ex.ptr_eq(s2, s2.ret, p), 'assignment returns its target')
                                post(h, s2, p, w, 'move-assigned Maybe')
                                empty(h, s2, q, 'source of move assignment')
            mk2(_v2)

        @T.add('queries ' + nm, 'isValid and bool agree and change nothing')
        def queries(h):
            for s, p, v in given(h, h.st, 'm', valid):
                for s2 in h.run('c17_bool', p, st=s):
                    h.check(s2, s2.ret if valid else Not(s2.ret), 'operator bool')
                    post(h, s2, p, v, 'queried Maybe')
                if valid:
                    for fn in ('arrow', 'carrow', 'star', 'cstar', 'get', 'cget'):
                        for s2 in h.run('c17_' + fn, p, st=s):
                            h.check(s2, And(tok.live_at(s2, s2.ret), tok.val_at(s2, s2.ret) == v), '%s gives the element' % fn)
                            post(h, s2, p, v, 'accessed Maybe')
    mk(_valid)


@T.add('Some', 'holds a copy of / takes over the argument')
def some(h):
    a = h.bv('arg')
    q = tok.make_obj(h.st, 'arg', a)
    for fn in ('c17_some_c', 'c17_some_m'):
        d = h.raw('m', h.const('c17_size'))
        for s2 in h.run(fn, d, q):
            holds(h, s2, d, a, 'Some()')
            h.check(s2, tok.live_at(s2, q), 'argument is still alive')
            if fn == 'c17_some_c':
                h.check(s2, tok.val_at(s2, q) == a, 'argument unchanged')


@T.add('alignment', 'the element of an over-aligned type is suitably aligned')
def align(h):
    p = h.arbitrary('m', h.const('c17_bigsize'))
    h.check(h.st, z3.BoolVal(h.const('c17_bigalign') % 64 == 0), 'Maybe of an over-aligned type is over-aligned')
    for s in h.run('c17_bigvalid', p):
        s.assume(s.ret)
        for s2 in h.run('c17_bigget', p, st=s):
            h.check(s2, z3.BoolVal(simp(s2.ret.off).as_long() % 64 == 0 and s2.ret.obj == p.obj), 'element offset is aligned')
