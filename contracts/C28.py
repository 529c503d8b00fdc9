"""C28: option values parse strictly, default correctly and reset completely."""
from kv.cxxstd import *
from kv.cxxvec import VecSpec
from kv.harness import Targets
T = Targets()
tok = TokSpec()
vec = VecSpec(tok)
C = Contracts()
CONTRACTS = [C, vec.ct, tok.ct, sc, lc]
ASSUMPTIONS = ['a value that cannot be omitted is parsed from a string (the parser hands null only to options that may omit their value)',
               'strtol, strcasecmp and std::string behave as the standards say; the character classes of strcasecmp are those of the C locale']
LMAX, LMIN = BV((1 << 63) - 1), BV(1 << 63)
OK = z3.Const('policy accepts', z3.BoolSort())
GIVEN = z3.Const('policy value', z3.BitVecSort(64))


# ---------------------------------------------------------------- C library
@C.on(exact('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll'), 'strtol: reads a number in the base, tells where it ends, errno is ERANGE exactly when it does not fit')
def c_strtol(ex, st, ins, av):
    g = st.ghost['number']
    t = target(ex, st, av[0], 'strtol')
    if t is None:
        return 'dead'
    if t[0].id != g['s'] or not ex.must(st, t[1] == 0):
        raise Unsupported('strtol of another string')
    if not ex.must(st, av[2] == 10):
        E, V, R = fresh_bv('end'), fresh_bv('number'), z3.FreshConst(z3.BoolSort(), 'range')
        st.assume(ULE(E, g['L']))
    else:
        E, V, R = g['end'], g['value'], g['range']
    e = av[1]
    if not (isinstance(e, Ptr) and e.isnull_const):
        ex.store(st, e, ir.PTR, Ptr(t[0].id, norm(t[1] + E)))
        if st.dead:
            return 'dead'
    c_errno_set(ex, st, R)
    ex.setr(st, ins, V)


def c_errno_set(ex, st, R):
    p = st.ghost.get('errno')
    if p is None:
        p = st.new_cells('errno', 4)
        st.put(p, 4, fresh_bv('errno', 32))
        st.ghost['errno'] = p
    st.put(p, 4, If(R, BV(34, 32), st.get(p, 4)))


def fold(c):
    return If(And(UGE(c, BV(65, 8)), ULE(c, BV(90, 8))), c + 32, c)


@C.on(exact('strcasecmp'), 'strcasecmp: compares like strcmp after mapping to lower case')
def c_strcasecmp(ex, st, ins, av):
    a, b = target(ex, st, av[0], 'strcasecmp'), target(ex, st, av[1], 'strcasecmp')
    if a is None or b is None:
        return 'dead'
    r = fresh_bv('strcasecmp', 32)
    for (o, off), (q, qoff) in ((a, b), (b, a)):
        if 'bytes' in o.user and isval(off):
            w = o.user['bytes'][off.as_long():].split(b'\0')[0]
            f, N = q.data[0], ext(ex, st, q)
            same, alive = TRUE, TRUE
            for i in range(len(w) + 1):
                # the characters so far are equal, so the other string goes on at least to here
                x = f(norm(qoff + i))
                ex.oblige(st, Implies(same, And(ULE(qoff, N), ULT(BV(i), N - qoff))), 'memory', 'strcasecmp stays inside %s' % q.name)
                if st.dead:
                    return 'dead'
                same = And(same, fold(x) == fold(BV((w + b'\0')[i], 8)))
            st.assume((r == 0) == same)
            ex.setr(st, ins, r)
            return
    raise Unsupported('strcasecmp')


# ---------------------------------------------------------------- value policies
def arg(h):
    L = h.bv('length')
    s = cstring(h, 'argument', L)
    f = data(h.st, s)
    h.ex.vocab.append(L)
    return s, f, L


@T.add('integer value', 'accepted exactly when the whole argument is a number that fits')
def integer(h):
    s, f, L = arg(h)
    E, V, R = h.bv('number end'), h.bv('number'), h.bool('out of range')
    h.assume(ULE(E, L), Implies(R, Or(V == LMAX, V == LMIN)), Implies(E == 0, And(V == 0, Not(R))))
    h.st.ghost['number'] = {'s': s.obj, 'L': L, 'end': E, 'value': V, 'range': R}
    old = h.bv('old', 32)
    out = h.st.new_cells('out', 4)
    h.st.put(out, 4, old)
    for x in h.run('c28_int', s, out):
        good = And(E != 0, E == L, Not(R), V >= BV(-(1 << 31)), V <= BV((1 << 31) - 1))
        h.check(x, B(x.ret) == good, 'integer: accepted exactly when the whole argument is a number that fits')
        h.check(x, Implies(B(x.ret), x.get(out, 4) == z3.Extract(31, 0, V)), 'integer: the number')
        h.check(x, Implies(Not(B(x.ret)), x.get(out, 4) == old), 'integer: rejected leaves the value')


@T.add('boolean value', 'accepted exactly for true and false in any case')
def boolean(h):
    s, f, L = arg(h)
    out = h.st.new_cells('out', 1)
    old = h.bv('old', 8)
    h.st.put(out, 1, old)
    is_ = lambda w: And(L == len(w), *[fold(f(BV(i))) == BV(c, 8) for i, c in enumerate(w)])
    for x in h.run('c28_bool', s, out):
        h.check(x, B(x.ret) == Or(is_(b'true'), is_(b'false')), 'boolean: accepted exactly for true and false')
        h.check(x, Implies(B(x.ret), x.get(out, 1) == If(is_(b'true'), BV(1, 8), BV(0, 8))), 'boolean: the value')
        h.check(x, Implies(Not(B(x.ret)), x.get(out, 1) == old), 'boolean: rejected leaves the value')


@T.add('omitted boolean value', 'true')
def omitted(h):
    out = h.st.new_cells('out', 1)
    for x in h.run('c28_bool', NULL, out):
        h.check(x, x.ret, 'omitted boolean: accepted')
        h.check(x, x.get(out, 1) == BV(1, 8), 'omitted boolean: true')
    for fn, want in (('c28_omit_bool', True), ('c28_omit_int', False), ('c28_omit_str', False)):
        for x in h.run(fn):
            h.check(x, B(x.ret) == z3.BoolVal(want), fn[9:] + ' values can be omitted exactly when they are booleans')


@T.add('string value', 'accepted exactly when not empty, taken as it is')
def string(h):
    s, f, L = arg(h)
    M = h.bv('old length')
    out, g = given_string(h, 'out', M)
    for x in h.run('c28_str', s, out):
        h.check(x, B(x.ret) == (L != 0), 'string: accepted exactly when not empty')
        t, n = content(h.ex, x, out)
        h.check(x, n == If(B(x.ret), L, M), 'string: the length')
        h.check(x, Q('i', lambda i: Implies(And(B(x.ret), ULT(i, L)), t(i) == f(i))), 'string: the characters')
        h.check(x, Q('i', lambda i: Implies(And(Not(B(x.ret)), ULT(i, M)), t(i) == g(i))), 'string: rejected leaves the value')


# ---------------------------------------------------------------- options over an arbitrary value type
@C.on(rx(r'ValuePolicy<Tok>::consumeValue'), 'a value policy: accepts or rejects the argument; accepted means a new value was assigned, rejected leaves an unspecified one')
def policy(ex, st, ins, av):
    g = st.ghost.get('arg')
    ex.oblige(st, z3.BoolVal(isinstance(av[0], Ptr) and g is not None and av[0].obj == g.obj and norm(av[0].off).eq(norm(g.off))), 'pre', 'the policy gets the argument')
    if st.dead:
        return 'dead'
    tok.write(ex, st, av[1], If(OK, GIVEN, fresh_bv('half parsed')))
    if st.dead:
        return 'dead'
    ex.setr(st, ins, OK)


@C.on(rx(r'ke::args::Parser::add(_static_option)?\(ke::args::IOption\*\)'), 'Parser::add, add_static_option: registers the option and leaves it as it is')
def add(ex, st, ins, av):
    p = av[-1]
    st.ghost['added'] = st.ghost.get('added', ()) + (p.obj,)


def text(h, name):
    """a C string of at least one character other than '-'"""
    L = h.bv(name)
    s = cstring(h, name, L, tag=name)
    h.assume(L != 0, data(h.st, s)(BV(0)) != BV(45, 8))
    return s


def new_option(h, kind, how, *args):
    """states after the real constructor: (state, option)"""
    p = h.raw('option', h.const('c28_%ssize' % kind[0]))
    q = h.raw('parser', h.const('c28_psize')) if how else NULL
    l, hp = text(h, 'name'), cstring(h, 'help', h.bv('help length'), tag='help')
    out = []
    for s in h.run('c28_' + kind, p, q, l, *args, hp):
        h.check(s, z3.BoolVal(s.ghost.get('added') == (p.obj,)), 'a new option is registered once')
        out.append((s, p))
    return out


def maybe(h, name, full):
    """a Maybe<Tok>: states and its place"""
    m = h.raw(name, h.const('c28_msize'))
    if not full:
        return [(s, m, None) for s in h.run('c28_none', m)]
    v = h.bv(name + ' value')
    t = tok.make_obj(h.st, name + ' element', v)
    return [(s, m, v) for s in h.run('c28_some', m, t)]


def given(h, positional=False):
    """every state of an Option: default present or not, value present or not"""
    for how in (False, True):
        for full in (False, True):
            if positional and full:
                continue
            for has in (False, True):
                st0 = h.st
                h.st = st0.copy()
                try:
                    if positional:
                        p = h.raw('option', h.const('c28_osize'))
                        q = h.raw('parser', h.const('c28_psize')) if how else NULL
                        n, hp = text(h, 'name'), cstring(h, 'help', h.bv('help length'), tag='help')
                        ss = [(s, p, None) for s in h.run('c28_pos', p, q, n, hp)]
                    else:
                        ss = []
                        for s, m, d in maybe(h, 'default', full):
                            h.st = s
                            ss += [(s2, p, d) for s2, p in new_option(h, 'opt', how, m)]
                    for s, p, d in ss:
                        if not has:
                            yield s, p, d, None
                            continue
                        v = h.bv('old value')
                        t = tok.make_obj(s, 'old element', v)
                        for s2 in h.run('c28_put', p, t, st=s):
                            yield s2, p, d, v
                finally:
                    h.st = st0


def observe(h, s, p, d, v, what):
    """the option reports v, or else its default d, or nothing"""
    want = v if v is not None else d
    for x in h.run('c28_has', p, st=s.copy()):
        h.check(x, B(x.ret) == z3.BoolVal(want is not None), what + ': hasValue')
    if want is not None:
        for x in h.run('c28_value', p, st=s.copy()):
            h.check(x, And(B(tok.live_at(x, x.ret)), tok.val_at(x, x.ret) == want), what + ': value')
    m = s.new_cells('maybe', h.const('c28_msize'))
    for x in h.run('c28_maybe', m, p, st=s.copy()):
        for y in h.run('c28_mvalid', m, st=x):
            h.check(y, B(y.ret) == z3.BoolVal(want is not None), what + ': maybeValue')
            if want is not None:
                for z in h.run('c28_mget', m, st=y):
                    h.check(z, And(B(tok.live_at(z, z.ret)), tok.val_at(z, z.ret) == want), what + ': maybeValue gives the value')
    for x in h.run('c28_repeats', p, st=s.copy()):
        h.check(x, B(x.ret) == z3.BoolVal(v is None), what + ': may be given again exactly when it has no value yet')


def argument(h, s):
    st0, h.st = h.st, s
    try:
        a = cstring(h, 'argument', h.bv('length'))
    finally:
        h.st = st0
    s.ghost['arg'] = a
    return a


for positional in (False, True):
    nm = 'positional option' if positional else 'option'

    @T.add(nm + ': consumeValue', 'takes the value that was accepted; a rejected one changes nothing')
    def opt_consume(h, positional=positional):
        for s, p, d, v in given(h, positional):
            a = argument(h, s)
            for x in h.run('c28_consume', p, a, st=s):
                h.check(x, B(x.ret) == OK, 'option: accepts what its policy accepts')
                y = x.copy()
                y.assume(OK)
                if h.ex.feasible(y):
                    observe(h, y, p, d, GIVEN, 'option after an accepted value')
                x.assume(Not(OK))
                if h.ex.feasible(x):
                    observe(h, x, p, d, v, 'option after a rejected value')

    @T.add(nm + ': reset', 'reports its default again')
    def opt_reset(h, positional=positional):
        for s, p, d, v in given(h, positional):
            observe(h, s, p, d, v, 'option')
            for x in h.run('c28_reset', p, st=s):
                observe(h, x, p, d, None, 'option after reset')

    @T.add(nm + ': kind', 'takes exactly one value')
    def opt_kind(h, positional=positional):
        for s, p, d, v in given(h, positional):
            for fn in ('must', 'can', 'halt', 'no'):
                for x in h.run('c28_' + fn, p, st=s.copy()):
                    h.check(x, Not(B(x.ret)), 'option: ' + fn)


def flags(h, s, p, want, what):
    for fn in ('must', 'can', 'halt', 'no', 'repeats'):
        if fn in want:
            for x in h.run('c28_' + fn, p, st=s.copy()):
                h.check(x, B(x.ret) == z3.BoolVal(want[fn]), '%s: %s' % (what, fn))


def word(h, s, w):
    """the argument is this text"""
    st0, h.st = h.st, s
    try:
        a = cstring(h, 'argument', BV(len(w)))
        for i, c in enumerate(w):
            s.assume(data(s, a)(BV(i)) == BV(c, 8))
    finally:
        h.st = st0
    return a


@T.add('enable option', 'true or false as written, else the default')
def enable(h):
    for how in (False, True):
        d = h.bool('default')
        for s, p in new_option(h, 'enable', how, d):
            for x in h.run('c28_evalue', p, st=s.copy()):
                h.check(x, B(x.ret) == d, 'enable: the default')
            flags(h, s, p, {'must': True, 'halt': False, 'no': True, 'repeats': True}, 'enable')
            for w in (b'true', b'false'):
                for first in (b'', b'true', b'false'):
                    ss = [s.copy()]
                    if first:
                        ss = h.run('c28_consume', p, word(h, ss[0], first), st=ss[0])
                    for y in ss:
                        for x in h.run('c28_consume', p, word(h, y, w), st=y):
                            h.check(x, x.ret, 'enable: accepts true and false')
                            flags(h, x, p, {'repeats': False}, 'enable with a value')
                            for z in h.run('c28_evalue', p, st=x.copy()):
                                h.check(z, B(z.ret) == z3.BoolVal(w == b'true'), 'enable: the value written')
                            for z in h.run('c28_reset', p, st=x):
                                flags(h, z, p, {'repeats': True}, 'enable after reset')
                                for z2 in h.run('c28_evalue', p, st=z):
                                    h.check(z2, B(z2.ret) == d, 'enable after reset: the default')


for kind in ('toggle', 'stop'):
    @T.add(kind + ' option', 'the negated default once given')
    def toggle(h, kind=kind):
        for how in (False, True):
            for full in (False, True):
                st0 = h.st
                h.st = st0.copy()
                m = h.raw('default', h.const('c28_mbsize'))
                d = h.bool('default') if full else FALSE
                for s0 in (h.run('c28_bsome', m, d) if full else h.run('c28_bnone', m)):
                    h.st = s0
                    for s, p in new_option(h, kind, how, m):
                        for x in h.run('c28_tvalue', p, st=s.copy()):
                            h.check(x, B(x.ret) == d, kind + ': the default')
                        flags(h, s, p, {'must': True, 'can': True, 'halt': kind == 'stop', 'no': False, 'repeats': True}, kind)
                        y = s.copy()
                        for x in h.run('c28_consume', p, argument(h, y), st=y):
                            h.check(x, Not(B(x.ret)), kind + ': rejects a value')
                            flags(h, x, p, {'repeats': True}, kind + ' after a rejected value')
                            for z in h.run('c28_tvalue', p, st=x):
                                h.check(z, B(z.ret) == d, kind + ': a rejected value changes nothing')
                        for x in h.run('c28_consume', p, NULL, st=s):
                            h.check(x, x.ret, kind + ': accepted')
                            flags(h, x, p, {'repeats': False}, kind + ' with a value')
                            for z in h.run('c28_tvalue', p, st=x.copy()):
                                h.check(z, B(z.ret) == Not(d), kind + ': the negated default')
                            y = x.copy()
                            for w in h.run('c28_consume', p, argument(h, y), st=y):
                                for z in h.run('c28_tvalue', p, st=w):
                                    h.check(z, B(z.ret) == Not(d), kind + ': a rejected value keeps the earlier one')
                            for z in h.run('c28_reset', p, st=x):
                                flags(h, z, p, {'repeats': True}, kind + ' after reset')
                                for z2 in h.run('c28_tvalue', p, st=z):
                                    h.check(z2, B(z2.ret) == d, kind + ' after reset: the default')
                h.st = st0


def values(h, s, p, n, want, what):
    for fn in ('c28_vals', 'c28_cvals'):
        for x in h.run(fn, p, st=s.copy()):
            r = vec.at(h.ex, x, x.ret)
            if x.dead:
                continue
            oid, m, cap = r
            h.check(x, m == n, what + ': the number of values')
            if oid is not None and want is not None:
                o = x.mem[oid]
                live, f = o.shadow['live@0'], o.data[0]
                h.check(x, Q('i', lambda i: Implies(ULT(i, n), And(live(i), f(i) == want(i)))), what + ': the values and their order')


def repeated(h):
    for how in (False, True):
        for full in (False, True):
            st0 = h.st
            h.st = st0.copy()
            for s, p in new_option(h, 'rep', how):
                values(h, s, p, BV(0), None, 'new repeatable option')
                for x in h.run('c28_vals', p, st=s):
                    v = x.ret
                    n, f = BV(0), None
                    if full:
                        n, cap = h.bv('values'), h.bv('capacity')
                        x.assume(ULE(n, cap), ULE(cap, BV(1 << 40)), UGE(cap, 1))
                        f = fresh_fn('values', 64, 'i')
                        vec.install(h.ex, x, v, vec.new_storage(x, cap, f, n), n, cap)
                    yield x, p, n, f
            h.st = st0


@T.add('repeatable option: consumeValue', 'collects every accepted value in order')
def rep_consume(h):
    for s, p, n, f in repeated(h):
        a = argument(h, s)
        for x in h.run('c28_consume', p, a, st=s):
            h.check(x, B(x.ret) == OK, 'repeatable option: accepts what its policy accepts')
            y = x.copy()
            y.assume(OK)
            if h.ex.feasible(y):
                values(h, y, p, norm(n + 1), (lambda i: If(i == n, GIVEN, f(i))) if f else (lambda i: GIVEN), 'after an accepted value')
            x.assume(Not(OK))
            if h.ex.feasible(x):
                values(h, x, p, n, f, 'after a rejected value')


@T.add('repeatable option: reset', 'has no value any more and may be given any number of times')
def rep_reset(h):
    for s, p, n, f in repeated(h):
        flags(h, s, p, {'must': False, 'can': False, 'halt': False, 'no': False, 'repeats': True}, 'repeatable option')
        for x in h.run('c28_reset', p, st=s):
            values(h, x, p, BV(0), None, 'after reset')
            flags(h, x, p, {'repeats': True}, 'repeatable option after reset')


# ---------------------------------------------------------------- Parser::reset
import contracts.argp as A


@C.on(A.SV(r'svec::clear\(\)'), 'std::vector<std::string>::clear: no string any more')
def sclear(ex, st, ins, av):
    ex.store(st, Ptr(av[0].obj, norm(av[0].off + 8)), ir.PTR, ex.load(st, av[0], ir.PTR))
    return done(st)


def reset_method(ex, st, ins, av, i):
    o = st.w(av[0].obj)
    o.shadow['reset'] = o.shadow['reset'].store(i, TRUE)
    st.wr.add(('sf', o.id, 'reset'))


def reset_spec(ex, entry, view):
    cs = []
    g = entry.ghost.get('family')
    if g is None or ('sf', g['o'], 'reset') not in view.mods:
        return cs
    old = entry.mem[g['o']].shadow['reset']
    cs.append(Cand('options already reset stay so', lambda s: (lambda r: Q('o', lambda k: Implies(old(k), r(k))))(s.mem[g['o']].shadow['reset'])))
    for nm, (n, idx, tag) in g['lists'].items():
        for tn, tf in view.terms:
            def f(s, tf=tf, idx=idx, tag=tag):
                t, r = tf(s), s.mem[g['o']].shadow['reset']
                return Q(tag, lambda k: Implies(ULT(k, t), r(idx(k))))
            cs.append(Cand('%s before %s are reset' % (nm, tn), f))
    return cs


@T.add('Parser::reset', 'resets every option and forgets the error, the extra and the passthrough arguments')
def parser_reset(h):
    p = h.arbitrary('parser', h.const('c28_psize'))
    fam = A.Family(h, {'reset': reset_method})
    h.st.mem[fam.obj].shadow['reset'] = const_fn(FALSE)
    place = {}
    for fn in ('options', 'positionals', 'help', 'error', 'extra', 'pass', 'haspass'):
        ss = h.run('c28_' + fn, p)
        assert len(ss) == 1
        h.st, place[fn] = ss[0], ss[0].ret
    st = h.st
    lists = {}
    for fn, tag in (('options', 'a'), ('positionals', 'b')):
        n, idx = fam.list(h, st, place[fn], fn, tag)
        lists[fn] = (n, idx, tag)
    st.ghost['family'] = {'o': fam.obj, 'lists': lists}
    hi, none = h.bv('help option'), h.bool('no help option')
    # the constructor registers the help option as an ordinary one too
    hp = h.bv('help position')
    st.assume(ULT(hi, fam.N), ULT(hp, lists['options'][0]), lists['options'][1](hp) == hi)
    st.put(place['help'], 8, Ptr(fam.obj, norm(BV(A.OPT) * hi), none))
    for fn in ('extra', 'pass'):
        A.strings(h, st, place[fn], fn)
    make_string(h.ex, st, place['error'], fresh_fn('error', 8), h.bv('error length'))
    hb = h.bv('in passthrough mode', 8)
    st.assume(ULE(hb, 1))
    st.put(place['haspass'], 1, hb)
    h.ex.loop_specs.append(reset_spec)
    for x in h.run('c28_presets', p, st=st):
        r = x.mem[fam.obj].shadow['reset']
        for fn, (n, idx, tag) in lists.items():
            h.check(x, Q(tag, lambda k: Implies(ULT(k, n), r(idx(k)))), 'reset: every one of the %s is reset' % fn)
            h.check(x, A.count(x, place[fn], 8) == n, 'reset: the %s stay' % fn)
        h.check(x, Or(none, r(hi)), 'reset: the help option is reset')
        for fn in ('extra', 'pass'):
            h.check(x, A.count(x, place[fn]) == 0, 'reset: no %s arguments' % fn)
        t, n = content(h.ex, x, place['error'])
        h.check(x, n == 0, 'reset: no error')
        h.check(x, x.get(place['haspass'], 1) == BV(0, 8), 'reset: not in passthrough mode')
