"""C27: the argument parser routes every argument as documented and never crashes."""
from kv.cxxstd import *
from kv.cxxvec import VecSpec, split_index
from kv.harness import Targets
import contracts.argp as A
T = Targets()
LEVEL_NOTE = ('The four configurations of parse_impl with inline values enabled are under the same contract, but take the verifier '
              '10 minutes or more: the quick check leaves them to a bounded native search (labelled so), the thorough check runs them.')
NDEBUG = False     # no assertion in these functions
C = Contracts()
ASSUMPTIONS = ['options are known by their virtual functions; which values an option accepts is arbitrary, but one that may or must omit its value accepts that',
               'every option registered with the parser has a form or a name; std::vector and std::string behave as their contracts say']


class Words(VecSpec):
    """a vector of pointers, which are only copied: 8-byte words"""
    def source(self, ex, st, kind, p):
        v = ex.load(st, p, ir.I64)
        return None if st.dead else v


PV, OV = (Words(type('W', (), {'cls': c, 'size': 8})) for c in ('char const*', 'ke::args::IOption*'))
CONTRACTS = [C, PV.ct, OV.ct, sc, lc]
NONE = BV(-1)
W64 = z3.BitVecSort(64)
LONGF = z3.Function('LONG', W64, W64, W64, W64)
SHORTF = z3.Function('SHORT', W64, W64, W64, W64)
INLINEF = z3.Function('INLINE', z3.BitVecSort(8), W64)
CELLS = ('SI', 'SP', 'PASS', 'DUE', 'HALT', 'PH')
ONE, ZERO = BV(1), BV(0)


def gget(st, k):
    return simp(st.get(st.ghost['G'], 8, 8 * CELLS.index(k)))


def gput(ex, st, k, v):
    g = st.ghost['G']
    o = st.w(g.obj)
    cell_write(o, 8 * CELLS.index(k), 8, simp(v))
    st.wr.add(('c', o.id, 8 * CELLS.index(k), 8))


def flag(b):
    return If(b, ONE, ZERO)


def new_string(st, name, tag):
    """an arbitrary C string in an object of exactly its size"""
    L = fresh_bv(name + ' length')
    st.assume(ULT(L, BV(1 << 40)))
    p = st.new_seq(name, simp(L + 1), 1, {0: ('bv', 1)}, 'param', align=1, tag=tag)
    o = st.mem[p.obj]
    o.const = True
    f = o.data[0]
    st.assume(f(L) == B0, Q(tag, lambda i: Implies(ULT(i, L), f(i) != B0), name))
    o.shadow['nul'] = (L,)
    return p, L, f


def ch(c):
    return BV(ord(c), 8)


def first(st, f, L, c, name):
    """position of the first c, or L"""
    e = fresh_bv(name)
    st.assume(ULE(e, L), Implies(ULT(e, L), f(e) == ch(c)), Q('c', lambda j: Implies(ULT(j, e), f(j) != ch(c)), name))
    return e


def begin(ex, st, idx, E):
    """the next argument: what the documentation says is to happen with it"""
    p, L, f = new_string(st, 'argument', 'c')
    fl, at = E['flags'], E['attr']
    P = gget(st, 'PASS') != 0
    c = [If(ULT(BV(i), L), f(BV(i)), B0) for i in range(5)]
    sw = And(fl['passargs'], Not(P), L == 2, c[0] == ch('-'), c[1] == ch('-'))
    isopt = Or(c[0] == ch('-'), And(fl['slashes'], c[0] == ch('/')))
    e1, e2 = first(st, f, L, '=', 'equals sign'), first(st, f, L, ':', 'colon')
    sep = If(ULT(e1, L), e1, If(fl['inline'], e2, L))
    # -key= and -key: without a value do not count where inline values are enabled
    sep = If(And(fl['inline'], sep == L - 1), L, sep)
    key_end = sep
    dd = And(c[0] == ch('-'), c[1] == ch('-'))
    oid = BV(p.obj)
    o1 = If(dd, LONGF(oid, BV(2), key_end - 2), SHORTF(oid, BV(1), key_end - 1))
    inl = And(Not(dd), o1 == NONE, fl['inline'])
    o2 = If(inl, INLINEF(If(ULT(BV(1), L), f(BV(1)), B0)), o1)
    sep = If(And(inl, o2 != NONE, UGT(key_end, 2)), BV(1), sep)
    no = And(o2 == NONE, *[c[i] == ch(x) for i, x in enumerate('--no-')])
    o3 = LONGF(oid, BV(5), key_end - 5)
    negated = And(no, o3 != NONE, at['NO'](o3))
    opt = If(o2 != NONE, o2, If(negated, o3, NONE))
    st.assume(*[Or(x == NONE, ULT(x, E['N'])) for x in (o1, o2, o3)])
    st.assume(ULT(opt, E['N']) == (opt != NONE))
    given = st.mem[E['o']].shadow['given']
    implied = If(negated, BV(2), If(And(opt != NONE, at['NO'](opt)), ONE, ZERO))
    has_sep = ULT(sep, L)
    pending = And(isopt, Not(has_sep), implied == 0)
    SI = norm(idx + 1)
    SP = gget(st, 'SP')
    last = SI == E['n']
    S = {'i': idx, 'p': p, 'isopt': isopt, 'sep': sep, 'has_sep': has_sep, 'opt': If(isopt, opt, E['pos'](SP)), 'implied': implied, 'was_pass': P,
         'none': And(isopt, opt == NONE), 'dup': And(isopt, Not(at['MULTI'](opt)), given(opt)), 'unwanted': And(isopt, has_sep, at['MUST'](opt)),
         'positional': And(Not(isopt), ULT(SP, E['np'])), 'extra': And(Not(isopt), UGE(SP, E['np'])), 'next': None,
         'needs': And(pending, last, Not(at['CAN'](opt))), 'wants_next': And(pending, Not(last), Not(at['MUST'](opt))),
         'wants_null': And(pending, Or(last, at['MUST'](opt)))}
    S['bad'] = Or(S['none'], S['dup'], S['unwanted'])
    st.ghost['cur'] = S
    gput(ex, st, 'SI', SI)
    gput(ex, st, 'PASS', flag(Or(P, sw)))
    gput(ex, st, 'DUE', flag(Not(sw)))
    gput(ex, st, 'PH', ZERO)
    return p


def load_arg(ex, st, o, idx):
    E = st.ghost['E']
    idx = norm(idx)
    S = st.ghost.get('cur')
    if S is not None and ex.must(st, idx == S['i']):
        return S['p']
    due, SI = gget(st, 'DUE'), gget(st, 'SI')
    if S is not None and S['next'] is not None and ex.must(st, idx == S['i'] + 1) and ex.must(st, due == 1):
        return S['next']
    if S is None or ex.must(st, due == 0):
        ex.oblige(st, And(due == 0, idx == SI, gget(st, 'HALT') == 0), 'route', 'the arguments are handled one by one, until a stop option')
        if st.dead:
            return UNDEF
        return begin(ex, st, idx, E)
    if not ex.must(st, due == 1):
        raise Unsupported('argument read while another one is handled')
    ex.oblige(st, idx == SI, 'route', 'the argument read is the next one')
    if st.dead:
        return UNDEF
    p, L, f = new_string(st, 'next argument', 'w')
    S = dict(S, next=p)
    st.ghost['cur'] = S
    return p


def current(ex, st, what):
    S = st.ghost.get('cur')
    if S is None:
        ex.oblige(st, FALSE, 'route', '%s only while an argument is handled' % what)
    return S


# ---------------------------------------------------------------- the options
def attr(name):
    def m(ex, st, ins, av, i):
        ex.setr(st, ins, st.ghost['E']['attr'][name](i))
    return m


def repeats(ex, st, ins, av, i):
    E = st.ghost['E']
    ex.setr(st, ins, Or(E['attr']['MULTI'](i), Not(st.mem[E['o']].shadow['given'](i))))


def consume(ex, st, ins, av, o):
    S = current(ex, st, 'a value is given to an option')
    if S is None:
        return 'dead'
    E, v = st.ghost['E'], av[1]
    ph, can = gget(st, 'PH'), E['attr']['CAN'](o)
    took = False
    if not isinstance(v, Ptr):
        raise Unsupported('value')
    if v.isnull_const or (v.null is not False and ex.must(st, v.null)):
        ok = Or(And(S['wants_null'], ph == 0), And(S['wants_next'], ph == 1, can))
        null = True
    else:
        null = False
        if v.null is not False:
            ex.oblige(st, Not(v.null), 'route', 'whether the option gets a value is decided')
            if st.dead:
                return 'dead'
        b = st.mem[v.obj]
        if v.obj == S['p'].obj:
            ok = And(ph == 0, Or(And(S['isopt'], S['has_sep'], norm(v.off) == S['sep'] + 1), And(S['positional'], norm(v.off) == 0)))
        elif S['next'] is not None and v.obj == S['next'].obj:
            took = True
            ok = And(ph == 0, S['wants_next'], norm(v.off) == 0)
        elif 'bytes' in b.user and isval(norm(v.off)):
            t = b.user['bytes'][norm(v.off).as_long():].split(b'\0')[0]
            ok = And(ph == 0, S['isopt'], Not(S['has_sep']), S['implied'] == {b'true': 1, b'false': 2}.get(t, 3))
        else:
            ok = FALSE
    ex.oblige(st, And(gget(st, 'DUE') == 1, gget(st, 'PASS') == 0), 'route', 'a value is given only for an argument that is not yet handled')
    if not st.dead:
        ex.oblige(st, Not(Or(S['bad'], S['extra'], S['needs'])), 'route', 'no option gets a value for an argument that is not recognised')
    if not st.dead:
        ex.oblige(st, o == S['opt'], 'route', 'the option written gets the value')
    if not st.dead:
        ex.oblige(st, ok, 'route', 'the option gets the value written for it')
    if st.dead:
        return 'dead'
    out = [st]
    if not null:
        rej = st.copy()
        gput(ex, rej, 'PH', If(can, ONE, BV(2)) if took else BV(2))
        ex.setr(rej, ins, FALSE)
        out.append(rej)
    q = st.w(E['o'])
    q.shadow['given'] = q.shadow['given'].store(o, TRUE)
    st.wr.add(('sf', q.id, 'given'))
    gput(ex, st, 'DUE', ZERO)
    gput(ex, st, 'PH', ZERO)
    if took:
        gput(ex, st, 'SI', norm(gget(st, 'SI') + 1))
    gput(ex, st, 'SP', If(S['isopt'], gget(st, 'SP'), norm(gget(st, 'SP') + 1)))
    gput(ex, st, 'HALT', flag(E['attr']['HALTS'](o)))
    ex.setr(st, ins, TRUE)
    return out


METHODS = {'mustOmitValue': attr('MUST'), 'canOmitValue': attr('CAN'), 'haltOnValue': attr('HALTS'), 'canPrefixWithNo': attr('NO'),
           'willRepeat': repeats, 'consumeValue': consume}


@C.on(rx(r'^ke::args::ToggleOption::value\(\) const$'), 'ToggleOption::value of the help option: whether it was given (C28)')
def tvalue(ex, st, ins, av):
    E = st.ghost['E']
    r = split_index(norm(av[0].off), A.OPT) if av[0].obj == E['o'] else None
    if not r or r[1] != 0:
        raise Unsupported('value of another option')
    if av[0].null is not False:
        ex.oblige(st, Not(av[0].null), 'memory', 'value of an option')
        if st.dead:
            return 'dead'
    ex.setr(st, ins, And(r[0] == E['help'], st.mem[E['o']].shadow['given'](r[0])))


def key(ex, st, p, length):
    S = current(ex, st, 'an option is looked up')
    if S is None:
        return None
    t = target(ex, st, p, 'lookup')
    if t is None:
        return None
    if t[0].id != S['p'].obj:
        raise Unsupported('lookup by another text')
    n = norm(t[0].n - 1)
    ex.oblige(st, And(ULE(t[1], n), ULE(length, n - t[1])), 'memory', 'the text looked up lies inside the argument')
    return None if st.dead else (BV(t[0].id), t[1])


def found(ex, st, ins, r):
    E = st.ghost['E']
    st.assume(Or(r == NONE, ULT(r, E['N'])))
    ex.setr(st, ins, Ptr(E['o'], norm(BV(A.OPT) * r), simp(r == NONE)))


for nm, F in (('find_long', LONGF), ('find_short', SHORTF)):
    @C.on(rx(r'^ke::args::Parser::%s\(char const\*, unsigned long\)$' % nm), 'Parser::%s: the first option with that form, or null (shown below)' % nm)
    def find(ex, st, ins, av, F=F):
        if 'E' not in st.ghost:
            return NOTHANDLED
        k = key(ex, st, av[1], av[2])
        if k is None:
            return 'dead'
        found(ex, st, ins, F(k[0], k[1], av[2]))


@C.on(rx(r'^ke::args::Parser::find_inline_short\(char\)$'), 'Parser::find_inline_short: the first option with that one-character form, or null (shown below)')
def find1(ex, st, ins, av):
    if 'E' not in st.ghost:
        return NOTHANDLED
    found(ex, st, ins, INLINEF(av[1]))


# ---------------------------------------------------------------- extra, passthrough, errors
@C.on(A.SV(r'string& svec::emplace_back<char const\*&?>\(char const\*&&?\)'), 'std::vector<std::string>::emplace_back: one more string')
def push(ex, st, ins, av):
    E = st.ghost['E']
    p = ex.load(st, av[1], ir.PTR)
    S = current(ex, st, 'an argument is collected')
    if S is None or st.dead:
        return 'dead'
    which = [k for k in ('extra', 'pass') if av[0].obj == E[k].obj and norm(av[0].off).eq(norm(E[k].off))]
    if not which:
        raise Unsupported('another vector')
    ok = And(gget(st, 'DUE') == 1, gget(st, 'PH') == 0)
    if which == ['extra']:
        ok = And(ok, Not(S['was_pass']), S['extra'], E['flags']['collect'])
    else:
        ok = And(ok, S['was_pass'])
    ex.oblige(st, ok, 'route', 'exactly the %s arguments are collected there' % which[0])
    if not st.dead:
        ex.oblige(st, z3.BoolVal(False) if p is UNDEF or p.obj != S['p'].obj else norm(p.off) == 0, 'route', 'the argument itself is collected')
    if st.dead:
        return 'dead'
    gput(ex, st, 'DUE', ZERO)
    if ins.res is not None:
        ex.setr(st, ins, fresh_ptr(st))


def fresh_ptr(st):
    return st.new_cells('new string', 32)


@C.on(rx(r'^ke::StringPrintf(\[abi:cxx11\])?\(char const\*, \.\.\.\)$'), 'StringPrintf: text with at least the literal characters of the format (C06); strings to be formatted are not null')
def printf(ex, st, ins, av):
    t = target(ex, st, av[1], 'format')
    if t is None:
        return 'dead'
    if 'bytes' not in t[0].user or not isval(t[1]):
        raise Unsupported('format')
    f = t[0].user['bytes'][t[1].as_long():].split(b'\0')[0]
    subs = re.findall(rb'%(.)', f)
    for k, c in enumerate(subs):
        if c != b's':
            raise Unsupported('format')
        a = target(ex, st, av[2 + k], 'formatted string')
        if a is None:
            return 'dead'
        ex.oblige(st, ULT(a[1], a[0].n), 'memory', 'a formatted string is inside its object')
        if st.dead:
            return 'dead'
    n = fresh_bv('text length')
    st.assume(UGE(n, BV(len(f) - 2 * len(subs))), ULT(n, BV(1 << 42)))
    make_string(ex, st, av[0], fresh_fn('text', 8), n)
    return done(st)


# ---------------------------------------------------------------- parse_impl
def parse_spec(ex, entry, view):
    cs = []
    E = entry.ghost.get('E')
    if E is None:
        return cs
    for k in ('DUE', 'HALT', 'PH'):
        cs.append(Cand(k + ' is 0', lambda s, k=k: gget(s, k) == 0))
    cs.append(Cand('passthrough', lambda s: z3.ZeroExt(56, s.get(E['haspass'], 1)) == gget(s, 'PASS')))
    cs.append(Cand('passthrough is a flag', lambda s: ULE(gget(s, 'PASS'), 1)))
    cs.append(Cand('arguments', lambda s: ULE(gget(s, 'SI'), E['n'])))
    cs.append(Cand('positionals', lambda s: ULE(gget(s, 'SP'), E['np'])))
    for tn, tf in view.terms:
        for k in ('SI', 'SP'):
            cs.append(Cand('%s is %s' % (k, tn), lambda s, tf=tf, k=k: tf(s) == gget(s, k)))
    return cs


def setup(h):
    """a parser over arbitrary options, with arbitrary settings"""
    p = h.arbitrary('parser', h.const('c27_psize'))
    at = {k: fresh_fn(k, 'bool', 'o') for k in ('MUST', 'CAN', 'HALTS', 'NO', 'MULTI', 'HASS', 'HASL', 'HASN')}
    st = h.st
    text, L, f = new_string(st, 'a name', 'f')

    def name(k):
        return ('special', lambda ex, s, o, i: Ptr(text.obj, BV(0), simp(Not(at[k](i)))))
    fam = A.Family(h, METHODS, {8: name('HASS'), 16: name('HASL'), 24: name('HASN')})
    st.assume(Q('o', lambda i: Or(at['HASS'](i), at['HASL'](i), at['HASN'](i)), 'named'))
    st.mem[fam.obj].shadow['given'] = fresh_fn('given', 'bool', 'o')
    E = {'o': fam.obj, 'N': fam.N, 'attr': at}
    for fn in ('options', 'positionals', 'help', 'error', 'extra', 'pass', 'haspass', 'inline', 'slashes', 'collect', 'passargs'):
        ss = h.run('c27_' + fn, p)
        h.st, E['helpp' if fn == 'help' else fn] = ss[0], ss[0].ret
    st = h.st
    E['no'], E['opts'] = fam.list(h, st, E['options'], 'options', 'a')
    E['np'], E['pos'] = fam.list(h, st, E['positionals'], 'positionals', 'b')
    return p, fam, E, at


def parse(h, inline, slashes, passargs):
    if inline and h.tier == 'quick':
        raise Unsupported('inline values: proved by the thorough check (it takes 10 minutes or more), bounded here')
    p, fam, E, at = setup(h)
    st = h.st
    E['flags'] = {}
    for k in ('inline', 'slashes', 'collect', 'passargs', 'haspass'):
        b = {'inline': z3.BoolVal(inline), 'slashes': z3.BoolVal(slashes), 'passargs': z3.BoolVal(passargs)}.get(k)
        b = h.bool(k) if b is None else b
        st.put(E[k], 1, If(b, BV(1, 8), BV(0, 8)))
        E['flags'][k] = b
    E['n'] = h.bv('arguments')
    st.assume(ULE(E['n'], BV(1 << 40)))
    args = h.st.new_seq('arguments', E['n'], 8, {0: ('special', load_arg)}, 'param', align=8, tag='i')
    av = h.st.new_cells('args', 24)
    for k, off in enumerate((BV(0), BV(8) * E['n'], BV(8) * E['n'])):
        st.put(av, 8, Ptr(args.obj, norm(off)), 8 * k)
    hi, hp, none = h.bv('help option'), h.bv('help position'), h.bool('no help option')
    st.assume(ULT(hi, fam.N), Implies(Not(none), And(ULT(hp, E['no']), E['opts'](hp) == hi)))
    E['help'] = hi
    st.put(E['helpp'], 8, Ptr(fam.obj, norm(BV(A.OPT) * hi), none))
    make_string(h.ex, st, E['error'], fresh_fn('error', 8), h.bv('error length'))
    g = st.ghost['G'] = st.new_cells('ghost', 8 * len(CELLS))
    for k in CELLS:
        st.put(g, 8, ZERO, 8 * CELLS.index(k))
    gput(h.ex, st, 'PASS', flag(E['flags']['haspass']))
    st.ghost['E'] = E
    h.ex.vocab += [E['n'], E['np'], E['no']]
    h.ex.loop_specs.append(parse_spec)
    for x in h.run('c27_parse_impl', p, av, st=st):
        done_ = And(gget(x, 'DUE') == 0, Or(gget(x, 'HALT') == 1, And(gget(x, 'SI') == E['n'], UGE(gget(x, 'SP'), E['np']))))
        bad = And(gget(x, 'DUE') == 0, gget(x, 'HALT') == 0, gget(x, 'SI') == E['n'], ULT(gget(x, 'SP'), E['np']))
        S = x.ghost.get('cur')
        if S is not None:
            stuck = Or(And(S['isopt'], Or(S['bad'], S['needs'])), And(S['extra'], Not(E['flags']['collect'])), gget(x, 'PH') == 2)
            bad = Or(bad, And(gget(x, 'DUE') == 1, gget(x, 'PASS') == 0, stuck))
        helped = And(Not(none), x.mem[E['o']].shadow['given'](hi))
        h.check(x, Implies(B(x.ret), done_), 'parse: succeeds only when everything was recognised and nothing is missing')
        h.check(x, Implies(B(x.ret), Not(helped)), 'parse: does not succeed when help is asked for')
        h.check(x, Implies(Not(B(x.ret)), Or(bad, And(done_, helped))), 'parse: fails only for an error or a help request')
        t, n = content(h.ex, x, E['error'])
        h.check(x, Implies(And(Not(B(x.ret)), bad), n != 0), 'parse: an error is recorded')


OPTS = {'sample': 40, 'max_paths': 60000}
for k in range(8):
    inline, slashes, passargs = bool(k & 4), bool(k & 2), bool(k & 1)
    name = [nm for nm, b in (('inline values', inline), ('slashes', slashes), ('passthrough arguments', passargs)) if b]
    T.add('parse_impl%s' % (': ' + ', '.join(name) if name else ''), 'every argument goes where the documentation says', opts=OPTS)(
        lambda h, a=(inline, slashes, passargs): parse(h, *a))


# ---------------------------------------------------------------- looking an option up
W2 = (W64, W64)
CHAR = fresh_fn2('form character', 8, ('o', 'f'))
FORMLEN = fresh_fn('form length', 64, 'o')


def form_of(has, form):
    """the name an option has in the looked-up form: null, or a string of its own"""
    def get(ex, st, o, i):
        i = norm(i)
        for j, p in st.ghost.get('forms', ()):
            if j.eq(i):
                return p
        L = FORMLEN(i)
        p = st.new_seq('form', norm(L + 1), 1, {0: ('bv', 1)}, 'param', align=1, tag='f')
        b = st.mem[p.obj]
        b.const = True
        b.data[0] = Fn(lambda j, i=i: CHAR(i, j))
        b.shadow['nul'] = (L,)
        st.assume(ULT(L, BV(1 << 40)), CHAR(i, L) == B0, Q('f', lambda j, i=i, L=L: Implies(ULT(j, L), CHAR(i, j) != B0), 'form'))
        r = Ptr(p.obj, BV(0), simp(Not(has(i))))
        st.ghost['forms'] = st.ghost.get('forms', ()) + ((i, r),)
        return r
    return ('special', get)


def lookup(h, which):
    p = h.arbitrary('parser', h.const('c27_psize'))
    has = fresh_fn('has form', 'bool', 'o')
    other = fresh_fn('has other', 'bool', 'o')
    st = h.st
    text, L, f = new_string(st, 'another name', 'x')
    off = 16 if which == 'long' else 8
    fam = A.Family(h, {}, {off: form_of(has, which), 24 - off: ('special', lambda ex, s, o, i: Ptr(text.obj, BV(0), simp(Not(other(i)))))})
    ss = h.run('c27_options', p)
    h.st = st = ss[0]
    n, at = fam.list(h, st, ss[0].ret, 'options', 'a')
    key, KL, kf = new_string(st, 'argument', 'c')
    at0, length, c = h.bv('start'), h.bv('length'), h.bv('character', 8)
    if which == 'inline':
        length, text = BV(1), lambda j: c
    else:
        st.assume(ULE(at0, KL), ULE(length, KL - at0))
        text = lambda j: kf(norm(at0 + j))
    M, WIT = fresh_fn('matches', 'bool', 'o'), fresh_fn('differs at', 64, 'o')
    # an option matches when its form is exactly the text looked up
    st.assume(Q('o', lambda o: Implies(M(o), And(has(o), FORMLEN(o) == length)), 'm'),
              Q(('o', 'f'), lambda o, j: Implies(And(M(o), ULT(j, length)), CHAR(o, j) == text(j)), 'mc'),
              Q('o', lambda o: Implies(And(Not(M(o)), has(o), FORMLEN(o) == length), And(ULT(WIT(o), length), CHAR(o, WIT(o)) != text(WIT(o)))), 'nm'))
    F = h.bv('first match')
    st.assume(ULE(F, n), Implies(ULT(F, n), M(at(F))), Q('a', lambda t: Implies(ULT(t, F), Not(M(at(t)))), 'first'))
    h.ex.vocab += [F]

    def spec(ex, entry, view):
        cs = []
        for tn, tf in view.terms:
            cs.append(Cand('%s <= first' % tn, lambda s, tf=tf: ULE(tf(s), F)))
            cs.append(Cand('%s <= 8 first' % tn, lambda s, tf=tf: ULE(tf(s), BV(8) * F)))
        return cs
    h.ex.loop_specs.append(spec)
    a = (c,) if which == 'inline' else (Ptr(key.obj, at0), length)
    for x in h.run({'inline': 'c27_inl'}.get(which, 'c27_' + which), p, *a, st=st):
        r = x.ret
        if isinstance(r, Ptr) and r.isnull_const:
            h.check(x, F == n, 'lookup: null only when no option has that form')
        elif isinstance(r, Ptr) and r.obj == fam.obj:
            none = r.null if r.null is not False else FALSE
            h.check(x, If(none, F == n, And(ULT(F, n), norm(r.off) == BV(A.OPT) * at(F))), 'lookup: the first option with exactly that form')
        else:
            h.check(x, FALSE, 'lookup: an option or null')


for which in ('short', 'long', 'inline'):
    T.add('find_%s' % {'inline': 'inline_short'}.get(which, which), 'the first option with exactly that form, or null')(lambda h, which=which: lookup(h, which))


# ---------------------------------------------------------------- parse and add
def cvec(d):
    return d.replace('> >', '>>').replace('std::vector<char const*, std::allocator<char const*>>', 'vec')


@C.on(lambda d, m: re.match(r'vec::vector\(\)$', cvec(d)), 'std::vector<const char*>: starts empty')
def vstart(ex, st, ins, av):
    if 'given' not in st.ghost:
        return NOTHANDLED
    oid = PV.new_storage(st, BV(1 << 42), fresh_fn('collected', 64, 'i'), BV(0))
    st.w(oid).user['in place'] = True
    PV.install(ex, st, av[0], oid, BV(0), fresh_bv('capacity'))
    st.ghost['vec'] = (av[0], oid)
    return done(st)


@C.on(lambda d, m: re.match(r'ke::args::Parser::parse_impl\(vec const&\)$', cvec(d)), 'Parser::parse_impl (shown above)')
def impl(ex, st, ins, av):
    if 'given' not in st.ghost:
        return NOTHANDLED
    n, word, p, whole = st.ghost['given']
    ex.oblige(st, And(z3.BoolVal(av[0].obj == p.obj), norm(av[0].off) == p.off, st.ghost['parsed'] == 0), 'parse: this parser parses, once')
    if whole is not None:
        ex.oblige(st, z3.BoolVal(av[1].obj == whole.obj and norm(av[1].off).eq(norm(whole.off))), 'post', 'parse: the arguments given are parsed')
    else:
        r = PV.at(ex, st, av[1])
        if r is None or st.dead:
            return 'dead'
        ex.oblige(st, r[1] == n, 'post', 'parse: as many arguments as given')
        if r[0] is not None:
            f = PV.value(st, r[0])
            ex.oblige(st, Q('i', lambda i: Implies(ULT(i, n), f(i) == word(i)), 'arguments'), 'post', 'parse: the arguments given, in order')
    if st.dead:
        return 'dead'
    st.ghost['parsed'] = st.ghost['parsed'] + 1
    ex.setr(st, ins, st.ghost['accepted'])
    return done(st)


def args_spec(ex, entry, view):
    if 'vec' not in entry.ghost:
        return []
    v, oid = entry.ghost['vec']
    n, word, p, whole = entry.ghost['given']
    cs = []

    def size(s):
        r = split_index(norm(cell_read(s.mem[v.obj], 8, 8).off), 8)
        return r[0]
    cs.append(Cand('collected so far', lambda s: Q('i', lambda i, f=PV.value(s, oid), k=size(s): Implies(ULT(i, k), f(i) == word(i)), 'collected')))
    cs.append(Cand('not too many', lambda s: ULE(size(s), n)))
    for tn, tf in view.terms:
        cs.append(Cand('size is %s' % tn, lambda s, tf=tf: tf(s) == size(s)))
        cs.append(Cand('size + 1 is %s' % tn, lambda s, tf=tf: tf(s) == norm(size(s) + 1)))
    return cs


def wrapper(h, kind):
    p = h.arbitrary('parser', h.const('c27_psize'))
    st = h.st
    acc = h.bool('accepted')
    whole = None
    if kind == 'main':
        argc = h.bv('argc', 32)
        n0 = h.bv('argc elements')
        st.assume(n0 == z3.SignExt(32, argc), argc >= 0)
        src = st.new_seq('argv', norm(n0 + 1), 8, {0: ('bv', 8)}, 'param', align=8, tag='i')
        f = st.mem[src.obj].data[0]
        n, word = simp(If(argc == 0, BV(0), n0 - 1)), (lambda i: f(norm(i + 1)))
        a = (argc, src)
    else:
        n = h.bv('arguments')
        st.assume(ULE(n, BV(1 << 40)))
        a = h.st.new_cells('args', 24)
        size = 8 if kind == 'ptrs' else 32
        src = st.new_seq('args storage', n, size, {0: ('bv', 8)}, 'param', align=8, tag='i')
        word = st.mem[src.obj].data[0]
        for k, off in enumerate((BV(0), BV(size) * n, BV(size) * n)):
            st.put(a, 8, Ptr(src.obj, norm(off)), 8 * k)
        if kind == 'ptrs':
            whole = a
        a = (a,)
    st.ghost['given'] = (n, word, p, whole)
    st.ghost['parsed'] = BV(0)
    st.ghost['accepted'] = acc
    h.ex.vocab += [n]
    h.ex.loop_specs.append(args_spec)
    for x in h.run('c27_parse_' + kind, p, *a, st=st):
        h.check(x, x.ghost['parsed'] == 1, 'parse: the arguments are parsed')
        h.check(x, B(x.ret) == acc, 'parse: says whether they were accepted')


for kind, doc in (('main', 'parse(argc, argv)'), ('ptrs', 'parse(vector<const char*>)'), ('strs', 'parse(vector<string>)')):
    T.add(doc, 'every argument given is parsed, in order, the program name not')(lambda h, kind=kind: wrapper(h, kind))


@T.add('add', 'an option with a form becomes an option, any other a positional; order kept')
def add(h):
    p = h.arbitrary('parser', h.const('c27_psize'))
    has = {k: h.bool(k) for k in ('short form', 'long form', 'name')}
    text, L, f = new_string(h.st, 'a name', 'x')
    o = h.st.new_cells('option', A.OPT)
    for k, nm in ((8, 'short form'), (16, 'long form'), (24, 'name')):
        h.st.put(o, 8, Ptr(text.obj, BV(0), simp(Not(has[nm]))), k)
    vs = {}
    for nm in ('options', 'positionals'):
        ss = h.run('c27_' + nm, p)
        h.st = st = ss[0]
        q, oid, n, data = OV.given(h, st, nm)
        for k in range(3):
            st.put(ss[0].ret, 8, st.get(q, 8, 8 * k), 8 * k)
        vs[nm] = (ss[0].ret, oid, n, data)
    me = h.ex.ptrtoint(st, o)
    isopt = Or(has['short form'], has['long form'])
    for x in h.run('c27_add', p, o, st=st):
        for nm, mine in (('options', isopt), ('positionals', Not(isopt))):
            v, oid, n, data = vs[nm]
            r = OV.at(h.ex, x, v)
            if r is None:
                continue
            g = OV.value(x, r[0])
            h.check(x, r[1] == If(mine, n + 1, n), 'add: one more in the list the option belongs to')
            h.check(x, Q('i', lambda i: Implies(ULT(i, n), g(i) == data(i)), 'kept'), 'add: the others stay as they are')
            h.check(x, Implies(mine, g(n) == me), 'add: the option comes last')
