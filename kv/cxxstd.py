"""Contracts on std::string (real layout: data pointer, length, 16 bytes of local storage; the characters always live
in a separate byte sequence, whose extent is the length plus the terminator)."""
from .cstr import *

STRING = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
sc = Contracts()
BIG = BV(1 << 46)


def nrm(d):
    return d.replace(STRING, 'string').replace('std::allocator<char>', 'alloc').replace('[abi:cxx11]', '')


def S(pat):
    c = re.compile('^(?:%s)$' % pat)
    return lambda d, m: c.search(nrm(d)) is not None


def extent(ex, st, o):
    """accessible bytes of a string buffer: length + 1"""
    p = o.user['owner']
    n = ex.load(st, Ptr(p.obj, norm(p.off + 8)), ir.I64)
    return simp(n + 1)


def s_len(ex, st, p, what='read'):
    v = ex.load(st, Ptr(p.obj, norm(p.off + 8), p.null), ir.I64, what)
    if v is UNDEF:
        ex.oblige(st, FALSE, 'memory', '%s of a string that is not constructed' % what)
        return None
    return v


def s_ptr(ex, st, p, what='read'):
    v = ex.load(st, p, ir.PTR, what)
    if v is UNDEF:
        ex.oblige(st, FALSE, 'memory', '%s of a string that is not constructed' % what)
        return None
    return v


def s_set(ex, st, p, buf, n):
    ex.store(st, p, ir.PTR, buf)
    if not st.dead:
        ex.store(st, Ptr(p.obj, norm(p.off + 8), p.null), ir.I64, n)


def content(ex, st, p):
    """(character function, length) of the string at p"""
    n = s_len(ex, st, p)
    if n is None or st.dead:
        return None
    b = s_ptr(ex, st, p)
    if b is None or st.dead:
        return None
    if b.obj is None:
        raise Unsupported('string without a buffer')
    o = ex.known(st, b.obj)
    if not o.live:
        ex.oblige(st, FALSE, 'memory', 'read of a string after its lifetime ended')
        return None
    f, off = o.data[0], norm(b.off)
    return Fn(lambda i: f(norm(off + i))), n


def text_at(ex, st, p, n, what):
    """character function of n readable bytes at p"""
    n = simp(n)
    if isval(n) and n.as_long() == 0:
        return const_fn(B0)
    r = ex.rng(st, p, n, what)
    if st.dead:
        return None
    if r is None:
        return const_fn(B0)
    o, off = r
    if isinstance(o, Cells):
        if not isval(n) or not isval(simp(off)):
            raise Unsupported('%s of a symbolic part of %s' % (what, o.name))
        return bytes_term([cell_read(o, simp(off).as_long() + i, 1) for i in range(n.as_long())])
    if o.stride != 1:
        raise Unsupported('%s of %s' % (what, o.name))
    f, off = o.data[0], norm(off)
    return Fn(lambda i: f(norm(off + i)))


def bytes_term(bs):
    def at(i):
        r = B0
        for k in reversed(range(len(bs))):
            b = fresh_bv('undef', 8) if bs[k] is UNDEF else bs[k]
            r = If(i == k, b, r)
        return r
    return Fn(at)


def joined(f, n, g):
    """f below n, then g"""
    return Fn(lambda i: If(ULT(i, n), f(i), g(norm(i - n))))


def make_string(ex, st, p, f, n):
    """construct at p a string with characters f[0..n)"""
    n = simp(n)
    st.assume(ULE(n, BIG))
    o = Seq('string', 'heap-str', BV(1 << 47), 1, {0: ('bv', 1)}, data={0: Fn(lambda i: If(ULT(i, n), f(i), B0))}, align=1)
    o.user['owner'] = p
    o.user['extent'] = extent
    o.shadow['nul'] = (n,)
    st.add(o)
    s_set(ex, st, p, Ptr(o.id, BV(0)), n)
    return o


def rewrite(ex, st, p, f, n):
    """give the string at p new characters, in its own buffer"""
    b = s_ptr(ex, st, p, 'write')
    if b is None or st.dead:
        return
    n = simp(n)
    st.assume(ULE(n, BIG))
    if b.obj is None or 'owner' not in st.mem[b.obj].user:
        raise Unsupported('change of a string with foreign storage')
    o = st.w(b.obj)
    if not o.live:
        ex.oblige(st, FALSE, 'memory', 'write to a string after its lifetime ended')
        return
    o.data[0] = Fn(lambda i: If(ULT(i, n), f(i), B0))
    o.shadow['nul'] = (n,)
    st.wr.add(('f', o.id, 0))
    ex.store(st, Ptr(p.obj, norm(p.off + 8), p.null), ir.I64, n)


def given_string(h, name, L, st=None):
    """a string in an arbitrary state: any characters"""
    st = st or h.st
    p = st.new_cells(name, 32)
    f = fresh_fn(name + '.char', 8)
    st.assume(ULT(L, BIG))
    make_string(h.ex, st, p, f, L)
    return p, f


def done(st):
    return 'dead' if st.dead else None


def ctor(pat, txt):
    return sc.on(S(r'string::basic_string(?:<[^(]*>)?\(%s\)' % pat), 'std::string(%s)' % txt)


@ctor('(?:alloc const&)?', '')
def k0(ex, st, ins, av):
    make_string(ex, st, av[0], const_fn(B0), BV(0))
    return done(st)


@ctor('char const\\*, alloc const&', 'const char*: the characters up to the terminator')
def k1(ex, st, ins, av):
    n = scan(ex, st, av[1], None, B0, 'string')
    if n is None:
        return 'dead'
    f = text_at(ex, st, av[1], n, 'string')
    if f is None:
        return 'dead'
    make_string(ex, st, av[0], f, n)
    return done(st)


@ctor('char const\\*, unsigned long, alloc const&', 'const char*, n: exactly n characters')
def k2(ex, st, ins, av):
    f = text_at(ex, st, av[1], av[2], 'string')
    if f is None:
        return 'dead'
    h = ex.opts.get('string_slice')
    if h and h(ex, st, av):
        return done(st)
    make_string(ex, st, av[0], f, av[2])
    return done(st)


@ctor('unsigned long, char, alloc const&', 'n, c: n times c')
def k3(ex, st, ins, av):
    c = av[2]
    make_string(ex, st, av[0], const_fn(c), av[1])
    return done(st)


@ctor('string const&(?:, alloc const&)?', 'const string&: copy')
def k4(ex, st, ins, av):
    t = content(ex, st, av[1])
    if t is None:
        return 'dead'
    make_string(ex, st, av[0], *t)
    return done(st)


@ctor('string const&, unsigned long, unsigned long', 'string, pos, n: substring')
def k5(ex, st, ins, av):
    return sub(ex, st, av[0], av[1], av[2], av[3])


@ctor('string const&, unsigned long', 'string, pos: substring')
def k6(ex, st, ins, av):
    return sub(ex, st, av[0], av[1], av[2], BV(-1))


@ctor('string&&', 'string&&: takes the characters, the source is left empty')
def k7(ex, st, ins, av):
    t = content(ex, st, av[1])
    if t is None:
        return 'dead'
    b = s_ptr(ex, st, av[1])
    if 'owner' not in st.mem[b.obj].user:
        raise Unsupported('move of a string with foreign storage')
    # the characters go to a buffer of the new string; the source keeps an (empty) buffer of its own
    make_string(ex, st, av[0], *t)
    if not st.dead:
        rewrite(ex, st, av[1], const_fn(B0), BV(0))
    return done(st)


def sub(ex, st, out, src, pos, n):
    t = content(ex, st, src)
    if t is None:
        return 'dead'
    f, L = t
    ex.oblige(st, ULE(pos, L), 'throw', 'substring starts inside the string')
    if st.dead:
        return 'dead'
    m = simp(If(ULE(n, L - pos), n, L - pos))
    make_string(ex, st, out, Fn(lambda i: f(norm(pos + i))), m)
    return done(st)


@sc.on(S(r'string::substr\(unsigned long, unsigned long\) const'), 'std::string::substr')
def substr(ex, st, ins, av):
    return sub(ex, st, av[0], av[1], av[2], av[3])


@sc.on(S(r'string::~basic_string\(\)'), '~std::string: releases its characters once')
def dtor(ex, st, ins, av):
    h = ex.opts.get('string_end')
    if h and h(ex, st, av[0]):
        return done(st)
    b = s_ptr(ex, st, av[0], 'destruction')
    if b is None or st.dead:
        return 'dead'
    o = st.mem[b.obj]
    if 'owner' not in o.user:
        raise Unsupported('destruction of a string with foreign storage')
    if not o.live:
        ex.oblige(st, FALSE, 'lifetime', 'a string is destroyed once')
        return 'dead'
    o = st.w(b.obj)
    o.live = False
    st.wr.add(('free', o.id))
    ex.store(st, av[0], ir.PTR, UNDEF)
    return done(st)


def assign(ex, st, ins, av, t):
    if t is None:
        return 'dead'
    rewrite(ex, st, av[0], *t)
    ex.setr(st, ins, av[0])
    return done(st)


def cstr_text(ex, st, p):
    n = scan(ex, st, p, None, B0, 'string')
    if n is None:
        return None
    f = text_at(ex, st, p, n, 'string')
    return None if f is None else (f, n)


def ranged(ex, st, p, n):
    f = text_at(ex, st, p, n, 'string')
    return None if f is None else (f, n)


def appended(ex, st, p, t):
    if t is None:
        return None
    a = content(ex, st, p)
    if a is None:
        return None
    return joined(a[0], a[1], t[0]), simp(a[1] + t[1])


@sc.on(S(r'string::(?:operator=|assign)\(string const&\)'), 'std::string = string')
def as1(ex, st, ins, av):
    return assign(ex, st, ins, av, content(ex, st, av[1]))


@sc.on(S(r'string::(?:operator=|assign)\(string&&\)'), 'std::string = string&&')
def as2(ex, st, ins, av):
    t = content(ex, st, av[1])
    r = assign(ex, st, ins, av, t)
    if not st.dead and not (av[0].obj == av[1].obj and norm(av[0].off).eq(norm(av[1].off))):
        rewrite(ex, st, av[1], const_fn(B0), BV(0))
    return r


@sc.on(S(r'string::(?:operator=|assign)\(char const\*\)'), 'std::string = const char*')
def as3(ex, st, ins, av):
    return assign(ex, st, ins, av, cstr_text(ex, st, av[1]))


@sc.on(S(r'string::assign\(char const\*, unsigned long\)'), 'std::string::assign(p, n)')
def as4(ex, st, ins, av):
    return assign(ex, st, ins, av, ranged(ex, st, av[1], av[2]))


@sc.on(S(r'string::assign\(unsigned long, char\)'), 'std::string::assign(n, c)')
def as5(ex, st, ins, av):
    return assign(ex, st, ins, av, (const_fn(av[2]), av[1]))


@sc.on(S(r'string::(?:operator\+=|append)\(string const&\)'), 'std::string += string')
def ap1(ex, st, ins, av):
    return assign(ex, st, ins, av, appended(ex, st, av[0], content(ex, st, av[1])))


@sc.on(S(r'string::(?:operator\+=|append)\(char const\*\)'), 'std::string += const char*')
def ap2(ex, st, ins, av):
    return assign(ex, st, ins, av, appended(ex, st, av[0], cstr_text(ex, st, av[1])))


@sc.on(S(r'string::append\(char const\*, unsigned long\)'), 'std::string::append(p, n)')
def ap3(ex, st, ins, av):
    return assign(ex, st, ins, av, appended(ex, st, av[0], ranged(ex, st, av[1], av[2])))


@sc.on(S(r'string::append\(unsigned long, char\)'), 'std::string::append(n, c)')
def ap4(ex, st, ins, av):
    return assign(ex, st, ins, av, appended(ex, st, av[0], (const_fn(av[2]), av[1])))


def push(ex, st, p, c):
    """one more character: a point update, so that loops can be described"""
    n = s_len(ex, st, p)
    b = s_ptr(ex, st, p, 'write')
    if n is None or b is None or st.dead:
        return
    if 'owner' not in st.mem[b.obj].user:
        raise Unsupported('change of a string with foreign storage')
    st.assume(ULT(n, BIG))
    ex.store(st, Ptr(p.obj, norm(p.off + 8), p.null), ir.I64, simp(n + 1))
    ex.store(st, Ptr(b.obj, norm(b.off + n)), ir.I8, c)
    ex.store(st, Ptr(b.obj, norm(b.off + n + 1)), ir.I8, B0)


@sc.on(S(r'string::(?:operator\+=|push_back)\(char\)'), 'std::string::push_back')
def pb(ex, st, ins, av):
    push(ex, st, av[0], av[1])
    if not st.dead and ins.res is not None:
        ex.setr(st, ins, av[0])
    return done(st)


@sc.on(S(r'string::clear\(\)'), 'std::string::clear')
def clr(ex, st, ins, av):
    rewrite(ex, st, av[0], const_fn(B0), BV(0))
    return done(st)


@sc.on(S(r'string::resize\(unsigned long(?:, char)?\)'), 'std::string::resize')
def rsz(ex, st, ins, av):
    t = content(ex, st, av[0])
    if t is None:
        return 'dead'
    f, n = t
    c = av[2] if len(av) > 2 else B0
    rewrite(ex, st, av[0], Fn(lambda i: If(ULT(i, n), f(i), c)), av[1])
    return done(st)


@sc.on(S(r'string::(?:reserve\((?:unsigned long)?\)|shrink_to_fit\(\))'), 'std::string::reserve: no observable effect')
def rsv(ex, st, ins, av):
    return None


def cmp_text(ex, st, a, b):
    """(r, sign 32) comparison of two (f, n)"""
    (f, n), (g, m) = a, b
    k = fresh_bv('cmp.k')
    r = fresh_bv('cmp', 32)
    lim = If(ULE(n, m), n, m)
    st.assume(ULE(k, lim), Or(k == lim, f(k) != g(k)))
    st.assume(Q('i', lambda i: Implies(ULT(i, k), f(i) == g(i)), 'compare'))
    same = And(k == lim, n == m)
    st.assume((r == 0) == same, (r < 0) == Or(And(ULT(k, lim), ULT(f(k), g(k))), And(k == lim, ULT(n, m))))
    return r


@sc.on(S(r'string::compare\(string const&\) const'), 'std::string::compare')
def cmp1(ex, st, ins, av):
    a = content(ex, st, av[0])
    b = content(ex, st, av[1]) if a else None
    if b is None:
        return 'dead'
    ex.setr(st, ins, cmp_text(ex, st, a, b))


@sc.on(S(r'string::compare\(char const\*\) const'), 'std::string::compare(const char*)')
def cmp2(ex, st, ins, av):
    a = content(ex, st, av[0])
    b = cstr_text(ex, st, av[1]) if a else None
    if b is None:
        return 'dead'
    ex.setr(st, ins, cmp_text(ex, st, a, b))


@sc.on(S(r'string::compare\(unsigned long, unsigned long, (?:string const&|char const\*(?:, unsigned long)?)\) const'), 'std::string::compare(pos, n, ...)')
def cmp3(ex, st, ins, av):
    a = content(ex, st, av[0])
    if a is None:
        return 'dead'
    f, L = a
    pos, n = av[1], av[2]
    ex.oblige(st, ULE(pos, L), 'throw', 'compared part starts inside the string')
    if st.dead:
        return 'dead'
    nm = nrm(ex.dem.get(ins.args[0][1], ''))
    if 'string const&' in nm:
        b = content(ex, st, av[3])
    elif len(av) > 4:
        b = ranged(ex, st, av[3], av[4])
    else:
        b = cstr_text(ex, st, av[3])
    if b is None:
        return 'dead'
    m = simp(If(ULE(n, L - pos), n, L - pos))
    ex.setr(st, ins, cmp_text(ex, st, (Fn(lambda i: f(norm(pos + i))), m), b))


@sc.on(S(r'bool std::operator(?:==|!=)<char, std::char_traits<char>, alloc ?>\(string const&, (?:string const&|char const\*)\)'), 'std::string == string')
def eq(ex, st, ins, av):
    nm = nrm(ex.dem.get(ins.args[0][1], ''))
    a = content(ex, st, av[0])
    if a is None:
        return 'dead'
    b = cstr_text(ex, st, av[1]) if 'char const*)' in nm else content(ex, st, av[1])
    if b is None:
        return 'dead'
    r = cmp_text(ex, st, a, b)
    e = r == 0
    ex.setr(st, ins, Not(e) if 'operator!=' in nm else e)


@sc.on(S(r'string::swap\(string&\)|void std::swap<char.*>\(string&, string&\)'), 'std::string::swap')
def swp(ex, st, ins, av):
    a = content(ex, st, av[0])
    b = content(ex, st, av[1]) if a else None
    if b is None:
        return 'dead'
    rewrite(ex, st, av[0], *b)
    if not st.dead:
        rewrite(ex, st, av[1], *a)
    return done(st)


# iterators, element access, size(), c_str() and the like are executed from their bodies


# ---------------------------------------------------------------- formatted output
va = Contracts()
FRESH, USED = BV(1), BV(2)
_va_ids = {}


def va_id(args):
    k = tuple('%s' % (a,) if not isinstance(a, z3.ExprRef) else a.get_id() for a in args)
    if k not in _va_ids:
        _va_ids[k] = (BV(1000 + len(_va_ids)), args)
    return _va_ids[k][0]


def given_va(h, name, st=None):
    """a va_list not yet used"""
    p = (st or h.st).new_cells(name, 24)
    (st or h.st).put(p, 8, FRESH)
    (st or h.st).put(p, 8, va_id((name,)), 8)
    (st or h.st).put(p, 8, BV(0), 16)
    return p


def text(st, fmt, ident):
    """the text that formatting these arguments yields: (characters, length)"""
    k = ('text', fmt.obj, simp(fmt.off).as_long(), simp(ident).as_long())
    t = st.ghost.get(k)
    if t is None:
        nm = 'text%d' % (len([x for x in st.ghost if isinstance(x, tuple) and x[0] == 'text']))
        t = (fresh_fn(nm, 8), z3.BitVec(fresh_name(nm + '.length'), 32))
        st.ghost[k] = t
        st.assume(t[1] >= 0)
    return t


def plain_text(ex, st, fmt, ident):
    """the format "%s" with one string argument whose length fits an int: that string"""
    o = ex.known(st, fmt.obj) if isinstance(fmt, Ptr) and fmt.obj is not None else None
    args = [a for i, a in _va_ids.values() if i.eq(simp(ident))]
    if o is None or not isval(simp(fmt.off)) or not args or len(args[0]) < 1 or not isinstance(args[0][0], Ptr):
        return None
    b = o.user.get('bytes')
    if b is None or b[simp(fmt.off).as_long():].split(b'\0')[0] != b'%s':
        return None
    p = args[0][0]
    n = scan(ex, st, p, None, B0, 'string')
    if n is None or not ex.must(st, ULT(n, BV(1 << 31))):
        return None
    f, off = st.mem[p.obj].data[0], norm(p.off)
    return Fn(lambda i: f(norm(off + i))), z3.Extract(31, 0, n)


@va.on(exact('vsnprintf', '__vsnprintf_chk'), 'vsnprintf: an error, or the length of the whole text, of which what fits is written with a terminator')
def c_vsn(ex, st, ins, av):
    if len(av) != 4:
        raise Unsupported('__vsnprintf_chk')
    buf, n, fmt, ap = av
    tok = ex.load(st, ap, ir.I64)
    if tok is UNDEF:
        ex.oblige(st, FALSE, 'va_list', 'the argument list is started')
        return 'dead'
    ex.oblige(st, tok == FRESH, 'va_list', 'an argument list is used once')
    if st.dead:
        return 'dead'
    ident = st.get(ap, 8, 8)
    st.put(ap, 8, USED)
    t = plain_text(ex, st, fmt, ident)
    if st.dead:
        return 'dead'
    if t is not None:
        st.event('formatted')
        r = outcome(ex, st, ins, buf, n, t[0], t[1], None)
        return [r] if r is not None else 'dead'
    F, L = text(st, fmt, ident)
    L64 = z3.ZeroExt(32, L)
    bad = st.copy()
    e = fresh_bv('vsnprintf', 32)
    bad.assume(e < 0)
    bad.event('format failed')
    st.event('formatted')
    outs = [x for x in (outcome(ex, st, ins, buf, n, F, L, None), outcome(ex, bad, ins, buf, n, F, L, e)) if x is not None]
    return [x for x in outs if ex.feasible(x)]


def outcome(ex, s, ins, buf, n, F, L, err):
    ok = err is None
    L64 = z3.ZeroExt(32, L)
    m = simp(If(n == 0, BV(0), If(ULT(L64, n), L64 + 1, n))) if ok else n    # bytes written
    g = fresh_fn('unspecified', 8)
    if not (isval(n) and n.as_long() == 0):
        r = ex.rng(s, buf, m, 'vsnprintf', True)
        if s.dead:
            return None
        if r is not None:
            o, off = r
            off = norm(off)
            w = s.w(o.id)
            if isinstance(o, Cells):
                if not isval(n):
                    raise Unsupported('vsnprintf of variable size into %s' % o.name)
                for i in range(n.as_long()):
                    k = simp(off).as_long() + i
                    new = If(ULT(BV(i), L64), F(BV(i)), B0) if i + 1 < n.as_long() else B0
                    cell_write(w, k, 1, simp(If(ULE(BV(i), L64), new, g(BV(i)))) if ok else g(BV(i)))
                    s.wr.add(('c', o.id, k, 1))
            elif o.stride == 1:
                w.data[0] = w.data[0].guarded(lambda j: And(ULE(off, j), ULT(j - off, m)),
                                              lambda j: If(norm(j - off) == m - 1, B0, F(norm(j - off))) if ok else g(j))
                if ok:
                    w.shadow['nul'] = (norm(off + m - 1),) + w.shadow.get('nul', ())
                s.wr.add(('f', o.id, 0))
            else:
                raise Unsupported('vsnprintf into %s' % o.name)
    ex.setr(s, ins, L if ok else err)
    return s


def va_start(ex, st, p, args):
    st.put(p, 8, FRESH)
    st.put(p, 8, va_id(tuple(args)), 8)
    st.put(p, 8, BV(0), 16)
