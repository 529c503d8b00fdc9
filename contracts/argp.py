"""Shared by C27 and C28: a parser over an arbitrary family of options, known by their virtual functions only."""
from kv.cxxstd import *
from kv.cxxvec import split_index

OPT = 40                # an option as the parser sees it: virtual table and four names
VT = '_ZTVN2ke4args12ToggleOptionE'


def slots(ex, st):
    """slot number -> name of the virtual function (all options share the interface, and so the order)"""
    if VT not in ex.mod.globals:
        raise Unsupported('no virtual table of an option')
    t = st.mem[ex.glob(st, VT).obj]
    out, k = {}, 0
    while True:
        v = cell_read(t, 16 + 8 * k, 8) if 24 + 8 * k <= simp(t.size).as_long() else None
        if v is None:
            return out
        if isinstance(v, Ptr) and v.obj is not None:
            d = ex.dem.get(st.mem[v.obj].name, st.mem[v.obj].name)
            m = re.search(r'::(~?\w+)\(', d)
            out[k] = m.group(1) if m else d
        k += 1


class Family:
    """options number 0..N-1; virtual calls go to `methods[name](ex, st, ins, av, index)`"""

    def __init__(self, h, methods, fields=None):
        st = self.st = h.st
        self.N = h.bv('options')
        st.assume(ULE(self.N, BV(1 << 40)))
        names = slots(h.ex, st)
        table = st.new_cells('virtual table', 8 * (max(names) + 1))
        for k, nm in names.items():
            m = st.new_cells('virtual ' + nm, 8)

            def call(ex, s, ins, av, o, nm=nm):
                r = split_index(norm(av[0].off), OPT) if isinstance(av[0], Ptr) and av[0].obj == self.obj else None
                if not r or r[1] != 0:
                    raise Unsupported('virtual call of something else')
                ex.oblige(s, ULT(r[0], self.N), 'memory', '%s of an option' % nm)
                if s.dead:
                    return 'dead'
                if nm not in methods:
                    raise Unsupported('virtual call of ' + nm)
                return methods[nm](ex, s, ins, av, r[0])
            st.mem[m.obj].user['method'] = call
            st.put(table, 8, m, 8 * k)
        fs = {0: ('special', lambda ex, s, o, i: Ptr(table.obj, BV(0)))}
        fs.update(fields or {})
        p = st.new_seq('options', self.N, OPT, fs, 'param', align=8, tag='o')
        self.obj = p.obj

    def at(self, i):
        return Ptr(self.obj, norm(BV(OPT) * i))

    def list(self, h, st, v, name, tag):
        """an arbitrary std::vector<IOption*> at v; (length, index of each)"""
        n = h.bv(name + ' count')
        idx = fresh_fn(name, 64, tag)
        st.assume(ULE(n, BV(1 << 40)), Q(tag, lambda i: Implies(ULT(i, n), ULT(idx(i), self.N)), name))
        p = st.new_seq(name, n, 8, {0: ('special', lambda ex, s, o, i: self.at(idx(i)))}, 'heap-vec', align=8, tag=tag)
        for k, off in enumerate((BV(0), BV(8) * n, BV(8) * n)):
            st.put(v, 8, Ptr(p.obj, norm(off)), 8 * k)
        h.ex.vocab.append(n)
        return n, idx


def svec(d):
    d = nrm(d).replace('<string >', '<string>').replace('> >', '>>').replace('> >', '>>')
    return d.replace('std::vector<string, std::allocator<string>>', 'svec')


def SV(pat):
    c = re.compile('^(?:%s)$' % pat)
    return lambda d, m: c.search(svec(d)) is not None


def strings(h, st, v, name):
    """an arbitrary std::vector<std::string> at v (its strings are not looked at); its length"""
    n = h.bv(name + ' count')
    st.assume(ULE(n, BV(1 << 40)))
    p = st.new_seq(name, BV(1 << 41), 32, {0: ('bv', 8), 8: ('bv', 8)}, 'heap-vec', align=8, tag='s')
    for k, off in enumerate((BV(0), BV(32) * n, BV(32) << 41)):
        st.put(v, 8, Ptr(p.obj, norm(off)), 8 * k)
    return n


def count(st, v, size=32):
    """number of elements of the vector at v"""
    b, f = st.get(v, 8), st.get(v, 8, 8)
    if b.isnull_const and f.isnull_const:
        return BV(0)
    r = split_index(norm(f.off - b.off), size)
    if b.obj != f.obj or not r or r[1] != 0:
        raise Unsupported('vector words')
    return r[0]
