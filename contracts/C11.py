"""C11: hash table lookup finds exactly the stored keys."""
from contracts.htab import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [tok.ct, C]
CXXFLAGS = ['-Wno-invalid-offsetof']


@T.add('computeHash', 'at least 2 and decided by the policy hash')
def chash(h):
    t = Tab(h, h.st)
    a, b = h.bv('key'), h.bv('other key')
    h.st.ghost['hash body'] = True
    ka, kb = h.st.new_cells('ka', 8), h.st.new_cells('kb', 8)
    h.st.put(ka, 8, a)
    h.st.put(kb, 8, b)
    for s in h.run('ht_hash', t.p, ka):
        r = s.ret
        h.check(s, UGE(r, 2), 'a hash is none of the marks')
        for s2 in h.run('ht_hash', t.p, kb, st=s):
            h.check(s2, Implies(HASH(a) == HASH(b), r == s2.ret), 'the hash of a key is decided by the policy')
        t.unchanged(s, 'computeHash')


@T.add('find', 'finds exactly the stored keys', opts={'binop': masked})
def find(h):
    t = Tab(h, h.st, chains=False)
    k = h.bv('key')
    kp = t.keyptr(h.st, k)
    out = h.raw('result', t.L.r)
    for s in h.run('ht_find', t.p, kp, out):
        t.unchanged(s, 'find')
        for s2 in h.run('ht_found', out, st=s):
            found, gone = s2.copy(), s2.copy()
            found.assume(B(s2.ret))
            gone.assume(Not(B(s2.ret)))
            h.check(gone, Q('i', lambda i: Not(t.present(t.v, k)(i))), 'find: a key not found is not there')
            if h.ex.feasible(found):
                for s3 in h.run('ht_deref', out, st=found):
                    at_slot(h, t, s3, s3.ret, k, 'find')
                for s3 in h.run('ht_arrow', out, st=found):
                    at_slot(h, t, s3, s3.ret, k, 'find')


def at_slot(h, t, s, p, k, what):
    r = split_index(norm(p.off), t.L.entry) if isinstance(p, Ptr) and p.obj == t.oid else None
    h.check(s, z3.BoolVal(r is not None and r[1] == t.L.t_off), '%s: gives an element of the table' % what)
    if r:
        h.check(s, And(ULT(r[0], t.cap64), t.v.live(r[0]), KEY(t.v.V(r[0])) == k), '%s: gives the element of that key' % what)


# every way to change a table keeps the invariant the lookup relies on
M = {'binop': masked}
T.add('init', 'makes a table that satisfies the invariant', opts=dict(M, fill_values=(0,)))(init_body('ht_init'))
T.add('add', 'keeps the invariant', opts=M)(add_body('move'))
T.add('remove', 'keeps the invariant', opts=M)(remove_body)
T.add('clear', 'keeps the invariant', opts=dict(M, fill_values=(0, 1)))(clear_body)
T.add('changeCapacity', 'keeps the invariant', opts=dict(M, fill_values=(0,)))(change_body)
T.add('insertUnique', 'a slot without element, reached through elements only', opts=M)(insert_unique_body)
T.add('mask lemma', 'masking with a power of two less one')(mask_lemma)
T.add('counting lemma', 'counting slots')(counting_lemma)
