"""C12: hash table insertion adds exactly the new element and keeps all others."""
from contracts.htab import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [tok.ct, C]
CXXFLAGS = ['-Wno-invalid-offsetof']


@T.add('findForAdd', 'reports the element of a present key, or a usable place', opts={'binop': masked})
def findadd(h):
    t = Tab(h, h.st, chains=False)
    k = h.bv('key')
    kp = t.keyptr(h.st, k)
    out = h.raw('result', t.L.i)
    for s in h.run('ht_findadd', t.p, kp, out):
        t.unchanged(s, 'findForAdd')
        for s1 in h.run('ht_ihash', out, st=s):
            h.check(s1, s1.ret == CH(k), 'findForAdd: carries the hash of the key')
        for s2 in h.run('ht_ifound', out, st=s):
            found, gone = s2.copy(), s2.copy()
            found.assume(B(s2.ret))
            gone.assume(Not(B(s2.ret)))
            if h.ex.feasible(gone):
                h.check(gone, Q('i', lambda i: Not(t.present(t.v, k)(i))), 'findForAdd: a key not reported is absent')
                for s3 in h.run('ht_ientry', out, st=gone):
                    i = slot_of(t, s3.ret)
                    h.check(s3, z3.BoolVal(i is not None), 'findForAdd: the place is a slot of the table')
                    if i is not None:
                        h.check(s3, Not(Bnull(s3.ret)), 'findForAdd: the place is not null')
                        h.check(s3, And(ULT(i, t.cap64), ULT(t.v.H(i), 2)), 'findForAdd: the place holds no element')
                        h.check(s3, way_used(t.v, t.cap64, home(t.M, CH(k)), i), 'findForAdd: the place is reached through used slots')
            if h.ex.feasible(found):
                for s3 in h.run('ht_ideref', out, st=found):
                    i = element_of(t, s3.ret)
                    h.check(s3, z3.BoolVal(i is not None), 'findForAdd: reports an element of the table')
                    if i is not None:
                        h.check(s3, And(ULT(i, t.cap64), t.v.live(i), KEY(t.v.V(i)) == k), 'findForAdd: reports the element of that key')


@T.add('insertUnique', 'a slot without element, reached through elements only', opts={'binop': masked})
def unique(h):
    insert_unique_body(h)


for _k in ('move', 'copy', 'none'):
    T.add('add %s' % _k, 'adds exactly the given element, with or without a resize', opts={'binop': masked})(add_body(_k))


T.add('changeCapacity', 'the same elements in the new capacity', opts={'binop': masked, 'fill_values': (0,)})(change_body)
T.add('mask lemma', 'masking with a power of two less one')(mask_lemma)
T.add('counting lemma', 'counting slots')(counting_lemma)
