"""C13: hash table removal, clearing and iteration account for every element."""
from contracts.htab import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [tok.ct, C]
CXXFLAGS = ['-Wno-invalid-offsetof']
M = {'binop': masked}
T.add('remove', 'removes exactly that element', opts=M)(remove_body)
T.add('removeIfExists', 'removes exactly the element of that key, or nothing', opts=M)(remove_key_body)
T.add('clear', 'destroys every element and leaves a usable empty table', opts=dict(M, fill_values=(0, 1)))(clear_body)
T.add('elements', 'reports the count of elements', opts=M)(elements_body)
T.add('iterator', 'starts at the first element', opts=M)(iter_begin)
T.add('next', 'goes to the next element', opts=M)(iter_step(False))
T.add('erase', 'removes the element visited; the iteration goes on behind it', opts=M)(iter_step(True))
T.add('mask lemma', 'masking with a power of two less one')(mask_lemma)
T.add('counting lemma', 'counting slots')(counting_lemma)
