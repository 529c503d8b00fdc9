"""C14: hash table resizing and failure handling preserve contents and ownership."""
from contracts.htab import *
from kv.harness import Targets
T = Targets()
CONTRACTS = [tok.ct, C]
CXXFLAGS = ['-Wno-invalid-offsetof']
M = {'binop': masked}
T.add('changeCapacity', 'moves every element once into fresh storage, or fails and changes nothing', opts=dict(M, fill_values=(0,)))(change_body)
T.add('insertUnique', 'a slot without element, reached through elements only', opts=M)(insert_unique_body)
T.add('checkDensity', 'at least a quarter of the slots is free, or failure and no change', opts=M)(density_body)
T.add('init', 'storage with every slot free, or failure', opts=dict(M, fill_values=(0,)))(init_body('ht_init'))
T.add('init()', 'storage of the least capacity, or failure', opts=dict(M, fill_values=(0,)))(init_body('ht_init0'))
T.add('destruction', 'destroys every element once and releases the storage once', opts=M)(end_body)
T.add('move', 'transfers everything and leaves an empty source', opts=dict(M, fill_values=(0,)))(move_body)
T.add('mask lemma', 'masking with a power of two less one')(mask_lemma)
T.add('counting lemma', 'counting slots')(counting_lemma)
