import sys, tempfile, shutil
sys.path.insert(0, __import__('os').environ.get('KV_HOME','/verif'))
from kv.run import native
for p in sys.argv[2:]:
    d = tempfile.mkdtemp()
    r = native(p, d, float(sys.argv[1]), 1, [], 'quick')
    shutil.rmtree(d)
    print(p, r['status'], r.get('rc'), r.get('cases'), '%.1f' % r.get('wall', 0))
    if r['status'] != 'ok': print(r)
