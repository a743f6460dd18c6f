"""Run one scenario verbosely: one.py PROP INDEX [SEED] [-s show scenario]"""
import sys, json, os, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
import world as W
a = [x for x in sys.argv[1:] if x[0] != '-']
os.makedirs('/tmp/x', exist_ok=True)
env = dict(os.environ, LD_PRELOAD=W.build_shim('/tmp/x'), PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
base = W.scratch_base()
if a[0].endswith('.json'):
    d = json.load(open(a[0]))
    job = {'prop': d['property'], 'scenario': d['scenario'], 'want': 1}
else:
    job = {'prop': a[0], 'seed': int(a[2]) if len(a) > 2 else 1, 'index': int(a[1]), 'want': 1}
try:
    r = subprocess.run([W.PYTHON, os.path.join(os.path.dirname(W.__file__), 'worker.py'), base], input=json.dumps(job) + '\n', stdout=subprocess.PIPE, env=env, text=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
o = json.loads(r.stdout); sc = o['scenario']; o = o['answer']; o['scenario'] = sc and sc[1]
if '-s' in sys.argv:
    for i, l in enumerate(o['scenario']['lives']):
        print('LIFE', i, {k: v for k, v in l.items() if k != 'ops'})
        for j, op in enumerate(l['ops']):
            print('  ', j, str(op)[:600])
for v in o['viols']:
    print(json.dumps(v))
for h in o['harness']:
    print(h)
