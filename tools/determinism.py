"""Same seed, same run: determinism.py [RUNS [SEED]]

Executes the first RUNS scenarios of every property twice: by one worker in order, and by eight workers in
another order with another PYTHONHASHSEED, and compares the event digests and the violations.
"""
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, '..', 'sim')
PROPS = ['C%02d' % i for i in range(1, 24) if i not in (18, 19)]


def part(jobs, workers):
    sys.path.insert(0, SIM)
    import pool
    out = {}
    po = pool.Pool(workers)
    try:
        po.map((dict(j) for j in jobs), lambda job, ans, sc: out.__setitem__('%s/%d' % (job['prop'], job['index']), [ans['digest'], sorted((v['sig'], v['where'] if isinstance(v['where'], str) else json.dumps(v['where'])) for v in ans['viols']), sorted(ans['stats'].items()), bool(ans['harness']), json.dumps(sc, sort_keys=True)]))
    finally:
        po.close()
    return out


def main():
    if sys.argv[1] == '--part':
        jobs = json.load(sys.stdin)
        json.dump(part(jobs, int(sys.argv[2])), sys.stdout)
        return 0
    n, seed = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1
    jobs = [{'prop': p, 'seed': seed, 'index': i} for p in PROPS for i in range(n)]
    res = []
    for workers, hashseed, order in ((4, '0', 0), (8, '4711', 1)):
        js = list(jobs)
        if order:
            random.Random(7).shuffle(js)
        r = subprocess.run([sys.executable, __file__, '--part', str(workers)], input=json.dumps(js), env=dict(os.environ, PYTHONHASHSEED=hashseed, DSCHSIM_HASHSEED=hashseed),
                           stdout=subprocess.PIPE, text=True)
        res.append(json.loads(r.stdout))
    a, b = res
    bad = [k for k in a if a[k] != b.get(k)]
    for k in bad[:20]:
        print(k, [i for i in range(5) if a[k][i] != b.get(k, [0] * 5)[i]])
    print('%d runs, %d differ, %d missing' % (len(a), len(bad), len(jobs) - len(a)))
    return bool(bad)


if __name__ == '__main__':
    sys.exit(main())
