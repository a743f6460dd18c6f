"""Mutation campaign against the checks.

mutate.py list            number of mutants
mutate.py tests DIR       run the existing tests on every mutant, survivors to DIR
mutate.py hunt DIR SECS   run scenarios of all properties on every survivor
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sim'))
PY = '/opt/venv/bin/python'
FILES = ['dsch/backends/hdf5.py', 'dsch/backends/inmem.py', 'dsch/backends/mat.py', 'dsch/backends/npz.py',
         'dsch/data.py', 'dsch/frontend.py', 'dsch/schema.py', 'dsch/storage.py', 'dsch/exceptions.py']
# These fail without any mutation.
BROKEN = ['--deselect=tests/test_backend_mat.py::TestList::test_init_from_storage', '--deselect=tests/test_backend_mat.py::TestStorage::test_load_list']
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def spots(tree):
    """(path to node, mutation name) pairs; a mutation is applied to a deep copy."""
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            yield node, 'cmp'
            if isinstance(node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                yield node, 'cmpflip'
        elif isinstance(node, ast.BoolOp):
            yield node, 'boolop'
            for i in range(len(node.values)):
                yield node, 'booldrop%d' % i
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield node, 'not'
        elif isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not Ellipsis:
            yield node, 'const'
        elif isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) < 40:
            yield node, 'str'
        elif isinstance(node, ast.BinOp):
            yield node, 'binop'
        elif isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                yield node, 'dropkw%d' % i
            if len(node.args) > 1:
                yield node, 'droparg'
            if len(node.args) == 1 and not node.keywords:
                yield node, 'unwrap'
        elif isinstance(node, (ast.If, ast.While)):
            yield node, 'iftrue'
            yield node, 'iffalse'
        elif isinstance(node, ast.IfExp):
            yield node, 'then'
            yield node, 'else'
        elif isinstance(node, ast.ExceptHandler):
            yield node, 'exc'
        elif isinstance(node, ast.Try):
            if node.finalbody:
                yield node, 'nofinal'
            if node.handlers:
                yield node, 'nohandler'
        elif isinstance(node, ast.With):
            yield node, 'nowith'
        elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            yield node, 'retnone'
        elif isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(g.ifs for g in node.generators):
            yield node, 'noif'
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not is_doc(node):
            yield node, 'delete'


def apply(node, m):
    """Change the node in place (of a copied tree); returns a replacement or None."""
    if m == 'cmp':
        node.ops = [CMP[type(node.ops[0])]()]
    elif m == 'cmpflip':
        node.ops = [{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(node.ops[0])]()]
    elif m == 'boolop':
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif m.startswith('booldrop'):
        v = list(node.values)
        del v[int(m[8:])]
        return v[0] if len(v) == 1 else ast.BoolOp(node.op, v)
    elif m == 'not':
        return node.operand
    elif m == 'const':
        v = node.value
        if v is True or v is False:
            node.value = not v
        elif v is None:
            node.value = 0
        elif isinstance(v, bytes):
            node.value = v + b' '
        else:
            node.value = v + 1
    elif m == 'str':
        node.value = node.value + '_'
    elif m == 'binop':
        node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
    elif m.startswith('dropkw'):
        del node.keywords[int(m[6:])]
    elif m == 'droparg':
        del node.args[-1]
    elif m == 'unwrap':
        return node.args[0]
    elif m in ('iftrue', 'iffalse'):
        node.test = ast.Constant(m == 'iftrue')
    elif m == 'then':
        return node.body
    elif m == 'else':
        return node.orelse
    elif m == 'exc':
        node.type = ast.Name('ZeroDivisionError', ast.Load())
    elif m == 'nofinal':
        node.finalbody = []
        if not node.handlers:
            return node.body
    elif m == 'nohandler':
        return node.body
    elif m == 'nowith':
        return [ast.Assign([i.optional_vars], i.context_expr) for i in node.items if i.optional_vars] + node.body
    elif m == 'retnone':
        node.value = ast.Constant(None)
    elif m == 'noif':
        for g in node.generators:
            g.ifs = []
    elif m == 'delete':
        return ast.Pass()
    return None


class Sub(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        if node is self.t:
            return self.n
        return self.generic_visit(node)


def mutants(repo):
    for f in FILES:
        src = open(os.path.join(repo, f)).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        docs = set()
        for n in ast.walk(tree):
            if is_doc(n):
                docs.add(id(n.value))
        allnodes = list(ast.walk(tree))
        index = {id(n): i for i, n in enumerate(allnodes)}
        seen = {base}
        for node, m in list(spots(tree)):
            if id(node) in docs:
                continue
            t = copy.deepcopy(tree)
            n = list(ast.walk(t))[index[id(node)]]
            try:
                new = apply(n, m)
                if new is not None:
                    t = Sub(n, new).visit(t)
                ast.fix_missing_locations(t)
                s = ast.unparse(t)
                compile(s, f, 'exec')
            except Exception:
                continue
            if s in seen:
                continue
            seen.add(s)
            yield {'file': f, 'line': node.lineno, 'kind': m, 'was': src.split('\n')[node.lineno - 1].strip()[:100], 'source': s}


def clone():
    t = tempfile.mkdtemp(prefix='mut')
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    return t + '/r'


def tests(out):
    os.makedirs(out, exist_ok=True)
    import queue
    trees = queue.Queue()
    for _ in range(8):
        trees.put(clone())
    todo = list(mutants('/repo'))

    def one(k):
        m = todo[k]
        r = trees.get()
        p = os.path.join(r, m['file'])
        good = open(p).read()
        try:
            open(p, 'w').write(m['source'])
            try:
                c = subprocess.run([PY, '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'] + BROKEN + ['--basetemp', r + '/../tmp'], cwd=r,
                                   env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                   timeout=240).returncode
            except subprocess.TimeoutExpired:
                c = 99
        finally:
            open(p, 'w').write(good)
            trees.put(r)
        if c == 0:
            json.dump(m, open(os.path.join(out, '%04d.json' % k), 'w'))
        return c == 0
    with ThreadPoolExecutor(8) as ex:
        alive = sum(ex.map(one, range(len(todo))))
    while not trees.empty():
        shutil.rmtree(os.path.dirname(trees.get()))
    print('%d mutants, %d survive the tests' % (len(todo), alive))


def hunt(out, secs, only=()):
    r = clone()
    os.environ['DSCH_REPO'] = r
    import world
    world.REPO = r
    import pool
    # the slow ones and those about concurrency rarely decide about a mutant
    props = ['C%02d' % i for i in (12, 16, 13, 10, 4, 6, 1, 14, 17, 9, 11, 5, 20, 8, 7, 2, 12, 16, 3)]
    for name in sorted(os.listdir(out)):
        if not name.endswith('.json') or only and name[:4] not in only:
            continue
        m = json.load(open(os.path.join(out, name)))
        if 'found' in m and not only or m['was'].startswith('raise ') and m['kind'] in ('unwrap', 'str', 'droparg', 'const', 'binop') or 'exceptions.py' in m['file']:
            continue
        p = os.path.join(r, m['file'])
        good = open(p).read()
        open(p, 'w').write(m['source'])
        hits, runs, harness = [], [0], []
        t0 = time.monotonic()
        try:
            po = pool.Pool(8)
            try:
                def on(job, ans, sc):
                    runs[0] += 1
                    for v in ans['viols']:
                        # any profile's run counts: the profile of the property itself reaches it more often
                        hits.append((job['prop'] if job['prop'] in v['props'] else v['props'][0], v['sig'], v['msg'][:160], '%s/%d' % (job['prop'], job['index'])))
                        break
                    harness.extend(h[-300:] for h in ans['harness'])
                    return len(hits) >= 2
                po.map(({'prop': q, 'seed': 77, 'index': i} for i in range(100000) for q in props), on, time.monotonic() + secs)
                harness += po.errors
            finally:
                po.close()
        except Exception as e:
            harness.append(repr(e)[:300])
        finally:
            open(p, 'w').write(good)
        m['found'] = hits
        m['runs'] = runs[0]
        m['harness'] = harness[:3]
        json.dump(m, open(os.path.join(out, name), 'w'))
        print(name[:4], m['file'], m['line'], m['kind'], '|', m['was'], '|', 'runs=%d %.0fs' % (runs[0], time.monotonic() - t0),
              sorted({h[0] for h in hits}) or 'MISSED', ('HARNESS ' + harness[0][-150:]) if harness and not hits else '', flush=True)
    shutil.rmtree(os.path.dirname(r))


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        import collections
        ms = list(mutants('/repo'))
        print(len(ms), collections.Counter(m['file'] for m in ms))
    elif sys.argv[1] == 'tests':
        tests(sys.argv[2])
    else:
        hunt(sys.argv[2], float(sys.argv[3]), sys.argv[4:])
