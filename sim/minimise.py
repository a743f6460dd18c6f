"""Shrinks a failing scenario while it keeps failing in the same way."""
import copy
import json
import time


def same(viol, ans, prop):
    for v in ans['viols']:
        if prop in v['props'] and v['sig'] == viol['sig']:
            return v
    return None


def ops_of(sc):
    """All (list, index) positions of operations, innermost bodies included."""
    out = []

    def walk(lst):
        for i, op in enumerate(lst):
            out.append((lst, i))
            if isinstance(op.get('body'), list):
                walk(op['body'])
    walk(sc.get('init', []))
    for l in sc.get('lives', ()):
        walk(l['ops'])
    for t in sc.get('threads', ()):
        walk(t['ops'])
    return out


class Minimiser:
    def __init__(self, pool, prop, scenario, viol, budget):
        self.pool, self.prop, self.best, self.viol = pool, prop, scenario, viol
        self.end = time.monotonic() + budget
        self.tried = 0
        self.accepted = 0
        self.seen = set()

    def left(self):
        return self.end - time.monotonic()

    def first(self, cands):
        """Index and scenario of the first (by order) candidate that still fails."""
        hit = {}

        def jobs():
            for i, c in enumerate(cands):
                if hit and i > min(hit):
                    return
                text = json.dumps(c, sort_keys=True)
                if text in self.seen:
                    continue
                self.seen.add(text)
                self.tried += 1
                yield {'prop': self.prop, 'scenario': c, 'n': i}

        def on(job, ans, sc):
            if not ans['harness']:
                v = same(self.viol, ans, self.prop)
                if v:
                    hit[job['n']] = (sc, v)
            return False
        self.pool.map(jobs(), on, deadline=self.end)
        if not hit:
            return None
        i = min(hit)
        self.best, self.viol = hit[i]
        self.accepted += 1
        return i

    def run(self):
        if self.viol['sig'] in ('hang',):
            return self.best, self.viol
        changed = True
        while changed and self.left() > 0:
            changed = False
            for step in (self.truncate, self.lives, self.branches, self.threads, self.chunks, self.switches, self.trim, self.schemas, self.values):
                if self.left() <= 0:
                    break
                if step():
                    changed = True
        return self.best, self.viol

    def variant(self, fn):
        c = copy.deepcopy(self.best)
        return c if fn(c) is not False else None

    def truncate(self):
        """Drop everything after the operation that failed."""
        w = self.viol.get('where')
        if not w or 'lives' not in self.best:
            return False

        def cut(c):
            li, oi = w[0], w[1]
            if li >= len(c['lives']):
                return False
            before = json.dumps(c)
            c['lives'] = c['lives'][:li + 1]
            c['lives'][li]['ops'] = c['lives'][li]['ops'][:oi + 1]
            return json.dumps(c) != before
        c = self.variant(cut)
        return c is not None and self.first([c]) is not None

    def lives(self):
        done = False
        while 'lives' in self.best and len(self.best['lives']) > 1 and self.left() > 0:
            cands = []
            for i in range(len(self.best['lives'])):
                cands.append(self.variant(lambda c: c['lives'].pop(i) and None))
            # two consecutive lives as one
            for i in range(len(self.best['lives']) - 1):
                def join(c):
                    c['lives'][i]['ops'] += c['lives'].pop(i + 1)['ops']
                cands.append(self.variant(join))
            if self.first(cands) is None:
                break
            done = True
        return done

    def branches(self):
        """Replace fault sweeps by the one fault that matters."""
        b = (self.viol.get('extra') or {}).get('branch')
        cands = []
        pos = [(l, i) for l, i in ops_of(self.best) if 'br' in l[i]]
        for k in range(len(pos)):
            def drop(c):
                l, i = [(l, i) for l, i in ops_of(c) if 'br' in l[i]][k]
                del l[i]['br']
            cands.append(self.variant(drop))
            if isinstance(b, dict) and 'power' not in b:
                def only(c):
                    l, i = [(l, i) for l, i in ops_of(c) if 'br' in l[i]][k]
                    if l[i]['br'].get('list') == [b]:
                        return False
                    l[i]['br'] = {'mode': l[i]['br']['mode'], 'list': [b]}
                cands.append(self.variant(only))
        cands = [c for c in cands if c is not None]
        done = False
        while cands and self.left() > 0:
            if self.first(cands) is None:
                break
            done = True
            return self.branches() or True
        return done

    def threads(self):
        if 'threads' not in self.best:
            return False
        done = False
        while len(self.best['threads']) > 1 and self.left() > 0:
            cands = []
            for i in range(len(self.best['threads'])):
                def drop(c):
                    t = c['threads'].pop(i)['id']
                    if c.get('switches'):
                        c['switches'] = [x for x in c['switches'] if t not in (x[0], x[3])]
                cands.append(self.variant(drop))
            if self.first(cands) is None:
                break
            done = True
        return done

    def switches(self):
        """Explicit schedule, then fewer context switches."""
        if 'threads' not in self.best:
            return False
        done = False
        if self.best.get('switches') is None:
            sw = (self.viol.get('extra') or {}).get('switches')
            if sw is None:
                return False

            def pin(c):
                c['switches'] = sw
            if self.first([self.variant(pin)]) is None:
                return False
            done = True
        size = max(1, len(self.best['switches']) // 2)
        while size >= 1 and self.left() > 0:
            n = len(self.best['switches'])
            cands = []
            for a in range(0, n, size):
                def drop(c):
                    del c['switches'][a:a + size]
                cands.append(self.variant(drop))
            if cands and self.first(cands) is not None:
                done = True
                size = min(size, max(1, len(self.best['switches']) // 2))
                if not self.best['switches']:
                    break
                continue
            size //= 2
        return done

    def chunks(self):
        """Delta debugging over all operations."""
        done = False
        size = max(1, len(ops_of(self.best)) // 2)
        while size >= 1 and self.left() > 0:
            n = len(ops_of(self.best))
            cands = []
            for a in range(n - 1, -1, -size):
                def drop(c):
                    pos = ops_of(c)[max(0, a - size + 1):a + 1]
                    kill = {id(l[i]) for l, i in pos}
                    for l in {id(l): l for l, _ in pos}.values():
                        l[:] = [op for op in l if id(op) not in kill]
                cands.append(self.variant(drop))
            if self.first(cands) is not None:
                done = True
                size = min(size, max(1, len(ops_of(self.best)) // 2))
                continue
            size //= 2
        return done

    def trim(self):
        """Plain settings wherever special ones do not matter."""
        cands = []

        def each(fn):
            for k in range(len(ops_of(self.best))):
                def one(c):
                    l, i = ops_of(c)[k]
                    return fn(l[i])
                c = self.variant(one)
                if c is not None:
                    cands.append(c)
        for key in ('fault', 'sp', 'force', 'req', 'req2', 'cut', 'raise', 'jumps', 'pseed', 'ofault', 'via', 'lnk', 'shared'):
            def rm(op):
                if key not in op:
                    return False
                del op[key]
            each(rm)

        for i in range(len(self.best.get('lives', ()))):
            for key, val in (('power', 0), ('tz', 'UTC0'), ('clock', {}), ('end', 'close'), ('end', 'kill')):
                def setp(c):
                    if not c['lives'][i].get(key) or c['lives'][i][key] == val:
                        return False
                    c['lives'][i][key] = val
                c = self.variant(setp)
                if c is not None:
                    cands.append(c)
        done = False
        while cands and self.left() > 0:
            i = self.first(cands)
            if i is None:
                break
            return self.trim() or True
        return done

    def schemas(self):
        """Fewer fields and schemas."""
        cands = []

        def paths(node, p=()):
            if node['node_type'] == 'Compilation':
                for k, s in node['config']['subnodes'].items():
                    yield p + (k,)
                    yield from paths(s, p + (k,))
            elif node['node_type'] == 'List':
                yield from paths(node['config']['subnode'], p + (None,))
        for name in self.best.get('schemas', {}):
            used = json.dumps([self.best.get('lives'), self.best.get('threads'), self.best.get('init')])
            if '"%s"' % name not in used:
                def drop(c):
                    del c['schemas'][name]
                cands.append(self.variant(drop))
                continue
            for p in paths(self.best['schemas'][name]):
                if '"%s"' % p[-1] in used:
                    continue

                def cut(c):
                    n = c['schemas'][name]
                    for x in p[:-1]:
                        n = n['config']['subnode'] if x is None else n['config']['subnodes'][x]
                    if len(n['config']['subnodes']) < 2:
                        return False
                    del n['config']['subnodes'][p[-1]]
                    if p[-1] in (n['config'].get('optionals') or ()):
                        n['config']['optionals'] = [o for o in n['config']['optionals'] if o != p[-1]]
                    for s in n['config']['subnodes'].values():
                        if s['node_type'] == 'Array' and p[-1] in (s['config'].get('depends_on') or ()):
                            return False
                c = self.variant(cut)
                if c is not None:
                    cands.append(c)
        if cands and self.first(cands) is not None:
            if self.left() > 0:
                self.schemas()
            return True
        return False

    def values(self):
        """Shorter strings and bytes."""
        cands = []
        for k in range(len(ops_of(self.best))):
            def short(c):
                l, i = ops_of(c)[k]
                v = l[i].get('v')
                if isinstance(v, list) and len(v) == 2 and isinstance(v[1], str) and len(v[1]) > 2 and v[0] in ('str', 'bytes'):
                    n = len(v[1]) // 2
                    v[1] = v[1][:n - n % 2]
                    return
                return False
            c = self.variant(short)
            if c is not None:
                cands.append(c)
        if cands and self.first(cands) is not None:
            return True
        return False
