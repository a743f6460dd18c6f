"""What the scenarios of each property are made of."""
import os
import schemas as S
from gen import FILE, Gen

RAISE = [1, 'empty', 'reset', 'invalid', 'schema', 'os', 'exists', 'interrupt', 'exit', 'memory', 'gen', 'key', 'attr']
EDIT = {'edit': 50, 'fill': 4, 'save': 16, 'reload': 8, 'close': 3, 'load': 4, 'create': 3, 'copy': 4, 'lf': 6, 'read': 6, 'clock': 2, 'tz': 1, 'fs': 1, 'plant': 1, 'ps': 1.5, 'psopen': 0.7}


class Build:
    """Strings generated operations together into lives."""

    def __init__(self, g, w=None, bad=0.0, breakp=0.0, mend=0.9, force=0.05, odd=0.0, save=None, load=None, inmem=True, backends=None, lfwrong=0.1, tail=None, power=0.0):
        self.g = g
        self.w = dict(EDIT, **(w or {}))
        self.bad, self.breakp, self.mend, self.force, self.odd = bad, breakp, mend, force, odd
        self.save_kw, self.load_kw = save or (lambda: {}), load or (lambda: {})
        self.inmem, self.backends = inmem, backends
        self.lfwrong = lfwrong
        self.power = power
        self.reading = False
        self.ops = []
        self.lives = []

    def add(self, ops):
        self.ops.extend(ops)

    def bk(self, key):
        c = self.g.backends_for(self.g.schemas[key], self.inmem)
        if self.backends:
            c = [b for b in c if b in self.backends] or c
        return self.g.pick(c)

    def create(self, key=None, bk=None):
        g = self.g
        key = key or g.pick(g.schemas)
        self.add(g.g_create(key, bk or self.bk(key), odd=self.odd))

    def save(self, slot=None, mend=None, force=None, **kw):
        g = self.g
        st = g.open_slots('st', True)
        if not st:
            return
        slot = slot or g.pick(st)
        if g.p(self.mend if mend is None else mend):
            self.add(g.g_mend(slot))
        if force is None:
            force = g.p(self.force)
        self.add(g.g_save(slot, force, **dict(self.save_kw(), **kw)))

    def load(self, path=None, **kw):
        g = self.g
        kw = dict(self.load_kw(), **kw)
        if 'force' not in kw:
            d = g.t.dur.get(path)
            if path is None and g.t.dur:
                path = g.pick(sorted(g.t.dur))
                d = g.t.dur[path]
            if d and g.verdict(d['spec'], d['tree']) != 'valid' and g.p(0.7) or g.p(0.05):
                kw['force'] = True
        self.add(g.g_load(path, **kw))

    def step(self):
        g = self.g
        k = g.weighted(self.w)
        if not g.open_slots() and k not in ('create', 'load', 'fs', 'plant', 'clock', 'tz'):
            if g.t.dur and g.p(0.7):
                self.load()
            else:
                self.create()
            return
        if k == 'edit':
            self.add(g.g_edit(bad=self.bad, breakp=self.breakp))
        elif k == 'fill':
            self.add(g.g_fill(part=g.r.random(), breakp=self.breakp))
        elif k == 'save':
            self.save()
        elif k == 'reload':
            st = g.open_slots('st', True)
            if st:
                s = g.pick(st)
                p = g.t.slots[s]['path']
                if g.p(0.7):
                    self.save(s)
                self.add(g.g_close(s))
                if p in g.t.dur:
                    self.load(p)
        elif k == 'close':
            self.add(g.g_close())
        elif k == 'load':
            self.load()
        elif k == 'create':
            self.create()
            if g.p(0.6):
                self.add(g.g_fill(list(g.t.slots)[-1] if g.t.slots else None, g.r.random()))
        elif k == 'copy':
            self.add(g.g_copy(odd=self.odd))
        elif k == 'lf':
            self.add(g.g_lf(wrong=self.lfwrong))
        elif k == 'read':
            self.add(g.g_read())
        elif k == 'clock':
            self.add(g.g_clock())
        elif k == 'tz':
            self.add(g.g_tz())
        elif k == 'fail':
            self.add(g.g_fail())
        elif k == 'fs':
            self.add(g.g_fs())
        elif k == 'plant':
            self.add(g.g_plant())
        elif k == 'ps':
            ps_session(self, self.reading)
        elif k == 'psopen':
            ps_unclosed(self, not self.reading)
        elif k == 'double':
            # a second session on the same path within the process
            self.load()

    def steps(self, n):
        for _ in range(n):
            self.step()

    def begin(self):
        """Start of a life: continue with something, or create something."""
        g = self.g
        if not self.lives:
            self.add(g.dirs())
            if g.p(0.3):
                self.add(g.g_fs())
        if g.t.dur and (self.lives or g.p(0.5)):
            for p in g.r.sample(sorted(g.t.dur), min(len(g.t.dur), g.pick([1, 1, 2]))):
                self.load(p)
        if not g.open_slots():
            self.create()
            self.add(g.g_fill(None, g.r.random(), self.breakp))

    def end(self, end=None):
        g = self.g
        self.lives.append(g.life(self.ops, end, power=g.p(self.power)))
        self.ops = []
        g.end_life()

    def done(self):
        if self.ops:
            self.end()
        self.links()
        return self.g.done(self.lives)

    def links(self):
        """Some paths are reached through symbolic links."""
        g = self.g
        if not g.p(0.3):
            return
        n = 0
        for l in self.lives:
            ops = []
            for op in l['ops']:
                if not l.get('power') and op['op'] in ('create', 'load', 'copy', 'ps_new') and op.get('path', '::inmem::') != '::inmem::' and g.p(0.4):
                    t = os.path.normpath(op['path'])
                    d, _, b = t.rpartition('/')
                    if d == 'sub' and g.p(0.6):
                        ops.append({'op': 'fs', 'path': 'ldir', 'link': 'sub'})
                        op['lnk'] = 'ldir/' + b
                    elif len(b) < 90:
                        n += 1
                        link = g.pick(['', 'sub/']) + 'k%d_' % n + b
                        ops.append({'op': 'fs', 'path': link, 'link': t})
                        op['lnk'] = link
                ops.append(op)
            l['ops'] = ops


def schema(g, n=1, **kw):
    for _ in range(n):
        g.add_schema(g.spec(**kw))


def size(g, small=3, large=22):
    return g.r.randint(small, g.pick([small + 3, large, large]))


def c01(g):
    schema(g, g.pick([1, 1, 1, 2]))
    b = Build(g, inmem=g.p(0.3), odd=0.15, breakp=0.02, bad=0.03)
    for _ in range(g.pick([1, 2, 2, 3])):
        b.begin()
        b.steps(size(g))
        b.save(mend=1.0)
        if g.p(0.4):
            b.steps(g.r.randint(0, 3))
        b.end()
    return b.done()


def crash_fault(g):
    return [{'cls': 0, 'idx': g.r.randrange(16), 'kind': g.pick([4, 5, 5, 6]), 'arg': g.pick([1, 3, 64, 500, 5000])}]


def err_fault(g, read=False):
    cls = 1 if read else 0
    k = g.pick([1, 1, 7, 3, 2])
    return [{'cls': cls, 'idx': g.r.randrange(14), 'kind': k, 'arg': g.pick([1, 7, 100]) if k == 2 else g.pick([5, 28, 5, 28, 122, 13, 4]), 'until': g.pick([1 << 30, 1, 2, 3])}]


def c02(g):
    schema(g)
    n = [0]

    def save():
        n[0] += 1
        kw = {'pseed': g.r.randrange(10 ** 6), 'pmax': 7}
        if n[0] <= 4:
            kw['br'] = {'mode': 'crash', 'max': g.pick([6, 10, 16]), 'seed': g.r.randrange(10 ** 6)}
        return kw
    b = Build(g, {'copy': 2, 'plant': 0, 'fs': 0}, inmem=False, save=save, mend=0.95, force=0.1, odd=0.05, power=0.6)
    for _ in range(g.pick([1, 2, 2])):
        b.begin()
        b.steps(size(g, 2, 12))
        if g.p(0.5):
            b.save(mend=1.0)
            b.steps(g.r.randint(1, 4))
        if g.p(0.35):
            # the process really dies in this save, later lives go on
            kw = {'fault': crash_fault(g)}
            st = g.open_slots('st', True)
            if st:
                s = g.pick(st)
                keep = dict(g.t.dur)
                b.add(g.g_mend(s))
                b.add([dict({'op': 'save', 'slot': s}, **kw)])
                g.t.dur = keep
        else:
            b.save(mend=1.0)
        b.end()
    return b.done()


def c03(g):
    schema(g)
    n = [0]

    def save():
        n[0] += 1
        if n[0] <= 3:
            return {'br': {'mode': 'err', 'max': g.pick([6, 10, 14]), 'seed': g.r.randrange(10 ** 6)}}
        if g.p(0.3):
            return {'fault': err_fault(g)}
        return {}
    b = Build(g, {'copy': 3, 'plant': 0}, inmem=False, save=save, mend=0.95, force=0.1, odd=0.05, breakp=0.02)
    for _ in range(g.pick([1, 1, 2])):
        b.begin()
        b.steps(size(g, 2, 12))
        b.save(mend=1.0)
        b.steps(g.r.randint(0, 3))
        if g.p(0.5):
            b.save(mend=1.0)
        b.end()
    return b.done()


def c04(g):
    g.cons = g.pick([0.5, 0.8])
    schema(g)
    b = Build(g, {'read': 12, 'save': 22, 'setitem': 0}, inmem=g.p(0.2), breakp=0.35, mend=0.3, force=0.2, odd=0.03, bad=0.03)
    for _ in range(g.pick([1, 1, 2])):
        b.begin()
        if g.p(0.5):
            b.save(mend=1.0, force=False)
        b.steps(size(g, 5, 26))
        b.save(mend=0.2)
        b.end()
    return b.done()


def damage(g):
    k = g.pick(['trunc', 'flip', 'flip', 'byte', 'zero', 'text', 'text', 'tail'])
    if k == 'trunc':
        return [k, g.pick([0, 0.1, 0.5, 0.9, 0.999, g.r.random()])]
    if k == 'flip':
        return [k, [[g.r.random(), g.r.randrange(8)] for _ in range(g.pick([1, 1, 2, 8]))]]
    if k == 'byte':
        return [k, [[g.r.random(), g.r.randrange(256)] for _ in range(g.pick([1, 1, 3]))]]
    if k == 'zero':
        return [k, g.r.random(), g.pick([1, 16, 512])]
    if k == 'text':
        return [k, g.r.random(), g.r.randint(1, 9)]
    return [k, '00' * g.pick([1, 100])]


def c05(g):
    g.cons = g.pick([0.2, 0.6])
    schema(g)
    n = [0]

    def load():
        n[0] += 1
        kw = {}
        if n[0] <= 5:
            if g.p(0.5):
                kw['br'] = {'mode': 'read', 'max': 8, 'seed': g.r.randrange(10 ** 6)}
            else:
                kw['br'] = {'mode': 'damage', 'damage': [damage(g) for _ in range(7)]}
        return kw
    if g.p(0.2):
        schema(g)
    b = Build(g, {'reload': 14, 'load': 10, 'plant': 3, 'ps': 4}, inmem=False, load=load, breakp=0.15, mend=0.5, force=0.35, odd=0.05)
    for _ in range(g.pick([1, 2])):
        b.begin()
        b.steps(size(g, 3, 14))
        b.save(mend=0.5, force=g.p(0.5))
        if g.p(0.5) and g.t.dur:
            for s in g.open_slots('st'):
                b.add(g.g_close(s))
            b.load()
        b.end()
    if g.t.dur and g.p(0.6):
        b.add([])
        if g.p(0.3):
            path = g.pick(sorted(g.t.dur))
            key = g.t.dur[path]['key']
            if g.p(0.5):
                ops, slot = g.g_ps_new(key, path)
            else:
                ops, slot = g.g_ps_new(g.pick(g.schemas), path, [[key, g.pick([0, 1])]])
            ps_use(b, ops, slot, True)
        b.load()
        b.end()
    return b.done()


def c06(g):
    schema(g)
    for _ in range(g.pick([1, 2, 3])):
        g.add_schema(g.mutate(g.schemas[g.pick(g.schemas)]))
    if g.p(0.2):
        schema(g)

    def load():
        if g.p(0.75):
            kw = {'req': g.pick(g.schemas), 'hash': int(g.p(0.5))}
            if g.p(0.2):
                kw['req2'] = g.pick(g.schemas)
            elif kw['hash'] and g.p(0.15):
                kw['cut'] = g.pick([1, 8, 32, 63])
            return kw
        return {}
    b = Build(g, {'reload': 14, 'load': 24, 'edit': 20, 'create': 6, 'plant': 4}, inmem=False, load=load, odd=0.03)
    for _ in range(g.pick([1, 2, 2])):
        b.begin()
        b.steps(size(g, 3, 14))
        b.save(mend=1.0)
        b.save(mend=1.0)
        for s in g.open_slots('st'):
            if g.p(0.7):
                b.add(g.g_close(s))
        for _ in range(g.pick([1, 2, 3])):
            if g.t.dur:
                b.load()
        for _ in range(g.pick([0, 1, 2])):
            ps_session(b, open_only=True)
        b.end()
    return b.done()


def c07(g):
    g.stamp = g.pick([0.3, 0.7])
    schema(g)
    b = Build(g, inmem=False, odd=0.1, breakp=0.1, mend=0.7, force=0.15)
    b.begin()
    b.steps(g.r.randint(0, 2) if g.p(0.2) else size(g, 2, 12))
    b.save(mend=0.8)
    if g.p(0.2):
        # a storage with (nearly) nothing in it
        b.create()
        s = list(g.t.slots)[-1]
        if s in g.open_slots('st', True):
            b.save(s)
    if g.p(0.3):
        b.add(g.g_plant())
    b.end()
    for _ in range(g.pick([1, 2, 2])):
        w = {k: 0 for k in b.w}
        w.update({'read': 40, 'load': 25, 'close': 10, 'copy': 8, 'clock': 8, 'tz': 2, 'psopen': 6})
        b.w = w
        b.reading = True
        b.load_kw = lambda: {'br': {'mode': 'read', 'max': 5, 'seed': g.r.randrange(10 ** 6)}} if g.p(0.3) else ({'fault': err_fault(g, True)} if g.p(0.15) else ({'req': g.pick(g.schemas)} if g.p(0.1) else {}))
        if g.p(0.5):
            for _ in range(g.pick([1, 1, 2])):
                ps_refused(b)
        for p in sorted(g.t.dur):
            b.load(p)
        b.steps(size(g, 2, 10))
        b.end()
    return b.done()


def c08(g):
    schema(g)
    b = Build(g, {'save': 4, 'reload': 3, 'copy': 4}, inmem=g.p(0.2), odd=0.05, breakp=0.1, mend=0.3)
    for _ in range(g.pick([1, 2, 3])):
        b.begin()
        b.steps(size(g, 1, 8))
        if g.p(0.7):
            b.save(mend=0.9)
        b.steps(size(g, 2, 10))
        if g.p(0.3) and g.open_slots('st', True):
            # a save that validation refuses, or that the disk refuses
            if g.p(0.5):
                b.add(g.g_edit(breakp=1.0, kinds={'set': 1}))
                b.save(mend=0.0, force=False)
            else:
                keep = dict(g.t.dur)
                b.add(g.g_save(None, False, fault=err_fault(g)))
                g.t.dur = keep
        if g.p(0.3):
            ps_unclosed(b)
        if g.p(0.3):
            for s in g.open_slots('st'):
                b.add(g.g_close(s))
            if g.t.dur:
                b.load()
        b.end()
    return b.done()


def c09(g):
    g.stamp = 0.8
    schema(g, kind=None)
    # make sure there is something to stamp
    if g.p(0.8):
        inner = g.node('Compilation', subnodes={'t': g.spec_Time(1), 'd': g.spec_Date(1), 'dt': g.spec_DateTime(1)}, optionals=[])
        k = g.pick(['comp', 'list', 'listcomp', 'top', 'listlist'])
        st = {'comp': inner, 'list': g.node('List', subnode=g.spec_DateTime(1), max_length=None, min_length=None),
              'listcomp': g.node('List', subnode=inner, max_length=None, min_length=None), 'top': g.pick([g.spec_Date, g.spec_Time, g.spec_DateTime])(0),
              'listlist': g.node('List', subnode=g.node('List', subnode=inner, max_length=None, min_length=None), max_length=None, min_length=None)}[k]
        if k == 'top' or g.schemas['S0']['node_type'] != 'Compilation':
            g.schemas['S0'] = st
        else:
            g.schemas['S0']['config']['subnodes']['stamps'] = st
    b = Build(g, {'clock': 14, 'tz': 6, 'create': 6, 'reload': 10, 'copy': 6, 'edit': 40}, odd=0.0)
    for _ in range(g.pick([1, 2, 3])):
        if g.p(0.5):
            b.add(g.g_clock())
        if not b.lives:
            b.add(g.dirs())
            b.create()
        else:
            b.begin()
        for _ in range(size(g, 3, 14)):
            if g.p(0.25):
                b.add(g.g_edit(kinds={'append': 60, 'clear': 30, 'trep': 10}))
            else:
                b.step()
        b.save(mend=1.0)
        b.end()
    return b.done()


def c10(g):
    schema(g, g.pick([1, 1, 2]))
    if g.p(0.3):
        g.add_schema(g.mutate(g.schemas['S0']))
    b = Build(g, {'copy': 22, 'lf': 26, 'create': 8, 'save': 8}, odd=0.03, breakp=0.08, mend=0.7, lfwrong=0.4, force=0.15)
    for _ in range(g.pick([1, 1, 2])):
        b.begin()
        b.create()
        b.add(g.g_fill(None, g.r.random()))
        b.steps(size(g, 4, 18))
        b.save(mend=0.9)
        b.end()
    return b.done()


def c11(g):
    schema(g)
    b = Build(g, {'create': 22, 'copy': 14, 'fs': 12, 'load': 10, 'save': 16, 'edit': 14}, inmem=g.p(0.2), odd=0.6, mend=0.9)
    b.begin()
    for _ in range(size(g, 5, 20)):
        x = g.r.random()
        key = g.pick(g.schemas)
        occupied = sorted(g.t.files | {s['path'] for s in g.t.slots.values() if s['path']})
        if x < 0.16 and g.t.files:
            p = g.pick(occupied)
            bk = b.bk(key)
            b.add(g.g_create(key, bk, path=(p, bk)))
        elif x < 0.26 and occupied and g.open_slots('st'):
            src = g.pick(g.open_slots('st'))
            bk = g.pick(g.backends_for(g.t.slots[src]['spec'], False))
            b.add(g.g_copy(src, bk, path=(g.pick(occupied), bk)))
        elif x < 0.34:
            p, bk = g.path(g.pick(FILE), 0.5)
            if p not in g.t.dur:
                b.add([{'op': 'load', 'slot': g.slotname(), 'path': p, **({'backend': bk} if bk else {})}])
        elif x < 0.4 and g.t.dur:
            p = g.pick(sorted(g.t.dur))
            b.add([{'op': 'load', 'slot': g.slotname(), 'path': p, 'backend': g.pick([k for k in FILE if k != g.t.dur[p]['bk']])}])
        elif x < 0.44:
            b.save(fault=err_fault(g))
        else:
            b.step()
    b.save(mend=1.0)
    b.end()
    if g.p(0.4):
        b.begin()
        b.steps(size(g, 3, 8))
        b.end()
    return b.done()


def c12(g):
    """One history on all backends in lockstep."""
    g.odd = False
    schema(g)
    ops = g.dirs()
    bks = [k for k in g.backends_for(g.schemas['S0'])]
    names = []
    for k in bks:
        o = g.g_create('S0', k)
        ops += o
        names.append(o[0]['slot'])
    names = [n for n in names if n in g.t.slots]
    lead = names[0]
    for _ in range(size(g, 8, 40)):
        if len(ops) > 500:
            break
        if g.p(0.06):
            batch = g.g_fill(lead, g.r.random())
        elif g.p(0.08):
            batch = g.g_read(lead)
        elif g.p(0.04):
            batch = g.g_clock()
        else:
            batch = g.g_edit(lead)
        for op in batch:
            if 'slot' not in op:
                ops.append(op)
                continue
            for n in names:
                ops.append(dict(op, slot=n))
        for n in names[1:]:
            g.t.slots[n]['tree'] = g.t.slots[lead]['tree']
        if g.p(0.08):
            # save, and go on with the reloaded storage
            n = g.pick(names)
            s = g.t.slots[n]
            if s['path']:
                ops += [{'op': 'save', 'slot': n, 'force': True}, {'op': 'close', 'slot': n}, {'op': 'load', 'slot': n, 'path': s['path'], 'force': True, **({'backend': s['explicit']} if s['explicit'] else {})}]
        elif g.p(0.06) and len(names) > 1:
            a, c = g.r.sample(names, 2)
            ops.append({'op': 'lf', 'slot': a, 'at': [], 'src': c, 'sat': []})
    return g.done([g.life(ops)])


def c13(g):
    schema(g)
    b = Build(g, {'edit': 55, 'fail': 25, 'save': 10, 'lf': 8}, inmem=True, bad=0.45, mend=0.8, lfwrong=0.5)
    for _ in range(g.pick([1, 1, 2])):
        b.begin()
        b.add(g.g_fill(None, 0.7))
        b.steps(size(g, 6, 26))
        for s in g.open_slots('st', True):
            b.bad = 0.0
            b.add(g.g_edit(s))
            b.save(s, mend=1.0)
            b.bad = 0.45
        b.end()
    return b.done()


def ps_session(b, open_only=False, key=None):
    """One or more uses of a pseudo-storage."""
    g = b.g
    src = path = None
    x = g.r.random()
    st = g.open_slots('st')
    if x < 0.25 and st:
        k = g.pick(st)
        n = g.some_node(k)
        src = (k, n[0])
        sp = S.at(g.t.slots[k]['spec'], n[0])
        key = next((kk for kk, v in g.schemas.items() if S.text(v) == S.text(sp)), None) if g.p(0.9) else g.pick(g.schemas)
        key = key or g.add_schema(sp)
    elif x < 0.7 and g.t.dur:
        path = g.pick(sorted(g.t.dur))
        if any(s['path'] == path and s['tree'] is not None for s in g.t.slots.values()):
            return
        d = g.t.dur[path]
        key = key or (d['key'] if g.p(0.6) else g.pick(g.schemas))
        if S.text(g.schemas[key]) != S.text(d['spec']):
            alts = [[d['key'], g.pick([0, 1])]] if g.p(0.6) else []
            ops, slot = g.g_ps_new(key, path, alts)
            return ps_use(b, ops, slot, open_only)
    elif path is None and g.p(0.1) and g.t.files:
        path = g.pick(sorted(g.t.files))
    ops, slot = g.g_ps_new(key, path, src=src)
    ps_use(b, ops, slot, open_only)


def ps_use(b, ops, slot, open_only):
    g = b.g
    b.add(ops)
    if slot not in g.t.slots:
        return
    for _ in range(g.pick([1, 1, 2, 3])):
        if slot not in g.t.slots:
            return
        rec = g.t.slots[slot]
        if rec['tree'] is None and rec.get('porigin') and (g.t.slots.get(rec['porigin'][0]) or {}).get('tree') is None:
            return
        filepath = rec['path'] is not None
        if g.p(0.5):
            fault = {'ofault': err_fault(g, True)} if filepath and g.p(0.08) else {}
            op = {'op': 'ps_with', 'slot': slot, 'body': [], **fault}
            if g.track_open(slot):
                op['body'] = body(b, slot, open_only)
                if g.p(0.3):
                    op['raise'] = g.pick(RAISE)
                if filepath and g.p(0.15):
                    op['fault'] = err_fault(g)
            b.add([op])
            if slot in g.t.slots:
                g.track_close(slot)
            if g.p(0.5) and slot in g.t.slots and g.t.slots[slot]['tree'] is not None:
                b.add(g.g_mend(slot))
                b.add([{'op': 'ps_close', 'slot': slot}])
                g.track_close(slot)
        else:
            o = {'op': 'ps_open', 'slot': slot}
            if g.p(0.1) and filepath:
                o['fault'] = err_fault(g, g.p(0.5))
            elif g.p(0.15) and filepath:
                o['br'] = {'mode': 'read', 'max': 4, 'seed': g.r.randrange(10 ** 6)}
            b.add([o])
            if g.track_open(slot):
                b.add(body(b, slot, open_only))
                if g.p(0.1):
                    b.add([{'op': 'ps_open', 'slot': slot}])
            c = {'op': 'ps_close', 'slot': slot}
            if filepath and g.p(0.3):
                c['br'] = {'mode': g.pick(['err', 'crash']), 'max': 5, 'seed': g.r.randrange(10 ** 6)}
            elif filepath and g.p(0.1):
                c['fault'] = err_fault(g)
            b.add([c])
            g.track_close(slot)
            if g.p(0.4) and g.t.slots[slot]['tree'] is not None:
                b.add(g.g_mend(slot))
                b.add([{'op': 'ps_close', 'slot': slot}])
                g.track_close(slot)
            elif g.p(0.1):
                b.add([{'op': 'ps_close', 'slot': slot}])


def ps_unclosed(b, edits=True):
    """Open a pseudo-storage on a path, and never close it."""
    g = b.g
    free = [p for p in sorted(g.t.dur) if not any(s['path'] == p and s['tree'] is not None for s in g.t.slots.values())]
    path = g.pick(free) if free and g.p(0.7) else None
    if path is None and not edits:
        return
    key = g.pick(g.schemas)
    if path and g.p(0.7):
        key = g.t.dur[path]['key']
    ops, slot = g.g_ps_new(key, path, [])
    b.add(ops)
    if slot not in g.t.slots:
        return
    b.add([{'op': 'ps_open', 'slot': slot}])
    if g.track_open(slot) and edits:
        b.add(body(b, slot, False))


def ps_refused(b):
    """Open a pseudo-storage on existing data with another schema."""
    g = b.g
    free = [p for p in sorted(g.t.dur) if not any(s['path'] == p and s['tree'] is not None for s in g.t.slots.values())]
    if not free:
        return
    path = g.pick(free)
    keys = [k for k in g.schemas if S.text(g.schemas[k]) != S.text(g.t.dur[path]['spec'])]
    key = g.pick(keys) if keys else g.add_schema(g.mutate(g.schemas[g.t.dur[path]['key']]))
    ops, slot = g.g_ps_new(key, path, [])
    b.add(ops)
    if slot in g.t.slots:
        b.add([{'op': 'ps_open', 'slot': slot}])
        g.track_open(slot)


def body(b, slot, open_only):
    g = b.g
    out = []
    if open_only and g.p(0.5):
        return out
    for _ in range(g.pick([0, 1, 2, 4, 8])):
        if g.p(0.15):
            out += g.g_fill(slot, g.r.random())
        elif g.p(0.1):
            out += g.g_read(slot)
        else:
            out += g.g_edit(slot, bad=0.03, breakp=b.breakp)
    if g.p(0.7):
        out += g.g_mend(slot)
    return out


def c14(g):
    schema(g)
    if g.p(0.5):
        g.add_schema(g.mutate(g.schemas['S0']))
    b = Build(g, {'copy': 1, 'create': 2, 'edit': 30}, odd=0.0, breakp=0.12)
    b.add(g.dirs())
    for i in range(g.pick([1, 2, 2])):
        if g.p(0.5):
            b.begin()
            b.steps(size(g, 1, 6))
            b.save(mend=1.0)
            if g.p(0.7):
                for s in g.open_slots('st', True):
                    b.add(g.g_close(s))
        for _ in range(g.pick([1, 2, 3])):
            ps_session(b)
            if g.p(0.3):
                b.step()
        if g.p(0.2):
            b.add(g.g_fs())
            ps_session(b)
        b.end()
    return b.done()


def c16(g):
    schema(g, g.pick([1, 1, 2]))
    b = Build(g, {'plant': 8, 'save': 22, 'load': 8, 'reload': 10, 'edit': 45}, inmem=False, odd=0.05, mend=0.95, force=0.1)
    b.add(g.dirs())
    for _ in range(g.pick([1, 1, 2])):
        if g.p(0.6):
            b.add(g.g_plant())
        b.begin()
        b.steps(size(g, 3, 20))
        b.save(mend=1.0)
        b.end()
    return b.done()


def c17(g):
    schema(g, g.pick([1, 1, 2]))
    b = Build(g, {'read': 10, 'lf': 8}, odd=0.03, bad=0.1, breakp=0.08, mend=0.6, force=0.2,
              save=lambda: {'fault': err_fault(g)} if g.p(0.1) else {}, load=lambda: {'fault': err_fault(g, True)} if g.p(0.05) else {})
    for _ in range(g.pick([1, 2, 3])):
        b.begin()
        b.steps(size(g, 4, 24))
        if g.p(0.3):
            ps_session(b)
        b.save(mend=0.5)
        b.end()
    return b.done()


def c20(g):
    schema(g, g.pick([1, 1, 2]))
    b = Build(g, {'read': 4, 'lf': 10, 'copy': 6, 'reload': 12}, odd=0.03, bad=0.1, breakp=0.1, mend=0.5, force=0.3,
              save=lambda: {'fault': err_fault(g)} if g.p(0.1) else {}, load=lambda: {'fault': err_fault(g, True)} if g.p(0.05) else {})
    for _ in range(g.pick([1, 2, 3])):
        b.begin()
        b.steps(size(g, 4, 24))
        if g.p(0.2):
            ps_session(b)
        b.save(mend=0.4)
        b.end()
    return b.done()


def c21(g):
    g.cons = g.pick([0.2, 0.6])
    schema(g)
    if g.p(0.5):
        g.add_schema(g.mutate(g.schemas['S0']))
    n = [0]

    def save():
        n[0] += 1
        if n[0] % 3 == 1 and g.p(0.5):
            return {'br': {'mode': 'err', 'max': g.pick([4, 8]), 'seed': g.r.randrange(10 ** 6)}}
        return {'fault': err_fault(g)} if g.p(0.3) else {}

    def load():
        n[0] += 1
        kw = {}
        if n[0] % 3 == 1 and g.p(0.6):
            if g.p(0.5):
                kw['br'] = {'mode': 'read', 'max': 6, 'seed': g.r.randrange(10 ** 6)}
            else:
                kw['br'] = {'mode': 'damage', 'damage': [damage(g) for _ in range(5)]}
        elif g.p(0.2):
            kw['fault'] = err_fault(g, True)
        if g.p(0.25):
            kw.update(req=g.pick(g.schemas), hash=int(g.p(0.5)))
        return kw
    b = Build(g, {'edit': 25, 'load': 14, 'reload': 14, 'copy': 8, 'create': 8, 'close': 6, 'ps': 6, 'psopen': 4, 'plant': 4, 'lf': 4}, inmem=g.p(0.2), odd=0.2, bad=0.05,
              breakp=0.15, mend=0.6, force=0.2, save=save, load=load)
    for _ in range(g.pick([1, 2])):
        b.begin()
        b.steps(size(g, 4, 18))
        b.save(mend=0.6)
        if g.p(0.3):
            ps_refused(b)
        b.end()
    return b.done()


INTR = {'save': 4, 'ps_close': 6, 'load': 3, 'ps_open': 4, 'create': 2, 'copy': 3, 'validate': 1, 'inspect': 1}


def c23(g):
    g.cons = g.pick([0.2, 0.4])
    schema(g)
    b = Build(g, {'copy': 8, 'create': 4, 'reload': 12, 'save': 20, 'ps': 6, 'read': 8, 'edit': 40, 'plant': 2}, inmem=g.p(0.2), odd=0.05, breakp=0.05, mend=0.9, force=0.15)
    for _ in range(g.pick([1, 1, 2])):
        b.begin()
        b.steps(size(g, 3, 16))
        if g.p(0.4):
            ps_session(b)
        b.save(mend=0.9)
        b.end()
    sc = b.done()
    ops = [op for life in sc['lives'] for op in life['ops'] if op['op'] in INTR]
    for op in sorted(ops, key=lambda op: g.r.random() ** (1.0 / INTR[op['op']]))[-9:]:
        op['br'] = {'mode': 'intr', 'max': g.pick([3, 5, 8]), 'seed': g.r.randrange(10 ** 6)}
        op.pop('fault', None)
    return sc


def scenario(prop, seed, index, tier='quick'):
    g = Gen(prop, seed, index, tier)
    if prop == 'C15':
        import threads
        sc = threads.scenario(g)
    elif prop == 'C22':
        import procs
        sc = procs.scenario(g)
    else:
        sc = globals()['c%02d' % int(prop[1:])](g)
    sc['prop'] = prop
    sc['origin'] = {'seed': seed, 'index': index}
    return sc
