"""Scenario generation: (seed, property, run index) -> an explicit scenario.

All randomness of the simulation is drawn here, from one generator; what comes
out is a JSON document that the executor follows to the letter.
"""
import copy
import math
import random

import numpy as np

import schemas as S
from execu import EXT, backend_of
from values import canon, dec, enc_arr, enc_np

FILE = ('npz', 'hdf5', 'mat')
NAMES = ['a', 'b', 'voltage', 'x', 'y', 'n', 'time', 'name', 'comment', 'data', 'schema', 'file', 'args', 'kwds', 'item_0', 'item_1', 'length',
         'dtype', 'value', 'dsch_data', 'dsch_schema', 'self', 'lambda', 'A', 'aa', 'subnodes', 'storage', 'x1', 'very_long_field_name_that_goes_on_and_on_for_62_characters_ok',
         'allow_pickle', 'compression', 'arr_0', 'shape', 'size', 'names', 'T', 'in_', 'config', 'node_type', 'header', 'version', 'keys', 'items', 'append', 'copy']
ODDNAMES = ['_a', '__b', 'with space', '1abc', 'ümlaut', '名前', 'a-b', 'a:b', 'item_x', 'B' * 80, 'data ', '€', '_private', '_save', "it's", 'a\\b', '_subnode', 'a,b', '%s', '{x}']
CHANGES = [[2021, 3, 28, 2], [2021, 10, 31, 2], [2021, 3, 14, 2], [2021, 11, 7, 1], [2021, 9, 26, 2], [2021, 4, 4, 2], [2021, 10, 3, 2], [1970, 1, 1, 0], [2038, 1, 19, 3]]
TZS = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NPT-5:45', 'XXX12', 'YYY-14', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0']
TIMES = [347155200, 347155201, 378691199, 951782399, 951868800, 1483228799, 1553993999, 1553994000, 1572137999, 1572138000, 1500000000, 1582934400, 1234567890, 2147483647, 3971289599,
         1709164799, 1456704000, 410227199, 1702857599, 1552201199, 1604210399]
ARR_DT = ['float', 'float64', 'float32', 'float16', 'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool', 'complex64', 'complex128', 'f8', '<i4', '>f8', '>i2', 'complex']
SCA_DT = ['float', 'float64', 'float32', 'float16', 'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'complex64', 'complex128', 'f4', 'i2']
TEXT = ['', 'a', 'spam', 'Hello World', ' ', '  lead', 'trail  ', 'tab\there', 'new\nline', 'cr\r\n', 'ümläut', '名前', 'π≈3.14', '😀', 'x' * 300, '0', 'None', '[]', '{"a": 1}', "quote'\"", 'back\\slash',
        'é', 'é', '\u200b', '\x7f', 'ÿ', 'aaaaaaaaaaaaaaaa', '%d {x}', '🏳️‍🌈 flag', '\ufeffbom', '\x01']
BYTES = [b'', b'a', b'spam', b'\0', b'\0\0', b'a\0', b'\0a', b'a\0b\0\0', bytes(range(256)), b'\xff\xfe', b'x' * 300, b' ', b'\n', b'0']


class Track:
    """What the generator knows about the simulated world (symbolically)."""

    def __init__(self):
        self.slots = {}
        self.dur = {}
        self.files = set()


class Gen:
    def __init__(self, prop, seed, index, tier='quick'):
        self.r = random.Random('%s/%s/%s' % (seed, prop, index))
        self.prop = prop
        self.index = index
        self.tier = tier
        self.schemas = {}
        self.t = Track()
        self.cons = self.r.choice([0.1, 0.3, 0.6])      # how constrained schemas are
        self.stamp = self.r.choice([0, 0.15, 0.5])
        self.odd = self.r.random() < 0.15               # names not possible in mat files
        self.big = self.r.random() < 0.08
        self.nslot = 0
        self.prefix = ''

    # -- small helpers ---------------------------------------------------------
    def p(self, x):
        return self.r.random() < x

    def pick(self, seq):
        return self.r.choice(list(seq))

    def weighted(self, w):
        items = [(k, v) for k, v in w.items() if v > 0]
        x = self.r.random() * sum(v for _, v in items)
        for k, v in items:
            x -= v
            if x < 0:
                return k
        return items[-1][0]

    # -- schemas ------------------------------------------------------------------
    def spec(self, depth=0, kind=None):
        if kind is None:
            if depth == 0:
                kind = self.weighted({'Compilation': 75, 'List': 11, 'item': 14})
            else:
                kind = self.weighted({'Compilation': 14 if depth < 3 else 0, 'List': 16 if depth < 3 else 0, 'item': 70})
        if kind == 'item':
            kind = self.weighted({'Array': 26, 'Bool': 10, 'Bytes': 12, 'Date': 8, 'DateTime': 9, 'Time': 8, 'Scalar': 16, 'String': 18})
        return getattr(self, 'spec_' + kind)(depth)

    def grow(self, spec):
        """Build some schema objects from other ones that were already in use."""
        for p, s in S.walk_spec(spec):
            if self.r.random() < (0.12 if not p else 0.03):
                s['x'] = dict(s.get('x', {}), grown=self.r.randrange(1, 4))

    def node(self, t, **cfg):
        return {'node_type': t, 'config': cfg}

    def names(self, n):
        pool = NAMES if not self.odd else NAMES + ODDNAMES * 2
        out = []
        while len(out) < n:
            x = self.pick(pool)
            if x not in out:
                out.append(x)
        return out

    def spec_Compilation(self, depth):
        n = self.weighted({1: 10, 2: 20, 3: 25, 4: 20, 5: 15, 7: 8, 12: 3, 0: 1 if depth else 0})
        names = self.names(n)
        subs = {}
        for k in names:
            subs[k] = self.spec(depth + 1)
        # dependent arrays
        if n >= 2 and self.p(0.3):
            ind = self.spec_Array(depth + 1, ndim=1, plain=True)
            subs[names[0]] = ind
            for k in names[1:]:
                if self.p(0.5):
                    nd = self.pick([1, 1, 2, 3])
                    dep = [self.pick([names[0], names[0], None]) for _ in range(nd)]
                    if all(d is None for d in dep):
                        dep[self.r.randrange(nd)] = names[0]
                    subs[k] = self.spec_Array(depth + 1, ndim=nd, dep=dep)
        if self.p(0.5):
            order = list(subs)
            self.r.shuffle(order)
            subs = {k: subs[k] for k in order}
        opt = [k for k in names if self.p(0.25)] if self.p(0.5) else []
        s = self.node('Compilation', subnodes=subs, optionals=opt)
        if opt and self.p(0.3):
            s['x'] = {'tup': 1}
        return s

    def spec_List(self, depth):
        lo = hi = None
        if self.p(self.cons):
            hi = self.pick([0, 1, 2, 3, 5, 12, 20]) if self.p(0.6) else None
            lo = self.pick([0, 1, 2, 3]) if self.p(0.6) else None
            if hi is not None and lo is not None and lo > hi:
                lo, hi = hi, lo
        # lists of compilations are what lists are mostly used for
        kind = self.weighted({'Compilation': 42 if depth < 2 else 25 if depth < 3 else 0, 'List': 12 if depth < 3 else 0, 'item': 46})
        return self.node('List', subnode=self.spec(depth + 1, kind), max_length=hi, min_length=lo)

    def limits(self, dt):
        d = np.dtype(dt)
        if d.kind not in 'iuf' or not self.p(self.cons):
            return None, None
        a, b = sorted([self.pick([0, 1, 5, 10, 42, 100, 0.5, 1e3] + ([-1, -100, -0.25] if d.kind != 'u' else [])) for _ in range(2)])
        hi = b if self.p(0.7) else None
        lo = a if self.p(0.6) else None
        return hi, lo

    def spec_Array(self, depth, ndim=None, dep=None, plain=False):
        dt = self.pick(ARR_DT)
        nd = ndim or self.weighted({1: 60, 2: 25, 3: 12, 4: 3})
        mx = mn = None
        if self.p(self.cons * 0.7) and not plain:
            mn = [self.pick([1, 1, 2, None]) for _ in range(nd)] if self.p(0.6) else None
            mx = [self.pick([2, 3, 4, 6, 30, None]) for _ in range(nd)] if self.p(0.6) else None
            if mn and mx:
                if self.p(0.2):
                    mx = [x or 2 for x in mn]
                    mn = list(mx)
                for i in range(nd):
                    if mn[i] and mx[i] and mn[i] > mx[i]:
                        mn[i] = mx[i]
            if mx and not any(mx):
                mx = None
            if mn and not any(mn):
                mn = None
        hi, lo = self.limits(dt)
        s = self.node('Array', dtype=dt, unit=self.pick(['', 'V', 'm/s²', '%']), max_shape=mx, min_shape=mn, ndim=nd, max_value=hi, min_value=lo,
                      depends_on=list(dep) if dep else None)
        x = {}
        if self.p(0.15) and np.dtype(dt).isnative and np.dtype(dt).name == dt:
            x['npd'] = 1
        if dep and len(dep) == 1 and self.p(0.5):
            x['depstr'] = 1
        if x:
            s['x'] = x
        return s

    def spec_Scalar(self, depth):
        dt = self.pick(SCA_DT)
        hi, lo = self.limits(dt)
        s = self.node('Scalar', dtype=dt, unit=self.pick(['', 'V', 's']), max_value=hi, min_value=lo)
        if self.p(0.15) and np.dtype(dt).name == dt:
            s['x'] = {'npd': 1}
        return s

    def spec_Bool(self, depth):
        return self.node('Bool')

    def lengths(self):
        hi = self.pick([0, 1, 3, 10, 300]) if self.p(self.cons) else None
        lo = self.pick([0, 1, 2, 5]) if self.p(self.cons) else None
        if hi is not None and lo is not None and lo > hi:
            lo, hi = hi, lo
        return hi, lo

    def spec_String(self, depth):
        hi, lo = self.lengths()
        return self.node('String', max_length=hi, min_length=lo)

    def spec_Bytes(self, depth):
        hi, lo = self.lengths()
        return self.node('Bytes', max_length=hi, min_length=lo)

    def spec_Date(self, depth):
        return self.node('Date', set_on_create=self.p(self.stamp))

    def spec_DateTime(self, depth):
        return self.node('DateTime', set_on_create=self.p(self.stamp))

    def spec_Time(self, depth):
        return self.node('Time', set_on_create=self.p(self.stamp))

    def mutate(self, spec):
        """A schema that differs from spec in exactly one setting."""
        s = copy.deepcopy(spec)
        nodes = []

        def walk(n):
            nodes.append(n)
            if n['node_type'] == 'Compilation':
                for v in n['config']['subnodes'].values():
                    walk(v)
            elif n['node_type'] == 'List':
                walk(n['config']['subnode'])
        walk(s)
        for _ in range(20):
            n = self.pick(nodes)
            t, c = n['node_type'], n['config']
            before = S.text(s)
            keep = copy.deepcopy(n)
            if t == 'Compilation':
                k = self.pick(['rename', 'add', 'drop', 'opt', 'type'])
                used = [x for v in c['subnodes'].values() for x in (v['config'].get('depends_on') or []) if x]
                if k == 'rename' and c['subnodes']:
                    a = self.pick(c['subnodes'])
                    b = self.pick([a + '2', a.upper(), a + 'x'])
                    if a not in used and b not in c['subnodes'] and '.' not in b:
                        c['subnodes'] = {b if x == a else x: v for x, v in c['subnodes'].items()}
                        c['optionals'] = [b if x == a else x for x in c['optionals']]
                elif k == 'add':
                    c['subnodes']['extra'] = self.spec_Bool(0)
                elif k == 'drop' and len(c['subnodes']) > 1:
                    a = self.pick(c['subnodes'])
                    if a not in used:
                        del c['subnodes'][a]
                        c['optionals'] = [x for x in c['optionals'] if x != a]
                elif k == 'opt' and c['subnodes']:
                    a = self.pick(c['subnodes'])
                    c['optionals'] = [x for x in c['optionals'] if x != a] if a in c['optionals'] else c['optionals'] + [a]
                elif k == 'type' and c['subnodes']:
                    a = self.pick(c['subnodes'])
                    if a not in used:
                        c['subnodes'][a] = self.spec(2, 'item')
            elif t in ('List', 'String', 'Bytes'):
                k = self.pick(['max_length', 'min_length'])
                c[k] = self.pick([None, 0, 1, 2, 50])
                if c['max_length'] is not None and c['min_length'] is not None and c['min_length'] > c['max_length']:
                    n.update(keep)
            elif t in S.STAMP:
                c['set_on_create'] = not c['set_on_create']
            elif t in ('Scalar', 'Array'):
                k = self.pick(['unit', 'max_value', 'min_value', 'dtype', 'ndim', 'max_shape', 'depends_on'])
                if k == 'unit':
                    c['unit'] = c['unit'] + self.pick(['m', ' ', 'V'])
                elif k in ('max_value', 'min_value') and np.dtype(c['dtype']).kind in 'iuf':
                    c[k] = self.pick([None, 0, 1, 7, 99, 0.5])
                elif k == 'dtype':
                    d = self.pick(SCA_DT if t == 'Scalar' else ARR_DT)
                    if np.dtype(d).kind in 'iuf' or (c['max_value'] is None and c['min_value'] is None):
                        c['dtype'] = d
                        n.pop('x', None)
                elif k == 'ndim' and t == 'Array' and not (c['max_shape'] or c['min_shape'] or c['depends_on']):
                    c['ndim'] = c['ndim'] + 1
                elif k == 'max_shape' and t == 'Array':
                    c['max_shape'] = None if c['max_shape'] else [9] * c['ndim']
                elif k == 'depends_on' and t == 'Array' and c['depends_on']:
                    c['depends_on'] = None
            if S.text(s) != before:
                return s
            n.clear()
            n.update(keep)
        return self.node('Compilation', subnodes={'zz': self.spec_Bool(0)}, optionals=[])

    def mat_ok(self, spec):
        t, c = spec['node_type'], spec['config']
        if t == 'Compilation':
            return all(k.isascii() and len(k) < 64 and self.mat_ok(v) for k, v in c['subnodes'].items())
        if t == 'List':
            return self.mat_ok(c['subnode'])
        return True

    # -- values ---------------------------------------------------------------------
    def arr(self, spec, shape, wild=True):
        c = spec['config']
        dt = np.dtype(c['dtype'])
        while math.prod(shape) > 90000:      # keep it affordable
            shape = list(shape)
            shape[shape.index(max(shape))] = 2
        n = math.prod(shape)
        order = self.pick(['C', 'C', 'C', 'F', 'S', 'R'])
        hi, lo = c['max_value'], c['min_value']
        if n > 400:
            if hi is None and lo is None:
                return ['arrp', dt.str, list(shape), order, self.r.randrange(1000)]
        if hi is None and lo is None and n and self.p(0.3) and wild:
            if dt.kind in 'iu':
                info = np.iinfo(dt)
                pool = [info.min, info.max, 0, 1, info.max - 1]
            elif dt.kind == 'f':
                info = np.finfo(dt)
                pool = [float('nan'), float('inf'), float('-inf'), -0.0, float(info.max), float(info.tiny), float(info.smallest_subnormal), 1.5]
            elif dt.kind == 'c':
                pool = [complex(float('nan'), 1), complex(0, float('inf')), 0j, -1 - 1j, complex(-0.0, 2)]
            else:
                pool = [True, False]
            a = np.array([self.pick(pool) for _ in range(n)]).astype(dt)
        else:
            vals = []
            a, b = self.range(dt, hi, lo)
            for _ in range(n):
                if dt.kind in 'iub':
                    vals.append(self.r.randint(int(np.ceil(a)), max(int(np.ceil(a)), int(np.floor(b)))))
                elif dt.kind == 'f':
                    vals.append(self.r.choice([a, b, self.r.uniform(a, b)]))
                else:
                    vals.append(complex(self.r.uniform(-9, 9), self.r.uniform(-9, 9)))
            if dt.kind == 'f' and vals and self.p(0.15):
                # NaN is within every limit
                for _ in range(self.pick([1, 1, 2, n])):
                    vals[self.r.randrange(n)] = float('nan')
            with np.errstate(all='ignore'):
                a = np.array(vals, dtype='complex' if dt.kind == 'c' else 'f8' if dt.kind == 'f' else None if vals else dt).astype(dt)
        return enc_arr(a.reshape(shape), order)

    def range(self, dt, hi, lo):
        if dt.kind == 'b':
            return 0, 1
        a = lo if lo is not None else (min(hi, 0) - 5 if hi is not None else (-20 if dt.kind != 'u' else 0))
        b = hi if hi is not None else (max(lo, 0) + 60 if lo is not None else 100)
        if dt.kind in 'iu':
            info = np.iinfo(dt)
            a, b = max(a, int(info.min)), min(b, int(info.max))
            # limits may exclude every number of the type
            a, b = min(a, int(info.max)), max(b, int(info.min))
        return (a, b) if a <= b else (b, b)

    def shape(self, spec, sib=None, wrong=False):
        c = spec['config']
        out = []
        for i in range(c['ndim']):
            lo = (c['min_shape'] or [None] * 9)[i]
            hi = (c['max_shape'] or [None] * 9)[i]
            cap = {1: 14, 2: 6, 3: 4, 4: 3}.get(c['ndim'], 3)
            n = self.weighted({0: 6, 1: 14, 2: 15, 3: 15, 'more': 50})
            if n == 'more':
                n = self.r.randint(2, cap)
            if lo:
                n = max(n, lo)
            if hi:
                n = min(n, hi)
            dep = (c['depends_on'] or [None] * 9)[i]
            if dep and sib and not wrong:
                s = sib.get(dep)
                if s and s[0] == 'I' and s[1] and s[1][0] == 'a' and len(s[1][2]) == 1:
                    n = s[1][2][0]
            out.append(n)
        if self.big and c['ndim'] <= 2 and not (c['max_shape'] or c['min_shape'] or c['depends_on'] or c['max_value'] is not None or c['min_value'] is not None) and self.p(0.5):
            out = [30000] if c['ndim'] == 1 else [200, 150]
        return out

    def value(self, spec, sib=None):
        """A value fitting the item's schema (as far as it can be known here)."""
        t, c = spec['node_type'], spec['config']
        if t == 'Array':
            return self.arr(spec, self.shape(spec, sib))
        if t == 'Scalar':
            dt = np.dtype(c['dtype'])
            hi, lo = c['max_value'], c['min_value']
            form = self.pick(['np', 'np', 'py'])
            with np.errstate(all='ignore'):
                if hi is None and lo is None and self.p(0.3):
                    if dt.kind in 'iu':
                        x = dt.type(self.pick([np.iinfo(dt).min, np.iinfo(dt).max, 0]))
                    elif dt.kind == 'f':
                        x = dt.type(self.pick([float('nan'), float('inf'), -0.0, float(np.finfo(dt).max), float(np.finfo(dt).tiny), 0.1]))
                    else:
                        x = dt.type(self.pick([complex(float('nan'), 0), 1j, -0.0 + 0j]))
                else:
                    a, b = self.range(dt, hi, lo)
                    if dt.kind in 'iu':
                        x = dt.type(self.r.randint(int(np.ceil(a)), max(int(np.ceil(a)), int(np.floor(b)))))
                    elif dt.kind == 'f':
                        x = dt.type(self.pick([a, b, self.r.uniform(a, b), 0.5 * (a + b)]))
                    else:
                        x = dt.type(complex(self.r.randint(-9, 9), self.r.randint(-9, 9)))
            if form == 'py':
                if dt.kind in 'iu':
                    return ['int', str(int(x))]
                if dt.kind == 'f':
                    f = float(x)
                    return ['float', 'nan' if f != f else ('inf' if f > 0 else '-inf') if f in (float('inf'), float('-inf')) else f.hex()]
            return enc_np(x)
        if t == 'Bool':
            if self.p(0.08):
                # not quite the right type; whether that is accepted is not specified
                return self.pick([['npb', 1], ['npb', 0], ['int', '1'], ['int', '0'], ['int', '5'], ['float', (0.5).hex()]])
            return ['bool', self.pick([True, False])]
        if t in ('String', 'Bytes'):
            pool = TEXT if t == 'String' else BYTES
            v = self.pick(pool)
            hi, lo = c['max_length'], c['min_length']
            if lo is not None and len(v) < lo:
                v = v + (type(v)() + (v[:1] or ('q' if t == 'String' else b'q'))) * (lo - len(v))
            if hi is not None:
                v = v[:hi]
            if lo is None and hi is None and self.big and self.p(0.3):
                return ['strr', 'abcdefghij', 9000] if t == 'String' else ['bytesr', '00ff10', 30000]
            return ['str', v] if t == 'String' else ['bytes', v.hex()]
        if t == 'Date':
            return ['date'] + self.pick([[1, 1, 1], [9999, 12, 31], [2020, 2, 29], [1970, 1, 1], [self.r.randint(1900, 2100), self.r.randint(1, 12), self.r.randint(1, 28)]])
        tm = self.pick([[0, 0, 0, 0], [23, 59, 59, 999999], [12, 0, 0, 1], [self.r.randrange(24), self.r.randrange(60), self.r.randrange(60), self.pick([0, 1, 500000, self.r.randrange(1000000)])]])
        if t == 'Time':
            return ['time'] + tm
        if self.p(0.2):
            # close to the changes between standard and daylight saving time
            return ['dt'] + self.pick(CHANGES) + [self.pick([0, 15, 30, 59]), self.pick([0, 59]), self.pick([0, 1, 999999])]
        return ['dt'] + self.pick([[1, 1, 1], [9999, 12, 31], [2020, 2, 29], [self.r.randint(1900, 2100), self.r.randint(1, 12), self.r.randint(1, 28)]]) + tm

    def limitbreak(self, spec, sib=None):
        """A value of the right type violating a limit, or None."""
        t, c = spec['node_type'], spec['config']
        if t in ('String', 'Bytes'):
            if c['max_length'] is not None and self.p(0.6):
                n = c['max_length'] + self.pick([1, 1, 5])
            elif c['min_length']:
                n = self.pick([0, c['min_length'] - 1])
            elif c['max_length'] is not None:
                n = c['max_length'] + 1
            else:
                return None
            return ['str', self.pick(['z', 'z', '\xe9', '\u65e5', '\U0001f600', ' ', '\n']) * n] if t == 'String' else ['bytes', (self.pick([b'z', b'\xff', b'\0', b' ']) * n).hex()]
        if t in ('Scalar', 'Array'):
            dt = np.dtype(c['dtype'])
            if t == 'Array' and c['depends_on'] and self.p(0.5):
                return self.arr(spec, self.shape(spec, sib, wrong=True))
            if t == 'Array' and (c['max_shape'] or c['min_shape']) and self.p(0.4):
                # one dimension just beyond its limit
                shape = self.shape(spec, sib)
                dims = [(i, l[i] + d) for l, d in ((c['max_shape'], 1), (c['min_shape'], -1)) if l for i in range(len(l)) if l[i]]
                if dims:
                    i, shape[i] = self.pick(dims)
                    return self.arr(spec, shape)
            cand = []
            if c['max_value'] is not None:
                cand.append(c['max_value'] + 1)
            if c['min_value'] is not None:
                cand.append(c['min_value'] - 1)
            if dt.kind == 'f':
                with np.errstate(all='ignore'):
                    up, down = dt.type(np.inf), dt.type(-np.inf)
                    if c['max_value'] is not None:
                        cand += [float(np.nextafter(dt.type(c['max_value']), up)), float('inf')]
                    if c['min_value'] is not None:
                        cand += [float(np.nextafter(dt.type(c['min_value']), down)), float('-inf')]
            ok = []
            for v in cand:
                if dt.kind in 'iu':
                    v = int(np.floor(v)) if v < 0 else int(np.ceil(v))
                    if np.iinfo(dt).min <= v <= np.iinfo(dt).max:
                        ok.append(v)
                else:
                    ok.append(v)
            if not ok:
                return None
            v = self.pick(ok)
            if t == 'Scalar':
                return enc_np(dt.type(v))
            e = self.arr(spec, self.shape(spec, sib))
            a = dec(e)
            if not a.size:
                return None
            a = np.array(a)
            a.flat[self.pick([0, a.size - 1, self.r.randrange(a.size)])] = v
            return enc_arr(a)
        return None

    def bad(self, spec):
        """A value that does not fit the type."""
        t, c = spec['node_type'], spec['config']
        pool = [['int', '42'], ['str', 'text'], ['bytes', '00'], ['none'], ['list', [['int', '1'], ['str', 'x']]], ['dict', {'a': ['int', '1']}], ['odd'], ['bool', True],
                ['float', (1.5).hex()], ['date', 2000, 1, 2], ['time', 1, 2, 3, 4], ['npstr', 'abc'], ['complex', '1', '2'], ['int', '-1'], ['int', str(10 ** 30)],
                ['list', []], ['tuple', [['int', '1'], ['int', '2']]]]
        if t == 'String':
            pool = [x for x in pool if x[0] not in ('list', 'tuple', 'bytes')]
        if t == 'Array':
            nd = c['ndim']
            pool += [enc_arr(np.zeros((2,) * (nd + 1))), enc_arr(np.zeros(3, dtype='complex128'))] * 2
            wrong = np.dtype('int32') if np.dtype(c['dtype']) != np.dtype('int32') else np.dtype('float64')
            pool += [enc_arr(np.zeros((2,) * nd, dtype=wrong))] * 2
            if c['max_shape'] or c['min_shape']:
                pool += [self.arr(dict(spec, config=dict(c, max_shape=None, min_shape=None)), [self.r.choice([0, 1, 7, 31]) for _ in range(nd)])] * 8
        return self.pick(pool)

    def refused(self, spec):
        """A value that (almost) certainly cannot be assigned to the node, often only in one deep place."""
        t, c = spec['node_type'], spec['config']
        if t == 'Compilation':
            if self.p(0.12):
                return self.pick([['int', '3'], ['list', [['int', '1']]], ['odd'], ['str', 'ab']])
            v = self.node_value(spec)
            subs = sorted(c['subnodes'])
            if not subs or self.p(0.15):
                new = ('unknown field', ['int', '1'])
            else:
                k = self.pick(subs)
                new = (k, self.refused(c['subnodes'][k]))
            items = [kv for kv in v[1].items() if kv[0] != new[0]]
            items.insert(self.pick([0, len(items), self.r.randint(0, len(items))]), new)
            return ['dict', dict(items)]
        if t == 'List':
            if self.p(0.2):
                return self.pick([['int', '3'], ['odd'], ['float', (1.5).hex()]])
            v = [self.node_value(c['subnode']) for _ in range(self.pick([0, 1, 1, 2, 3]))]
            v.insert(self.pick([0, len(v), self.r.randint(0, len(v))]), self.refused(c['subnode']))
            return ['list', v]
        two = enc_arr(np.array([1, 2]))
        return self.pick({'Scalar': [['odd'], ['str', 'text'], ['dict', {'a': ['int', '1']}], ['bytes', '00']], 'Date': [['int', '42'], ['str', 'text'], ['odd']],
                          'String': [['odd'], ['dict', {'a': ['int', '1']}], ['odd']], 'Bytes': [['odd'], ['int', '42'], ['float', (1.5).hex()]], 'Bool': [two],
                          'Array': [['odd'], ['dict', {'a': ['int', '1']}], ['list', [['list', [['int', '1']]], ['list', []]]]]}.get(t, [['int', '42'], ['str', 'text'], ['odd']]))

    def g_fail(self, slot=None):
        """An update that fails, then one of the same place that must work."""
        sl = self.open_slots()
        if not sl:
            return []
        slot = slot or self.pick(sl)
        out = []
        x = self.some_node(slot, self.pick([('List',), ('List',), ('Compilation',), S.ITEMS]))
        if not x:
            return []
        p, sp, tr = x
        if sp['node_type'] == 'List' and self.p(0.7):
            for _ in range(self.pick([1, 1, 2])):
                out.append({'op': 'append', 'slot': slot, 'at': list(p), 'v': self.refused(sp['config']['subnode'])})
            for _ in range(self.pick([1, 1, 2])):
                tr = S.get(self.t.slots[slot]['tree'], p)
                sub = sp['config']['subnode']
                op = {'op': 'append', 'slot': slot, 'at': list(p)}
                new = S.fresh(sub)
                if self.p(0.85):
                    op['v'] = self.node_value(sub)
                    lvl, new = self.plan(sub, new, op['v'])
                    if lvl == 'free':
                        continue
                out.append(op)
                self.update(slot, p, ('L', tr[1] + [new]))
            return out
        kind = 'set' if sp['node_type'] in S.ITEMS else 'trep'
        if kind == 'set' and not tr[1] and self.p(0.7):
            # usually something is there to be lost
            v = self.value(sp, self.siblings(slot, p))
            lvl, c = S.level(sp, dec(v))
            if lvl != 'free':
                out.append({'op': 'set', 'slot': slot, 'at': list(p), 'v': v})
                self.update(slot, p, ('I', c))
        out.append({'op': kind, 'slot': slot, 'at': list(p), 'v': self.refused(sp)})
        if self.p(0.7):
            v = self.node_value(sp)
            lvl, new = self.plan(sp, S.get(self.t.slots[slot]['tree'], p), v) if kind == 'trep' else (lambda r: (r[0], ('I', r[1])))(S.level(sp, dec(v)))
            if lvl != 'free':
                out.append({'op': kind, 'slot': slot, 'at': list(p), 'v': v})
                self.update(slot, p, new)
        return out

    def node_value(self, spec, depth=0, bad=0.0):
        """A value for append()/replace() of any node type."""
        t, c = spec['node_type'], spec['config']
        if t == 'Compilation':
            out = {}
            done = {}
            for k, s in c['subnodes'].items():
                if self.p(0.75):
                    if s['node_type'] in S.ITEMS:
                        out[k] = self.item_value(s, done, bad)
                        try:
                            done[k] = ('I', canon(dec(out[k])))
                        except Exception:
                            pass
                    else:
                        out[k] = self.node_value(s, depth + 1, bad)
            return ['dict', out]
        if t == 'List':
            n = self.weighted({0: 10, 1: 25, 2: 25, 3: 20, 4: 10})
            return ['list', [self.node_value(c['subnode'], depth + 1, bad) for _ in range(n)]]
        return self.item_value(spec, None, bad)

    def item_value(self, spec, sib=None, bad=0.0, breakp=0.0):
        if self.p(bad):
            return self.bad(spec)
        if self.p(breakp):
            v = self.limitbreak(spec, sib)
            if v is not None:
                return v
        return self.value(spec, sib)

    # -- the tracked world -------------------------------------------------------------
    def dummy(self, tree):
        d = {'d': ('d', 2017, 7, 14), 'dt': ('dt', 2017, 7, 14, 2, 40, 0, 0), 't': ('t', 2, 40, 0, 0)}
        if tree[0] == 'C':
            return ('C', {k: self.dummy(v) for k, v in tree[1].items()})
        if tree[0] == 'L':
            return ('L', [self.dummy(v) for v in tree[1]])
        if isinstance(tree[1], tuple) and tree[1][0] == 'T':
            return ('I', d[tree[1][1]])
        return tree

    def fresh(self, spec):
        return self.dummy(S.fresh(spec))

    def verdict(self, spec, tree):
        try:
            return S.verdict(spec, tree)[0]
        except Exception:
            return 'open'

    def open_slots(self, kind=None, file=None):
        return [k for k, s in self.t.slots.items() if s['tree'] is not None and (kind is None or s['kind'] == kind) and (file is None or (s['path'] is not None) == file)]

    def slotname(self):
        self.nslot += 1
        return 's%d' % self.nslot

    def add_schema(self, spec):
        k = 'S%d' % len(self.schemas)
        self.grow(spec)
        self.schemas[k] = spec
        return k

    def path(self, bk, odd=0.0):
        """A path for a new storage with this backend: (path, explicit backend or None)."""
        if bk == 'inmem':
            return '::inmem::', None
        i = self.r.randrange(100)
        ext = {'npz': '.npz', 'hdf5': self.pick(['.h5', '.hdf5']), 'mat': '.mat'}[bk]
        if self.p(odd):
            other = self.pick(['.npz', '.h5', '.mat', '', '.txt', '.dat', '.NPZ', '.npz.bak', '.mat ', '.h5.tmp', '.'])
            n = self.pick(['file%d' % i, 'f %d' % i, 'ünï%d' % i, '.hid%d' % i, 'x%d.npz' % i, 'x%d.mat' % i, 'sub/n%d' % i, 'a%d.b.c' % i, '-%d' % i, 'data', "q'%d" % i, '%41' + str(i), 'wild*%d' % i, '~/t%d' % i, '~%d' % i, '$DSCHX-%d' % i, 'v${DSCHX}%d' % i, '%%DSCHX%%%d' % i, 'a' * 100 + str(i), 'sub/deep/n%d' % i]) + other
            return self.prefixed(n), (bk if backend_of(n, None) != bk or self.p(0.3) else None)
        n = self.prefixed(self.pick(['f%d', 'data%d', 'sub/f%d']) % i + ext)
        return n, (bk if self.p(0.15) else None)

    def sp(self, p):
        return self.pick([0, 1, 1, 1] if p.startswith('~') else [0, 0, 0, 1, 2, 3])

    def prefixed(self, n):
        d, _, b = n.rpartition('/')
        return d + '/' * bool(d) + self.prefix + b

    def backends_for(self, spec, inmem=True):
        out = ['npz', 'hdf5'] + (['mat'] if self.mat_ok(spec) else []) + (['inmem'] if inmem else [])
        return out

    # -- operations: each returns a list of ops and updates the track --------------------
    def g_create(self, key=None, bk=None, slot=None, odd=0.0, path=None):
        key = key or self.pick(self.schemas)
        spec = self.schemas[key]
        bk = bk or self.pick(self.backends_for(spec))
        p, b = path or self.path(bk, odd)
        slot = slot or self.slotname()
        op = {'op': 'create', 'slot': slot, 'path': p, 'schema': key, 'sp': self.sp(p)}
        if b:
            op['backend'] = b
        if p in self.t.files:
            return [op]
        self.t.slots[slot] = {'kind': 'st', 'path': None if bk == 'inmem' else p, 'bk': bk, 'explicit': b, 'spec': spec, 'key': key, 'tree': self.fresh(spec)}
        return [op]

    def g_load(self, path=None, slot=None, **kw):
        if path is None:
            if not self.t.dur:
                return []
            path = self.pick(sorted(self.t.dur))
        d = self.t.dur.get(path)
        slot = slot or self.slotname()
        op = dict({'op': 'load', 'slot': slot, 'path': path, 'sp': self.sp(path)}, **kw)
        if d is not None and 'backend' not in op and (backend_of(path, None) != d['bk'] or self.p(0.1)):
            op['backend'] = d['bk']
        if d is not None:
            ok = op.get('force') or self.verdict(d['spec'], d['tree']) == 'valid'
            if op.get('cut') or any(op.get(k) and S.text(self.schemas[op[k]]) != S.text(d['spec']) for k in ('req', 'req2')):
                ok = False
            if ok:
                self.t.slots[slot] = {'kind': 'st', 'path': path, 'bk': d['bk'], 'explicit': op.get('backend'), 'spec': d['spec'], 'key': d['key'], 'tree': d['tree']}
        return [op]

    def g_close(self, slot=None):
        st = self.open_slots('st')
        if not st:
            return []
        slot = slot or self.pick(st)
        del self.t.slots[slot]
        for k in [k for k, s in self.t.slots.items() if s.get('origin') and s['origin'][0] == slot]:
            self.t.slots[k]['tree'] = None
        return [{'op': 'close', 'slot': slot}]

    def g_save(self, slot=None, force=None, **kw):
        st = self.open_slots('st', True)
        if not st:
            return []
        slot = slot or self.pick(st)
        s = self.t.slots[slot]
        op = dict({'op': 'save', 'slot': slot}, **kw)
        if force or (force is None and self.p(0.1)):
            op['force'] = True
        if op.get('force') or self.verdict(s['spec'], s['tree']) == 'valid':
            self.t.dur[s['path']] = {'spec': s['spec'], 'tree': s['tree'], 'bk': s['bk'], 'key': s['key']}
            self.t.files.add(s['path'])
        return [op]

    def some_node(self, slot, types=None, pred=None):
        s = self.t.slots[slot]
        out = [(p, sp, tr) for p, sp, tr in S.nodes(s['spec'], s['tree']) if (types is None or sp['node_type'] in types) and (pred is None or pred(p, sp, tr))]
        if not out:
            return None
        # prefer deep and late places now and then
        return self.pick(out[-6:] if self.p(0.25) else out)

    def update(self, slot, path, tree):
        s = self.t.slots[slot]
        s['tree'] = S.put(s['tree'], path, self.dummy(tree))
        if s.get('origin'):
            b = self.t.slots.get(s['origin'][0])
            if b and b['tree'] is not None and S.exists(b['tree'], s['origin'][1]):
                b['tree'] = S.put(b['tree'], s['origin'][1], s['tree'])
        for k, x in self.t.slots.items():
            if x.get('origin') and x['origin'][0] == slot and x['tree'] is not None and S.exists(s['tree'], x['origin'][1]):
                x['tree'] = S.get(s['tree'], x['origin'][1])

    def siblings(self, slot, path):
        if not path:
            return None
        t = S.get(self.t.slots[slot]['tree'], path[:-1])
        return t[1] if t[0] == 'C' else None

    def g_edit(self, slot=None, bad=0.0, breakp=0.0, kinds=None):
        op = self.one_edit(slot, bad, breakp, kinds)
        return [op] if op else []

    def size(self, shape, cfg):
        lo, hi = cfg['min_shape'] or (), cfg['max_shape'] or ()
        out = []
        for i, n in enumerate(shape):
            a = lo[i] if i < len(lo) and lo[i] else 0
            b = hi[i] if i < len(hi) and hi[i] else a + 9
            c = [0, 1, 2, 5, 9, n, n + 1, max(n - 1, 0), a, b]
            if self.p(0.7):
                c = [x for x in c if a <= x <= b] or [a]
            out.append(self.pick(c))
        return out

    def one_edit(self, slot=None, bad=0.0, breakp=0.0, kinds=None):
        sl = self.open_slots()
        if not sl:
            return None
        slot = slot or self.pick(sl)
        s = self.t.slots[slot]
        kind = self.weighted(kinds or {'set': 50, 'append': 18, 'clear': 8, 'trep': 9, 'setitem': 7, 'resize': 8, 'misassign': 1})
        if kind == 'append':
            x = self.some_node(slot, ('List',))
            if not x or len(x[2][1]) > 24:
                kind = 'set'
            else:
                p, sp, tr = x
                op = {'op': 'append', 'slot': slot, 'at': list(p)}
                sub = sp['config']['subnode']
                new = S.fresh(sub)
                if self.p(0.8):
                    op['v'] = self.node_value(sub, 0, bad * 0.3)
                    lvl, new = self.plan(sub, new, op['v'])
                    if lvl == 'free':
                        return op
                self.update(slot, p, ('L', tr[1] + [new]))
                return op
        if kind == 'trep':
            x = self.some_node(slot, ('List', 'Compilation'))
            if not x:
                kind = 'set'
            else:
                p, sp, tr = x
                op = {'op': 'trep', 'slot': slot, 'at': list(p), 'v': self.node_value(sp, 0, bad * 0.3)}
                lvl, new = self.plan(sp, tr, op['v'])
                if lvl != 'free':
                    self.update(slot, p, new)
                return op
        if kind == 'clear':
            x = self.some_node(slot)
            if not x:
                return None
            p, sp, tr = x
            self.update(slot, p, S.cleared(tr))
            return {'op': 'clear', 'slot': slot, 'at': list(p)}
        if kind in ('setitem', 'resize'):
            x = self.some_node(slot, ('Array',), lambda p, sp, tr: tr[1] and tr[1][0] == 'a' and isinstance(tr[1][3], bytes) and (kind == 'setitem' and 0 not in tr[1][2] or kind == 'resize'))
            if not x:
                kind = 'set'
            elif kind == 'setitem':
                p, sp, tr = x
                dt, shape = np.dtype(tr[1][1]), tr[1][2]
                key = []
                for n in shape:
                    if self.p(0.15):
                        break
                    key.append(self.pick([self.r.randrange(n), -1, [0, None, None], [None, max(1, n - 1), None], [0, n, 2]]))
                if not key or self.p(0.1):
                    key = ['...']
                v = enc_np(dec(self.arr(sp, [1]))[0].astype(dt.newbyteorder('=')))
                if not self.p(breakp):
                    pass
                elif sp['config']['max_value'] is not None:
                    w = dec(self.limitbreak(dict(sp, config=dict(sp['config'], depends_on=None))) or ['none'])
                    if isinstance(w, np.ndarray) and w.size:
                        v = enc_np(w.max().astype(dt.newbyteorder('=')))
                op = {'op': 'setitem', 'slot': slot, 'at': list(p), 'key': key, 'v': v}
                a = np.frombuffer(tr[1][3], dtype=tr[1][1]).reshape(shape).copy()
                try:
                    a[tuple(Ellipsis if k == '...' else slice(*k) if isinstance(k, list) else k for k in key)] = dec(v)
                    self.update(slot, p, ('I', canon(a)))
                except Exception:
                    pass
                return op
            else:
                p, sp, tr = x
                op = {'op': 'resize', 'slot': slot, 'at': list(p), 'size': self.size(tr[1][2], sp['config'])}
                if self.p(0.25):
                    op['held'] = True
                return op
        if kind == 'misassign':
            x = self.some_node(slot, None, lambda p, sp, tr: bool(p))
            if x:
                return {'op': 'misassign', 'slot': slot, 'at': list(x[0]), 'v': self.node_value(x[1])}
        x = self.some_node(slot, S.ITEMS)
        if not x:
            x = self.some_node(slot, ('List',))
            if not x or kinds and 'append' not in kinds:
                return None
            return self.one_edit(slot, bad, breakp, {'append': 1})
        p, sp, tr = x
        v = self.item_value(sp, self.siblings(slot, p), bad, breakp)
        op = {'op': 'set', 'slot': slot, 'at': list(p), 'v': v}
        if self.p(0.15):
            op['via'] = 'replace'
        lvl, c = S.level(sp, dec(v))
        if lvl != 'free':
            self.update(slot, p, ('I', c))
        return op

    def plan(self, spec, cur, v):
        from execu import Life
        return Life.plan_into(PLAN, spec, cur, dec(v))

    def g_fill(self, slot=None, part=1.0, breakp=0.0):
        """Fill (most of) a slot with valid values."""
        sl = self.open_slots()
        if not sl:
            return []
        slot = slot or self.pick(sl)
        out = []
        s = self.t.slots[slot]
        for _ in range(2):
            for p, sp, tr in list(S.nodes(s['spec'], s['tree'])):
                if sp['node_type'] == 'List' and S.exists(s['tree'], p):
                    cur = S.get(s['tree'], p)
                    lo, hi = sp['config']['min_length'] or 0, sp['config']['max_length']
                    n = self.weighted({0: 10, 1: 30, 2: 30, 3: 20, 12: 4})
                    n = max(lo, n if hi is None else min(n, hi)) - len(cur[1])
                    for _ in range(max(0, n)):
                        cur = S.get(s['tree'], p)
                        op = {'op': 'append', 'slot': slot, 'at': list(p)}
                        new = S.fresh(sp['config']['subnode'])
                        if self.p(0.8):
                            op['v'] = self.node_value(sp['config']['subnode'])
                            lvl, new2 = self.plan(sp['config']['subnode'], new, op['v'])
                            new = new2 if lvl != 'free' else None
                        out.append(op)
                        if new is not None:
                            self.update(slot, p, ('L', cur[1] + [new]))
        indep = []
        rest = []
        for p, sp, tr in list(S.nodes(s['spec'], s['tree'])):
            if sp['node_type'] in S.ITEMS and self.p(part):
                (rest if sp['config'].get('depends_on') else indep).append((p, sp))
        for p, sp in indep + rest:
            v = self.item_value(sp, self.siblings(slot, p), 0.0, breakp)
            lvl, c = S.level(sp, dec(v))
            out.append({'op': 'set', 'slot': slot, 'at': list(p), 'v': v})
            if lvl != 'free':
                self.update(slot, p, ('I', c))
        return out

    def g_mend(self, slot):
        """Make the data valid (as far as possible): clear or replace violating fields."""
        s = self.t.slots[slot]
        out = []
        for _ in range(6):
            try:
                v = S.violations(s['spec'], s['tree'])
            except Exception:
                break
            if not v:
                break
            for p, why in v:
                if not S.exists(s['tree'], p):
                    continue
                sp = S.at(s['spec'], p)
                tr = S.get(s['tree'], p)
                if sp['node_type'] == 'List':
                    if sp['config']['max_length'] is not None and len(tr[1]) > sp['config']['max_length'] or self.p(0.3):
                        out.append({'op': 'clear', 'slot': slot, 'at': list(p)})
                        self.update(slot, p, ('L', []))
                        tr = ('L', [])
                    while len(tr[1]) < (sp['config']['min_length'] or 0):
                        out.append({'op': 'append', 'slot': slot, 'at': list(p)})
                        tr = ('L', tr[1] + [self.fresh(sp['config']['subnode'])])
                        self.update(slot, p, tr)
                else:
                    out.append({'op': 'clear', 'slot': slot, 'at': list(p)})
                    self.update(slot, p, ('I', None))
        return out

    def g_copy(self, src=None, bk=None, odd=0.0, path=None):
        st = self.open_slots('st')
        if not st:
            return []
        src = src or self.pick(st)
        s = self.t.slots[src]
        bk = bk or self.pick(self.backends_for(s['spec']))
        p, b = path or self.path(bk, odd)
        slot = self.slotname()
        op = {'op': 'copy', 'src': src, 'slot': slot, 'path': p, 'via': self.pick(['save_as', 'create_from']), 'sp': self.sp(p)}
        if b:
            op['backend'] = b
        if p not in self.t.files:
            self.t.slots[slot] = {'kind': 'st', 'path': None if bk == 'inmem' else p, 'bk': bk, 'explicit': b, 'spec': s['spec'], 'key': s['key'], 'tree': s['tree']}
        return [op]

    def g_lf(self, slot=None, wrong=0.1):
        sl = self.open_slots()
        if not sl:
            return []
        slot = slot or self.pick(sl)
        x = self.some_node(slot)
        if not x:
            return []
        p, sp, tr = x
        cands = []
        for k in sl:
            s = self.t.slots[k]
            for q, sq, tq in S.nodes(s['spec'], s['tree']):
                same = S.text(sq) == S.text(sp)
                if (k, q) == (slot, p) and not self.p(0.05):
                    continue
                if same or self.p(wrong * 0.3):
                    cands.append((k, q, tq, same))
        # a node must not be loaded from one of its own ancestors or descendants
        cands = [c for c in cands if c[0] != slot and not self.related(c[0], slot) or c[0] == slot and c[1][:len(p)] != p and p[:len(c[1])] != c[1]]
        if not cands:
            return []
        k, q, tq, same = self.pick(cands)
        if same:
            self.update(slot, p, tq)
        return [{'op': 'lf', 'slot': slot, 'at': list(p), 'src': k, 'sat': list(q)}]

    def related(self, a, b):
        x, y = self.t.slots[a], self.t.slots[b]
        ox, oy = (x.get('origin') or (a,))[0], (y.get('origin') or (b,))[0]
        return ox == oy

    def g_read(self, slot=None):
        sl = self.open_slots()
        if not sl:
            return []
        slot = slot or self.pick(sl)
        x = self.some_node(slot)
        if not x:
            return []
        return [{'op': self.pick(['validate', 'inspect']), 'slot': slot, 'at': list(x[0]) if self.p(0.6) else []}]

    def g_clock(self):
        op = {'op': 'clock'}
        if self.p(0.5):
            op['add'] = self.pick([1, -1, 10 ** 9, -10 ** 9, 86400 * 10 ** 9, -86400 * 10 ** 9, 999_999_999, 3600 * 10 ** 9, 400 * 86400 * 10 ** 9])
        if self.p(0.6):
            op['jumps'] = [[self.r.randrange(0, 4), self.pick([10 ** 9, -10 ** 9, 3600 * 10 ** 9, -3600 * 10 ** 9, 86400 * 10 ** 9, -86400 * 10 ** 9, 10 ** 6])] for _ in range(self.pick([1, 1, 2]))]
        return [op]

    def g_tz(self):
        return [{'op': 'tz', 'tz': self.pick(TZS)}]

    def g_fs(self, path=None):
        p = path or self.pick(['neighbour.txt', 'f1', 'sub/other', 'f1.npz.npz', 'x.mat', 'data', 'f2.npz.mat'])
        if p in self.t.files or any(s['path'] == p for s in self.t.slots.values()):
            return []
        self.t.files.add(p)
        return [{'op': 'fs', 'path': p, 'data': None if self.p(0.15) else self.pick(['', '00', '504b0304', '894844460d0a1a0a', '48656c6c6f'])}]

    def g_plant(self, key=None, bk=None):
        key = key or self.pick(self.schemas)
        spec = self.schemas[key]
        bk = bk or self.pick(self.backends_for(spec, False))
        p, b = self.path(bk)
        if p in self.t.files or p in self.t.dur or any(s['path'] == p for s in self.t.slots.values()):
            return []
        tree, enc = self.planted(spec)
        if self.verdict(spec, tree) != 'valid':
            # planted files are valid ones: mend by emptying
            for q, why in S.violations(spec, tree):
                if S.exists(tree, q) and S.get(tree, q)[0] == 'I':
                    tree = S.put(tree, q, ('I', None))
                    enc = self.enc_put(enc, q)
        if self.verdict(spec, tree) != 'valid':
            return []
        op = {'op': 'plant', 'path': p, 'schema': key, 'vals': enc, 'style': self.r.randrange(4)}
        if b:
            op['backend'] = b
        self.t.dur[p] = {'spec': spec, 'tree': tree, 'bk': bk, 'key': key}
        self.t.files.add(p)
        return [op]

    def enc_put(self, enc, q):
        if not q:
            return ['I', None]
        if enc[0] == 'C':
            return ['C', {k: self.enc_put(v, q[1:]) if k == q[0] else v for k, v in enc[1].items()}]
        return ['L', [self.enc_put(v, q[1:]) if i == q[0] else v for i, v in enumerate(enc[1])]]

    def planted(self, spec, sib=None):
        t, c = spec['node_type'], spec['config']
        if t == 'Compilation':
            kids, enc = {}, {}
            for k, s in sorted(c['subnodes'].items(), key=lambda kv: bool(kv[1]['config'].get('depends_on'))):
                kids[k], enc[k] = self.planted(s, kids)
            return ('C', {k: kids[k] for k in c['subnodes']}), ['C', enc]
        if t == 'List':
            lo, hi = c['min_length'] or 0, c['max_length']
            n = self.weighted({0: 15, 1: 30, 2: 25, 3: 20, 11: 4})
            n = max(lo, n if hi is None else min(n, hi))
            kids = [self.planted(c['subnode']) for _ in range(n)]
            return ('L', [k[0] for k in kids]), ['L', [k[1] for k in kids]]
        if self.p(0.2):
            return ('I', None), ['I', None]
        v = self.value(spec, sib)
        if v[0] in ('arrp', 'strr', 'bytesr'):
            return ('I', None), ['I', None]
        lvl, cc = S.level(spec, dec(v))
        if lvl == 'free':
            return ('I', None), ['I', None]
        try:
            from values import to_py
            to_py(cc)
        except Exception:
            return ('I', None), ['I', None]
        return ('I', cc), ['I', v]

    # -- pseudo-storages
    def g_ps_new(self, key=None, path=None, alts=None, src=None, defer=None):
        key = key or self.pick(self.schemas)
        spec = self.schemas[key]
        slot = self.slotname()
        op = {'op': 'ps_new', 'slot': slot, 'schema': key, 'sp': self.pick([0, 0, 1, 2])}
        if alts is None:
            alts = [[self.pick(self.schemas), self.pick([0, 1])] for _ in range(self.pick([0, 0, 0, 1, 2]))]
        if alts:
            op['alts'] = alts
            if self.p(0.3):
                op['seq'] = 'tuple'
        op['defer'] = int(self.p(0.5)) if defer is None else defer
        rec = {'kind': 'ps', 'path': None, 'bk': None, 'explicit': None, 'spec': spec, 'key': key, 'tree': None, 'alts': alts, 'pspec': spec, 'pkey': key}
        if src:
            k, q = src
            op['src'], op['sat'] = k, list(q)
            rec['porigin'] = (k, tuple(q))
        else:
            if path is None:
                path, b = self.path(self.pick(self.backends_for(spec)))
            op['path'] = path
            rec['path'] = None if path == '::inmem::' else path
            rec['bk'] = backend_of(path, None)
        self.t.slots[slot] = rec
        if not op['defer'] and not self.track_open(slot):
            del self.t.slots[slot]
        return [op], slot

    def accepted(self, rec):
        return [S.text(rec['pspec'])] + [S.text(self.schemas[a[0]]) for a in rec['alts']]

    def track_open(self, slot):
        rec = self.t.slots[slot]
        if rec['tree'] is not None:
            return True
        if rec.get('porigin'):
            b = self.t.slots.get(rec['porigin'][0])
            if not b or b['tree'] is None or not S.exists(b['tree'], rec['porigin'][1]):
                return False
            sp = S.at(b['spec'], rec['porigin'][1])
            if S.text(sp) not in self.accepted(rec):
                return False
            rec['tree'] = S.get(b['tree'], rec['porigin'][1])
            rec['spec'] = sp
            rec['origin'] = rec['porigin']
            return True
        d = self.t.dur.get(rec['path']) if rec['path'] else None
        if d:
            if S.text(d['spec']) not in self.accepted(rec) or self.verdict(d['spec'], d['tree']) != 'valid' or d['bk'] != rec['bk']:
                return False
            rec['tree'], rec['spec'], rec['key'] = d['tree'], d['spec'], d['key']
            return True
        if rec['path'] in self.t.files:
            return False
        rec['tree'], rec['spec'], rec['key'] = self.fresh(rec['pspec']), rec['pspec'], rec['pkey']
        return True

    def track_close(self, slot):
        rec = self.t.slots[slot]
        if rec['tree'] is None:
            return
        if rec.get('origin'):
            rec['tree'] = None
            rec['origin'] = None
            return
        if rec['path']:
            if self.verdict(rec['spec'], rec['tree']) != 'valid':
                return
            self.t.dur[rec['path']] = {'spec': rec['spec'], 'tree': rec['tree'], 'bk': rec['bk'], 'key': rec['key']}
            self.t.files.add(rec['path'])
        rec['tree'] = None

    def end_life(self):
        self.t.slots = {}

    def clock(self):
        return {'base': (self.pick(TIMES) + self.r.choice([0, 0, -1, 1, self.r.randrange(86400)])) * 10 ** 9 + self.pick([0, 1, 999_999_999, 500_000, self.r.randrange(10 ** 9)]),
                'step': self.pick([0, 1, 1000, 999_999, 10 ** 6, 10 ** 9, 1234567])}

    def life(self, ops, end=None, power=False):
        l = {'ops': ops, 'end': end or self.weighted({'close': 40, 'exit': 30, 'kill': 30}), 'tz': self.pick(TZS), 'clock': self.clock()}
        if power:
            l['power'] = True
        return l

    def dirs(self):
        self.t.files.add('sub')
        return [{'op': 'fs', 'path': p, 'data': None} for p in ('sub', 'sub/deep', '~')]

    def done(self, lives):
        sc = {'v': 1, 'schemas': self.schemas, 'entropy': self.r.randrange(1, 10 ** 9), 'lives': lives}
        if self.p(0.3):
            sc['share'] = 1
        return sc


class _Plan:
    """plan_into/plan_value of the executor, without an executor."""


def _bind():
    from execu import Life
    for n in ('plan_into', 'plan_value', 'worse'):
        setattr(_Plan, n, getattr(Life, n))


_bind()
PLAN = _Plan()
