"""The file layouts, read and written with plain h5py, NumPy and SciPy only.

read() is driven by the schema the file is supposed to have and returns what a
user with these libraries finds: schema text, tree, and names belonging to
nothing.  write() produces such files in stylistic variations.
"""
import datetime
import io
import re
import zipfile

import h5py
import numpy as np
import scipy.io as sio

from schemas import text
from values import canon, to_py

INT = 'iu'


class Bad(Exception):
    pass


def _stamp(t, a):
    a = np.ravel(np.asarray(a))
    if a.dtype.kind not in INT:
        raise Bad('%s stored as %s' % (t, a.dtype))
    v = [int(x) for x in a]
    n = {'Date': 3, 'DateTime': 7, 'Time': 4}[t]
    if len(v) != n:
        raise Bad('%s stored as %d numbers' % (t, len(v)))
    return {'Date': datetime.date, 'DateTime': datetime.datetime, 'Time': datetime.time}[t](*v)


# ---- npz -------------------------------------------------------------------
def _npz_item(spec, a):
    t, cfg = spec['node_type'], spec['config']
    if t == 'Array':
        return canon(a)
    if t == 'Scalar':
        if a.size != 1:
            raise Bad('Scalar stored with shape %s' % (a.shape,))
        if a.dtype != np.dtype(cfg['dtype']):
            raise Bad('Scalar stored as %s' % a.dtype)
        return canon(a.reshape(-1)[0])
    if t == 'Bool':
        if a.size != 1 or a.dtype.kind != 'b':
            raise Bad('Bool stored as %s %s' % (a.dtype, a.shape))
        return canon(bool(a.reshape(-1)[0]))
    if t == 'String':
        if a.size != 1 or a.dtype.kind != 'U':
            raise Bad('String stored as %s %s' % (a.dtype, a.shape))
        return canon(str(a.reshape(-1)[0]))
    if t == 'Bytes':
        if a.dtype.kind != 'S':
            raise Bad('Bytes stored as %s' % a.dtype)
        return canon(a.tobytes())
    return canon(_stamp(t, a))


def read_npz(path, spec):
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        if len(set(names)) != len(names):
            raise Bad('duplicate entries %s' % names)
        arrays = {}
        for n in names:
            if not n.endswith('.npy'):
                raise Bad('entry %s' % n)
            arrays[n[:-4]] = np.lib.format.read_array(io.BytesIO(z.read(n)), allow_pickle=False)
    schema = str(arrays.pop('_schema')[()])
    used = set()

    def go(sp, name):
        t, cfg = sp['node_type'], sp['config']
        pre = name + '.' if name else ''
        if t == 'Compilation':
            return ('C', {k: go(s, pre + k) for k, s in cfg['subnodes'].items()})
        if t == 'List':
            idx = set()
            for k in arrays:
                m = re.match(re.escape(pre) + r'item_(\d+)(\.|$)', k)
                if m:
                    idx.add(int(m.group(1)))
            n = max(idx) + 1 if idx else 0
            if pre + 'length' in arrays:
                used.add(pre + 'length')
                if int(arrays[pre + 'length']) < n:
                    raise Bad('%slength is %s, but there is item %d' % (pre, arrays[pre + 'length'], n - 1))
                n = int(arrays[pre + 'length'])
            elif idx != set(range(n)):
                raise Bad('list %s has items %s' % (name, sorted(idx)))
            return ('L', [go(cfg['subnode'], '%sitem_%d' % (pre, i)) for i in range(n)])
        if name not in arrays:
            return ('I', None)
        used.add(name)
        return ('I', _npz_item(sp, arrays[name]))
    tree = go(spec, '' if spec['node_type'] == 'Compilation' else 'data')
    return schema, tree, sorted(set(arrays) - used)


def npz_arrays(spec, tree, name=None, out=None):
    out = {} if out is None else out
    if name is None:
        name = '' if spec['node_type'] == 'Compilation' else 'data'
    pre = name + '.' if name else ''
    if tree[0] == 'C':
        for k, v in tree[1].items():
            npz_arrays(spec['config']['subnodes'][k], v, pre + k, out)
    elif tree[0] == 'L':
        full = True
        for i, v in enumerate(tree[1]):
            n = len(out)
            npz_arrays(spec['config']['subnode'], v, '%sitem_%d' % (pre, i), out)
            full = full and len(out) > n
        if not full:
            out[pre + 'length'] = np.array(len(tree[1]))
    elif tree[1] is not None:
        v = to_py(tree[1])
        t = spec['node_type']
        if t in ('Date', 'DateTime', 'Time'):
            v = np.array(_parts(v), dtype='int64')
        elif t == 'Bool':
            v = np.array([v])
        elif t == 'Bytes':
            v = np.array(v if len(v) else [], dtype='S')
        out[name] = np.asarray(v)
    return out


def _parts(v):
    if isinstance(v, datetime.datetime):
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
    if isinstance(v, datetime.date):
        return [v.year, v.month, v.day]
    return [v.hour, v.minute, v.second, v.microsecond]


def write_npz(path, spec, tree, style):
    arrays = [('_schema', np.array(text(spec)))] + list(npz_arrays(spec, tree).items())
    if style & 2:
        arrays.reverse()
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED if style & 1 else zipfile.ZIP_STORED) as z:
        for n, a in arrays:
            b = io.BytesIO()
            np.lib.format.write_array(b, a, allow_pickle=False)
            i = zipfile.ZipInfo(n + '.npy')
            i.compress_type = z.compression
            z.writestr(i, b.getvalue())


# ---- hdf5 ------------------------------------------------------------------
def _h5_item(spec, d):
    t, cfg = spec['node_type'], spec['config']
    if not isinstance(d, h5py.Dataset):
        raise Bad('%s stored as a group' % t)
    v = d[()]
    if t == 'Bytes':
        if isinstance(v, h5py.Empty):
            return canon(b'')
        if not isinstance(v, np.void):
            raise Bad('Bytes stored as %s' % d.dtype)
        return canon(v.tobytes())
    if t == 'String':
        if not isinstance(v, bytes):
            raise Bad('String stored as %s' % d.dtype)
        return canon(v.decode('utf8'))
    if t == 'Bool':
        if d.shape != () or d.dtype.kind != 'b':
            raise Bad('Bool stored as %s' % d.dtype)
        return canon(bool(v))
    if t == 'Scalar':
        if d.shape != () or d.dtype != np.dtype(cfg['dtype']):
            raise Bad('Scalar stored as %s %s' % (d.dtype, d.shape))
        return canon(v)
    if t == 'Array':
        return canon(v)
    return canon(_stamp(t, v))


def read_hdf5(path, spec):
    left = []
    with h5py.File(path, 'r') as f:
        schema = f.attrs['dsch_schema']

        def go(sp, d, name):
            t, cfg = sp['node_type'], sp['config']
            if t == 'Compilation':
                if d is not None and not isinstance(d, h5py.Group):
                    raise Bad('compilation %s is no group' % name)
                keys = set(d) if d is not None else set()
                left.extend(name + '/' + k for k in keys - set(cfg['subnodes']))
                return ('C', {k: go(s, d[k] if k in keys else None, name + '/' + k) for k, s in cfg['subnodes'].items()})
            if t == 'List':
                if d is None:
                    return ('L', [])
                idx = set()
                for k in d:
                    m = re.fullmatch(r'item_(\d+)', k)
                    if m:
                        idx.add(int(m.group(1)))
                    else:
                        left.append(name + '/' + k)
                n = max(idx) + 1 if idx else 0
                if 'length' in d.attrs:
                    if int(d.attrs['length']) < n:
                        left.append('%s/item_%d beyond length %d' % (name, n - 1, d.attrs['length']))
                    n = int(d.attrs['length'])
                elif idx != set(range(n)):
                    raise Bad('list %s has items %s' % (name, sorted(idx)))
                return ('L', [go(cfg['subnode'], d['item_%d' % i] if i in idx else None, '%s/item_%d' % (name, i)) for i in range(n)])
            return ('I', None if d is None else _h5_item(sp, d))
        if spec['node_type'] == 'Compilation':
            tree = go(spec, f, '')
        else:
            left.extend('/' + k for k in f if k != 'dsch_data')
            tree = go(spec, f['dsch_data'] if 'dsch_data' in f else None, '/dsch_data')
    return schema, tree, left


def write_hdf5(path, spec, tree, style):
    with h5py.File(path, 'x', libver='latest' if style & 2 else None) as f:
        f.attrs['dsch_schema'] = text(spec)

        def go(sp, tr, parent, name):
            t, cfg = sp['node_type'], sp['config']
            if tr[0] == 'C':
                g = parent.create_group(name) if name else parent
                for k, v in tr[1].items():
                    go(cfg['subnodes'][k], v, g, k)
            elif tr[0] == 'L':
                g = parent.create_group(name)
                for i, v in enumerate(tr[1]):
                    go(cfg['subnode'], v, g, 'item_%d' % i)
                if len(g) != len(tr[1]):
                    g.attrs['length'] = len(tr[1])
            elif tr[1] is not None:
                v = to_py(tr[1])
                if t in ('Date', 'DateTime', 'Time'):
                    v = np.array(_parts(v), dtype='int64')
                elif t == 'Bytes':
                    v = np.void(v) if v else h5py.Empty('S1')
                if t == 'Array' and v.ndim and style & 1 and v.size:
                    parent.create_dataset(name, data=v, maxshape=(None,) * v.ndim, compression='gzip')
                elif t == 'Array' and v.ndim and v.size:
                    parent.create_dataset(name, data=v, maxshape=(None,) * v.ndim)
                else:
                    parent.create_dataset(name, data=v)
        go(spec, tree, f, '' if spec['node_type'] == 'Compilation' else 'dsch_data')


# ---- mat -------------------------------------------------------------------
MATTYPE = {'bool': 'uint8', 'float16': 'float64'}


def _mat_item(spec, a):
    t, cfg = spec['node_type'], spec['config']
    if not isinstance(a, np.ndarray) or a.dtype == object or a.dtype.names:
        raise Bad('%s stored as %r' % (t, getattr(a, 'dtype', type(a))))
    if t in ('Array', 'Scalar'):
        dt = np.dtype(cfg['dtype'])
        want = np.dtype(MATTYPE.get(dt.name, dt.newbyteorder('=')))
        if a.dtype == want:
            a = a.astype(dt)
        if t == 'Scalar':
            if a.size != 1 or a.dtype != dt:
                raise Bad('Scalar stored as %s %s' % (a.dtype, a.shape))
            return canon(a.reshape(-1)[0])
        if cfg['ndim'] == 1 and a.ndim == 2 and (a.shape[0] == 1 or a.size == 0):
            a = a.reshape(-1)
        if cfg['ndim'] == 0 and a.size == 1:
            a = a.reshape(())
        return canon(a)
    if t == 'Bool':
        if a.size != 1 or a.dtype.kind not in 'bu':
            raise Bad('Bool stored as %s %s' % (a.dtype, a.shape))
        return canon(bool(a.reshape(-1)[0]))
    if t == 'String':
        if a.dtype.kind != 'U' or a.size > 1:
            raise Bad('String stored as %s %s' % (a.dtype, a.shape))
        return canon(str(a.reshape(-1)[0]) if a.size else '')
    if t == 'Bytes':
        if a.dtype != np.dtype('uint8'):
            raise Bad('Bytes stored as %s' % a.dtype)
        return canon(a.tobytes())
    return canon(_stamp(t, a))


def read_mat(path, spec):
    f = sio.loadmat(path, appendmat=False)
    schema = str(np.ravel(f['schema'])[0])
    left = [k for k in f if k not in ('schema', 'data', '__header__', '__version__', '__globals__')]

    def go(sp, a, name):
        t, cfg = sp['node_type'], sp['config']
        if t == 'Compilation':
            rec = None
            if a is not None:
                if not a.dtype.names or a.size != 1:
                    if a.dtype == object and a.size == 0:
                        pass
                    else:
                        raise Bad('compilation %s stored as %s %s' % (name, a.dtype, a.shape))
                else:
                    rec = np.ravel(a)[0]
                    left.extend(name + '.' + k for k in a.dtype.names if k not in cfg['subnodes'])
            have = a.dtype.names if rec is not None else ()
            return ('C', {k: go(s, rec[k] if k in have else None, name + '.' + k) for k, s in cfg['subnodes'].items()})
        if t == 'List':
            if a is None:
                return ('L', [])
            if a.dtype != object:
                raise Bad('list %s stored as %s' % (name, a.dtype))
            return ('L', [go(cfg['subnode'], None if x.dtype == object and x.size == 0 else x, name + '[]') for x in np.ravel(a)])
        return ('I', None if a is None else _mat_item(sp, a))
    return schema, go(spec, f.get('data'), 'data'), left


def mat_value(spec, tree):
    if tree[0] == 'C':
        d = {k: mat_value(spec['config']['subnodes'][k], v) for k, v in tree[1].items()}
        d = {k: v for k, v in d.items() if v is not None}
        return np.array([tuple(d.values())], dtype=[(k, object) for k in d]) if d else None
    if tree[0] == 'L':
        out = np.zeros((len(tree[1]),), dtype=object)
        for i, v in enumerate(tree[1]):
            x = mat_value(spec['config']['subnode'], v)
            out[i] = np.zeros((0,), dtype=object) if x is None else x
        return out
    if tree[1] is None:
        return None
    v, t = to_py(tree[1]), spec['node_type']
    if t in ('Date', 'DateTime', 'Time'):
        return np.array(_parts(v), dtype='int64')
    if t == 'Bool':
        return np.array([v])
    if t == 'Bytes':
        return np.frombuffer(v, dtype='uint8')
    return np.asarray(v)


def write_mat(path, spec, tree, style):
    d = {'schema': text(spec)}
    v = mat_value(spec, tree)
    if v is not None:
        d['data'] = v
    if style & 2:
        d = dict(reversed(list(d.items())))
    with open(path, 'xb') as f:
        sio.savemat(f, d, long_field_names=True, do_compression=bool(style & 1))


READ = {'npz': read_npz, 'hdf5': read_hdf5, 'mat': read_mat}
WRITE = {'npz': write_npz, 'hdf5': write_hdf5, 'mat': write_mat}


def read(path, backend, spec):
    return READ[backend](path, spec)


def write(path, backend, spec, tree, style=0):
    WRITE[backend](path, spec, tree, style)
