"""Values: explicit JSON encoding for scenarios, canonical form for comparison."""
import datetime
import hashlib
import struct

import numpy as np

BIG = 2048


def _pattern(dtype, shape, seed):
    """Deterministic array content that is cheap to write down (for large arrays)."""
    n = int(np.prod(shape)) if len(shape) else 1
    dt = np.dtype(dtype)
    x = (np.arange(n, dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(seed)) >> np.uint64(40)
    if dt.kind == 'b':
        a = (x & np.uint64(1)).astype(dt)
    elif dt.kind in 'iu':
        a = (x % np.uint64(100)).astype(dt)
    elif dt.kind == 'c':
        a = ((x % np.uint64(1000)).astype('f8') + 1j * (x % np.uint64(7)).astype('f8')).astype(dt)
    else:
        a = ((x % np.uint64(1000)).astype('f8') / 8).astype(dt)
    return a.reshape(shape)


def _layout(a, order):
    if order == 'F':
        return np.asfortranarray(a)
    if order == 'S' and a.ndim:  # strided view
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        v = big[..., ::2]
        v[...] = a
        return v
    if order == 'R' and a.ndim:  # negative stride
        return np.ascontiguousarray(a[::-1])[::-1]
    return a


class Odd:
    """A value that nothing can store."""

    def __repr__(self):
        return '<odd>'


def dec(v):
    t = v[0]
    if t == 'bool':
        return bool(v[1])
    if t == 'str':
        return v[1]
    if t == 'strr':
        return v[1] * v[2]
    if t == 'bytes':
        return bytes.fromhex(v[1])
    if t == 'bytesr':
        return bytes.fromhex(v[1]) * v[2]
    if t == 'int':
        return int(v[1])
    if t == 'float':
        return float.fromhex(v[1]) if v[1] not in ('nan', 'inf', '-inf') else float(v[1])
    if t == 'complex':
        return complex(float(v[1]), float(v[2]))
    if t == 'np':
        return np.frombuffer(bytes.fromhex(v[2]), dtype=v[1])[0]
    if t == 'arr':
        a = np.frombuffer(bytes.fromhex(v[4]), dtype=v[1]).reshape(v[2]).copy()
        return _layout(a, v[3])
    if t == 'arrp':
        return _layout(_pattern(v[1], tuple(v[2]), v[4]), v[3])
    if t == 'date':
        return datetime.date(*v[1:])
    if t == 'dt':
        return datetime.datetime(*v[1:])
    if t == 'time':
        return datetime.time(*v[1:])
    if t == 'list':
        return [dec(x) for x in v[1]]
    if t == 'tuple':
        return tuple(dec(x) for x in v[1])
    if t == 'dict':
        return {k: dec(x) for k, x in v[1].items()}
    if t == 'none':
        return None
    if t == 'npstr':
        return np.array(v[1])
    if t == 'npb':
        return np.bool_(v[1])
    if t == 'odd':
        return Odd()
    raise ValueError(v)


def enc_arr(a, order='C'):
    a = np.asarray(a)
    return ['arr', a.dtype.str, list(a.shape), order, np.ascontiguousarray(a).tobytes().hex()]


def enc_np(x):
    return ['np', x.dtype.str, x.tobytes().hex()]


def _big(b):
    return b if len(b) <= BIG else ('#', len(b), hashlib.sha256(b).hexdigest()[:24])


def canon(x):
    """Canonical, hashable form: type, dtype, shape and bits."""
    if type(x) is bool:
        return ('o', x)
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.str, tuple(x.shape), _big(np.ascontiguousarray(x).tobytes()) if x.dtype.kind != 'O' else repr(x.tolist()))
    if isinstance(x, np.generic):
        if isinstance(x, (np.str_, np.bytes_, np.void)):
            return ('x', type(x).__name__, repr(x))
        return ('n', x.dtype.newbyteorder('=').str, x.astype(x.dtype.newbyteorder('=')).tobytes())
    if type(x) is str:
        return ('s', x) if len(x) <= BIG else ('s', _big(x.encode('utf8', 'surrogatepass')))
    if type(x) is bytes:
        return ('b', _big(x))
    if type(x) is datetime.datetime and x.tzinfo is None:
        return ('dt', x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)
    if type(x) is datetime.date:
        return ('d', x.year, x.month, x.day)
    if type(x) is datetime.time and x.tzinfo is None:
        return ('t', x.hour, x.minute, x.second, x.microsecond)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(y) for y in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, canon(y)) for k, y in x.items()))
    if x is None:
        return ('none',)
    r = repr(x)
    return ('x', type(x).__name__, r if ' at 0x' not in r else '')


def show(c, n=160):
    """Short human-readable form of a canonical value."""
    if c is None:
        return '<empty>'
    if c[0] == 'a' and isinstance(c[3], bytes):
        try:
            r = 'array(%s, %s, %s)' % (np.frombuffer(c[3], dtype=c[1]).tolist(), c[1], c[2])
        except Exception:
            r = repr(c)
    elif c[0] == 'n':
        r = '%s(%r)' % (c[1], np.frombuffer(c[2], dtype=c[1])[0].item())
    else:
        r = repr(c)
    return r if len(r) <= n else r[:n] + '...'


def to_py(c):
    """Canonical form back to a Python value (only if it is fully contained)."""
    k = c[0]
    if k == 'o':
        return c[1]
    if k == 'a' and isinstance(c[3], bytes):
        return np.frombuffer(c[3], dtype=c[1]).reshape(c[2]).copy()
    if k == 'n':
        return np.frombuffer(c[2], dtype=c[1])[0]
    if k == 's' and isinstance(c[1], str):
        return c[1]
    if k == 'b' and isinstance(c[1], bytes):
        return c[1]
    if k == 'd':
        return datetime.date(*c[1:])
    if k == 'dt':
        return datetime.datetime(*c[1:])
    if k == 't':
        return datetime.time(*c[1:])
    raise ValueError('not invertible')


def f2s(x):
    return struct.pack('<d', x).hex()
