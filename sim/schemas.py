"""Schemas as plain dicts (the documented dict form), with an independent validator.

A spec is {'node_type': ..., 'config': {...}}; an optional key 'x' holds hints on
how to build the dsch object (e.g. dtype given as numpy.dtype).  Nothing in here
uses dsch except build().
"""
import hashlib
import json

import numpy as np

ITEMS = ('Array', 'Bool', 'Bytes', 'Date', 'DateTime', 'Scalar', 'String', 'Time')
STAMP = {'Date': 'd', 'DateTime': 'dt', 'Time': 't'}


def build(spec):
    """The dsch schema node for a spec, through the public constructors."""
    g = spec.get('x', {}).get('grown')
    final = build_plain(spec)
    if not g:
        return final
    # The same node, made from a different one that was already used.
    node = build_plain(other(spec, g))
    node.hash()
    node.to_json()
    for k, v in vars(final).items():
        setattr(node, k, v)
    return node


def other(spec, g):
    """Some different schema of the same node type."""
    t, c = spec['node_type'], dict(spec['config'])
    if t == 'Compilation':
        names = list(c['subnodes'])[:-1] if g != 2 else []
        c['subnodes'] = {k: c['subnodes'][k] for k in names}
        c['optionals'] = [k for k in c.get('optionals') or [] if k in names]
    elif t == 'List':
        c['subnode'] = {'node_type': 'Bool', 'config': {}}
    elif t in ('Array', 'Scalar'):
        c['unit'] += 'x'
    elif t in ('String', 'Bytes'):
        c['max_length'], c['min_length'] = 7, None
    elif t in STAMP:
        c['set_on_create'] = not c['set_on_create']
    return dict(spec, config=c, x={k: v for k, v in spec.get('x', {}).items() if k != 'grown'})


def build_plain(spec):
    from dsch import schema
    t, c, x = spec['node_type'], spec['config'], spec.get('x', {})
    if t == 'Compilation':
        opt = c.get('optionals') or []
        return schema.Compilation({k: build(v) for k, v in c['subnodes'].items()},
                                  optionals=tuple(opt) if x.get('tup') else (list(opt) if opt else None))
    if t == 'List':
        return schema.List(build(c['subnode']), max_length=c['max_length'], min_length=c['min_length'])
    kw = {k: v for k, v in c.items()}
    if t in ('Array', 'Scalar') and x.get('npd'):
        kw['dtype'] = np.dtype(kw['dtype'])
    if t == 'Array':
        for k in ('max_shape', 'min_shape', 'depends_on'):
            if kw[k] is not None:
                kw[k] = tuple(kw[k])
        if kw['depends_on'] and len(kw['depends_on']) == 1 and x.get('depstr'):
            kw['depends_on'] = kw['depends_on'][0]
        if kw['max_shape'] or kw['min_shape']:
            del kw['ndim']
    return getattr(schema, t)(**kw)


def walk_spec(spec, path=()):
    yield path, spec
    if spec['node_type'] == 'Compilation':
        for k, v in spec['config']['subnodes'].items():
            yield from walk_spec(v, path + (k,))
    elif spec['node_type'] == 'List':
        yield from walk_spec(spec['config']['subnode'], path + (0,))


def clean(spec):
    """The documented dict form, without build hints."""
    t, c = spec['node_type'], spec['config']
    if t == 'Compilation':
        return {'node_type': t, 'config': {'subnodes': {k: clean(v) for k, v in c['subnodes'].items()},
                                           'optionals': list(c.get('optionals') or [])}}
    if t == 'List':
        return {'node_type': t, 'config': dict(c, subnode=clean(c['subnode']))}
    return {'node_type': t, 'config': json.loads(json.dumps(c))}


def text(spec):
    return json.dumps(clean(spec), sort_keys=True)


def hash_(spec):
    return hashlib.sha256(text(spec).encode()).hexdigest()


def norm(d):
    """Compare dict forms independent of list/tuple."""
    return json.loads(json.dumps(d))


def sub(spec, key):
    if spec['node_type'] == 'Compilation':
        return spec['config']['subnodes'][key]
    return spec['config']['subnode']


def at(spec, path):
    for p in path:
        spec = sub(spec, p)
    return spec


def item_error(spec, c):
    """Why the (canonical) value violates the constraints of its item, or None."""
    t, cfg = spec['node_type'], spec['config']
    if t == 'Bool':
        return None if c[0] == 'o' else 'type'
    if t in ('String', 'Bytes'):
        if c[0] != {'String': 's', 'Bytes': 'b'}[t]:
            return 'type'
        n = len(c[1]) if not isinstance(c[1], tuple) else None
        if n is None:
            n = c[1][1]
        if cfg['max_length'] is not None and n > cfg['max_length']:
            return 'max_length'
        if cfg['min_length'] is not None and n < cfg['min_length']:
            return 'min_length'
        return None
    if t in STAMP:
        if t == 'Date':
            return None if c[0] in ('d', 'dt') else 'type'
        return None if c[0] == STAMP[t] else 'type'
    if t == 'Scalar':
        if c[0] != 'n':
            return 'type'
        dt = np.dtype(c[1])
        v = np.frombuffer(c[2], dtype=dt)[0]
        if dt != np.dtype(cfg['dtype']):
            return 'dtype'
        if dt.kind == 'b':
            return 'type'
        if cfg['max_value'] is not None and bool(v > cfg['max_value']):
            return 'max_value'
        if cfg['min_value'] is not None and bool(v < cfg['min_value']):
            return 'min_value'
        return None
    # Array
    if c[0] != 'a':
        return 'type'
    if np.dtype(c[1]) != np.dtype(cfg['dtype']):
        return 'dtype'
    shape = c[2]
    if len(shape) != cfg['ndim']:
        return 'ndim'
    for lim, bad, name in ((cfg['max_shape'], lambda a, n: a > n, 'max_shape'), (cfg['min_shape'], lambda a, n: a < n, 'min_shape')):
        if lim:
            for nom, act in zip(lim, shape):
                if nom and bad(act, nom):
                    return name
    if cfg['max_value'] is not None or cfg['min_value'] is not None:
        if not isinstance(c[3], bytes):
            return 'unknown'
        a = np.frombuffer(c[3], dtype=c[1])
        if cfg['max_value'] is not None and bool((a > cfg['max_value']).any()):
            return 'max_value'
        if cfg['min_value'] is not None and bool((a < cfg['min_value']).any()):
            return 'min_value'
    return None


def violations(spec, tree, path=(), siblings=None, out=None):
    """All nodes violating the schema: list of (path, reason).

    Reason 'open' marks a case the documentation leaves open (a dependent array
    whose independent variable is empty, large values we only keep a digest of).
    """
    out = [] if out is None else out
    t, cfg = spec['node_type'], spec['config']
    if t == 'Compilation':
        for k, s in cfg['subnodes'].items():
            violations(s, tree[1][k], path + (k,), tree[1], out)
    elif t == 'List':
        n = len(tree[1])
        if cfg['max_length'] is not None and n > cfg['max_length']:
            out.append((path, 'max_length'))
        if cfg['min_length'] is not None and n < cfg['min_length']:
            out.append((path, 'min_length'))
        for i, s in enumerate(tree[1]):
            violations(cfg['subnode'], s, path + (i,), None, out)
    elif tree[1] is not None:
        e = item_error(spec, tree[1])
        if e:
            out.append((path, 'open' if e == 'unknown' else e))
        if t == 'Array' and cfg['depends_on'] and (not e or e not in ('type', 'ndim')):
            for dim, name in enumerate(cfg['depends_on']):
                if not name or dim >= len(tree[1][2]):
                    continue
                ind = siblings.get(name) if siblings else None
                if ind is None or ind[0] != 'I' or ind[1] is None:
                    out.append((path, 'open'))
                elif ind[1][0] != 'a' or len(ind[1][2]) > 1:
                    out.append((path, 'open'))
                elif len(ind[1][2]) == 1 and ind[1][2][0] != tree[1][2][dim]:
                    out.append((path, 'depends_on'))
    return out


def verdict(spec, tree):
    """'valid', 'invalid' or 'open'; and the violating paths."""
    v = violations(spec, tree)
    if any(r != 'open' for p, r in v):
        return 'invalid', v
    return ('open' if v else 'valid'), v


# ---- trees -----------------------------------------------------------------
# ('I', canon|None)   ('C', {name: tree})   ('L', [trees])

def fresh(spec, create=True):
    """Tree of a newly created node; ('I', ('T', kind)) where the clock is used."""
    t, cfg = spec['node_type'], spec['config']
    if t == 'Compilation':
        return ('C', {k: fresh(s, create) for k, s in cfg['subnodes'].items()})
    if t == 'List':
        return ('L', [])
    if t in STAMP and cfg['set_on_create'] and create:
        return ('I', ('T', STAMP[t]))
    return ('I', None)


def get(tree, path):
    for p in path:
        tree = tree[1][p]
    return tree


def exists(tree, path):
    for p in path:
        if tree[0] == 'C' and isinstance(p, str) and p in tree[1]:
            tree = tree[1][p]
        elif tree[0] == 'L' and isinstance(p, int) and 0 <= p < len(tree[1]):
            tree = tree[1][p]
        else:
            return False
    return True


def put(tree, path, new):
    """Copy of the tree with the node at path replaced."""
    if not path:
        return new
    p = path[0]
    if tree[0] == 'C':
        d = dict(tree[1])
        d[p] = put(d[p], path[1:], new)
        return ('C', d)
    d = list(tree[1])
    d[p] = put(d[p], path[1:], new)
    return ('L', d)


def cleared(tree):
    if tree[0] == 'C':
        return ('C', {k: cleared(v) for k, v in tree[1].items()})
    if tree[0] == 'L':
        return ('L', [])
    return ('I', None)


def is_empty(tree):
    if tree[0] == 'C':
        return all(is_empty(v) for v in tree[1].values())
    if tree[0] == 'L':
        return all(is_empty(v) for v in tree[1])
    return tree[1] is None


def is_complete(spec, tree):
    cfg = spec['config']
    if tree[0] == 'C':
        opt = cfg.get('optionals') or []
        return all(is_complete(cfg['subnodes'][k], v) for k, v in tree[1].items() if k not in opt)
    if tree[0] == 'L':
        return all(is_complete(cfg['subnode'], v) for v in tree[1])
    return tree[1] is not None


def diff(a, b, path=()):
    """Paths at which two trees differ: list of (path, a-node, b-node)."""
    if a[0] != b[0]:
        return [(path, a, b)]
    if a[0] == 'I':
        return [] if a[1] == b[1] else [(path, a, b)]
    if a[0] == 'C':
        if set(a[1]) != set(b[1]):
            return [(path, a, b)]
        return [d for k in a[1] for d in diff(a[1][k], b[1][k], path + (k,))]
    out = [d for i, (x, y) in enumerate(zip(a[1], b[1])) for d in diff(x, y, path + (i,))]
    if len(a[1]) != len(b[1]):
        out.append((path, ('len', len(a[1])), ('len', len(b[1]))))
    return out


def leaves(spec, tree, path=()):
    if tree[0] == 'C':
        for k, v in tree[1].items():
            yield from leaves(spec['config']['subnodes'][k], v, path + (k,))
    elif tree[0] == 'L':
        for i, v in enumerate(tree[1]):
            yield from leaves(spec['config']['subnode'], v, path + (i,))
    else:
        yield path, spec, tree[1]


def nodes(spec, tree, path=()):
    yield path, spec, tree
    if tree[0] == 'C':
        for k, v in tree[1].items():
            yield from nodes(spec['config']['subnodes'][k], v, path + (k,))
    elif tree[0] == 'L':
        for i, v in enumerate(tree[1]):
            yield from nodes(spec['config']['subnode'], v, path + (i,))


def resolve_stamps(pred, obs, ok):
    """Replace clock markers in pred by observed values; collect the ones not ok."""
    bad = []

    def go(p, o, path):
        if p[0] == 'I':
            if isinstance(p[1], tuple) and p[1][0] == 'T':
                c = o[1] if o[0] == 'I' else None
                if not ok(p[1][1], c):
                    bad.append((path, c))
                return o if o[0] == 'I' else p
            return p
        if o[0] != p[0]:
            return p
        if p[0] == 'C':
            return ('C', {k: go(v, o[1][k], path + (k,)) if k in o[1] else v for k, v in p[1].items()})
        return ('L', [go(v, o[1][i], path + (i,)) if i < len(o[1]) else v for i, v in enumerate(p[1])])
    return go(pred, obs, ()), bad


def level(spec, v):
    """How a value fits an item: 'valid' (must be accepted and kept exactly),
    'storable' (violates only value limits), 'free' (outcome not specified).
    Returns (level, canonical value expected to be read back or None)."""
    from values import canon
    t, cfg = spec['node_type'], spec['config']
    if t == 'Scalar':
        dt = np.dtype(cfg['dtype'])
        if type(v) is bool or isinstance(v, (np.ndarray, str, bytes)) or not isinstance(v, (int, float, complex, np.number)):
            return 'free', None
        try:
            with np.errstate(all='ignore'):
                w = dt.type(v)
            if dt.kind in 'iu' and not isinstance(v, (int, np.integer)):
                return 'free', None
            if dt.kind == 'f' and isinstance(v, (complex, np.complexfloating)):
                return 'free', None
            if not (w == v or (v != v and w != w)):
                return 'free', None
        except (OverflowError, TypeError, ValueError):
            return 'free', None
        c = canon(w)
    else:
        c = canon(v)
        if t == 'Date' and c[0] == 'dt':
            return 'free', None
    e = item_error(spec, c)
    if e is None:
        return 'valid', c
    if e == 'unknown':
        return 'storable', c
    if e in ('max_value', 'min_value', 'max_length', 'min_length'):
        return 'storable', c
    return 'free', None


def storable(spec, tree, backend):
    """Whether a forced save of this tree has a defined outcome: right types everywhere."""
    for p, s, c in leaves(spec, tree):
        if c is None:
            continue
        e = item_error(s, c)
        if e in ('type', 'dtype', 'ndim'):
            if backend == 'mat' or e != 'ndim':
                return False
    return True


def name_path(text_):
    """Parse a reported location like a.b[3].c into a path."""
    out = []
    for part in text_.split('.'):
        head, _, rest = part.partition('[')
        if head:
            out.append(head)
        if rest:
            for idx in rest.rstrip(']').split(']['):
                out.append(int(idx))
    return tuple(out)
