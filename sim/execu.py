"""Executes one simulated process life: real dsch, simulated world, oracles inside.

Everything that happens is decided by the scenario; nothing here draws random
numbers.  The life runs in a forked process and reports through a pipe.
"""
import atexit
import dis
import errno
import gc
import hashlib
import json
import os
import pickle
import random
import shutil
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

import layout
import schemas as S
import world as W
from values import canon, dec, show, to_py

EXT = {'.npz': 'npz', '.h5': 'hdf5', '.hdf5': 'hdf5', '.mat': 'mat'}
WHOLE = ('npz', 'mat')  # formats written as a whole
GONE = ('gone',)


class StopRun(Exception):
    """A violation of the property under test was found."""


class Skip(Exception):
    """The operation does not apply in this state (e.g. after minimisation)."""


class Slot:
    def __init__(self, kind, path, backend, spec):
        self.kind = kind          # 'st' storage, 'ps' pseudo-storage
        self.path = path          # relative path, None for in-memory
        self.backend = backend
        self.spec = spec
        self.obj = None           # storage or pseudo-storage
        self.model = None         # tree, None if closed
        self.dirty = False
        self.shown = None         # the state last printed
        self.marks = set()        # history that the next audits are attributed to
        self.ps = None            # pseudo-storage parameters
        self.bound = None         # absolute storage_path
        self.origin = None        # slot and path of the node a pseudo-storage was given

    def root(self):
        return self.obj.data


def backend_of(path, backend):
    if backend:
        return backend
    if path == '::inmem::':
        return 'inmem'
    for e, b in EXT.items():
        if path.endswith(e):
            return b
    return None


def listing(root):
    """Everything below root: {relative path: content, target or kind}."""
    out = {}
    for d, dirs, files in os.walk(root):
        rd = os.path.relpath(d, root)
        for n in dirs:
            p = os.path.join(d, n)
            out[os.path.normpath(os.path.join(rd, n))] = '<link %s>' % os.readlink(p) if os.path.islink(p) else '<dir>'
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.normpath(os.path.join(rd, n))] = '<link %s>' % os.readlink(p)
            else:
                with open(p, 'rb') as f:
                    out[os.path.normpath(os.path.join(rd, n))] = f.read()
    return out


def restore(root, want):
    """Bring the directory back to a recorded state."""
    have = listing(root)
    for rel in sorted(have, reverse=True):
        if rel not in want or (want[rel] == '<dir>') != (have[rel] == '<dir>'):
            p = os.path.join(root, rel)
            if have[rel] == '<dir>':
                os.rmdir(p)
            else:
                os.unlink(p)
            del have[rel]
    for rel in sorted(want):
        p = os.path.join(root, rel)
        if want[rel] == '<dir>':
            if rel not in have:
                os.mkdir(p)
        elif isinstance(want[rel], str):
            if have.get(rel) != want[rel]:
                if rel in have:
                    os.unlink(p)
                os.symlink(want[rel][6:-1], p)
        elif have.get(rel) != want[rel]:
            with open(p, 'r+b' if rel in have else 'xb') as f:
                f.truncate(0)
                f.write(want[rel])


def h5_files():
    import h5py
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


class Base:
    """What life executor and image verifier have in common."""

    def __init__(self, shim, prop, out_fd):
        self.shim = shim
        self.prop = prop
        self.out = out_fd
        self.where = None
        self.stopped = False

    # -- reporting ------------------------------------------------------------
    def emit(self, kind, **kw):
        data = pickle.dumps((kind, kw), 4)
        data = struct.pack('<I', len(data)) + data
        while data:
            n = os.write(self.out, data)
            data = data[n:]

    def beat(self):
        """A sign of life, which restarts the time limit."""
        self.emit('beat')

    def viol(self, props, sig, msg, **kw):
        props = sorted(set(props))
        if getattr(self, 'in_branch', None):
            kw.setdefault('branch', self.in_branch)
            if intr(self.in_branch):
                props = sorted(set(props) | {'C23'})
        self.emit('viol', props=props, sig=sig, msg=msg, where=self.where, extra=kw)
        if self.prop in props:
            raise StopRun()

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # -- observation through the public API -------------------------------------
    def observe(self, node, spec, props, path=()):
        """The tree a node shows; every status query is checked on the way."""
        t, cfg = spec['node_type'], spec['config']
        if type(node).__name__ != t:
            self.viol(set(props) | {'C12'}, 'node-type', '%s is a %s, not a %s' % (path, type(node).__name__, t))
            return ('I', ('x', 'node', type(node).__name__))
        if t == 'Compilation':
            kids = {}
            for k, s in cfg['subnodes'].items():
                try:
                    sub = getattr(node, k)
                except Exception as e:
                    self.viol(set(props) | {'C12'}, 'missing-field', '%s: %r' % (path + (k,), e))
                    kids[k] = S.fresh(s, False)
                    continue
                kids[k] = self.observe(sub, s, props, path + (k,))
                if sub.parent is not node:
                    self.viol(['C17'], 'parent', '%s: the parent is %s' % (path + (k,), type(sub.parent).__name__))
            tree = ('C', kids)
        elif t == 'List':
            n = len(node)
            tree = ('L', [self.observe(node[i], cfg['subnode'], props, path + (i,)) for i in range(n)])
            try:
                node[n]
                self.viol(['C17'], 'list-index', '%s: len is %d but item %d exists' % (path, n, n))
            except IndexError:
                pass
            if any(x.parent is not node for x in node):
                self.viol(['C17'], 'parent', '%s: the list is not the parent of its items' % (path,))
            if n and node[-1] is not node[n - 1]:
                self.viol(['C17'], 'list-index', '%s[-1] is not the last item' % (path,))
            if len(list(node)) != n:
                self.viol(['C17'], 'list-iter', '%s: iteration gives %d items, len is %d' % (path, len(list(node)), n))
        else:
            from dsch import exceptions
            empty = node.empty
            try:
                v = node.value
            except exceptions.NodeEmptyError:
                c = None
            except Exception as e:
                if empty is True:
                    self.viol(['C17'], 'empty-value', '%s is empty, reading it raised %r' % (path, e))
                    c = None
                else:
                    c = ('x', 'unreadable', repr(e)[:200])
            else:
                c = canon(v)
                if t == 'Array' and c[0] == 'a' and 0 < len(c[2]) and 0 < v.size < 1000:
                    got = canon(np.asarray(node[...]))
                    if got != c:
                        self.viol(['C12'], 'slicing', '%s: [...] gives %s, the value is %s' % (path, show(got), show(c)))
                if c == ('none',):
                    c = ('x', 'None', '')
            if empty is not (c is None):
                self.viol(['C17'], 'empty-flag', '%s: empty=%r but value is %s' % (path, empty, show(c)))
            if node.complete is not (c is not None):
                self.viol(['C17'], 'complete-flag', '%s: complete=%r, value %s' % (path, node.complete, show(c)))
            return ('I', c)
        e, f = S.is_empty(tree), S.is_complete(spec, tree)
        if node.empty is not e:
            self.viol(['C17'], 'empty-flag', '%s: empty=%r, should be %r' % (path, node.empty, e))
        if node.complete is not f:
            self.viol(['C17'], 'complete-flag', '%s: complete=%r, should be %r' % (path, node.complete, f))
        return tree

    def data_tree(self, node, tree):
        """Check data_tree() in both forms against the observed tree."""
        def want(tr, inc):
            if tr[0] == 'C':
                sub = [(k, want(v, inc)) for k, v in tr[1].items()]
                return ('dict', tuple((k, v) for k, v in sub if inc or v is not None))
            if tr[0] == 'L':
                sub = [want(v, inc) for v in tr[1]]
                return ('list', tuple(v for v in sub if inc or v is not None))
            if tr[1] is None:
                return None
            return tr[1]

        def got(x):
            if isinstance(x, dict):
                return ('dict', tuple((k, got(v)) for k, v in x.items()))
            if isinstance(x, list):
                return ('list', tuple(got(v) for v in x))
            return None if x is None else canon(x)
        if any(c and c[0] == 'x' for p, s, c in self._leafs(tree)):
            return
        for inc in (False, True):
            try:
                x = got(node.data_tree(include_empty=inc))
            except Exception as e:
                self.viol(['C17'], 'data-tree', 'data_tree(%r) raised %r' % (inc, e))
                continue
            w = want(tree, inc)
            if self._unorder(x) != self._unorder(w):
                self.viol(['C17'], 'data-tree', 'data_tree(include_empty=%r) is %s, should be %s' % (inc, str(x)[:200], str(w)[:200]))

    def node_tree(self, node, spec, tree):
        """Check the printed form against the observed tree."""
        labels = []
        form = [str]

        def text(sp, c):
            t = sp['node_type']
            if t == 'Array':
                return 'x'.join(str(x) for x in c[2]) + ' array'
            if t == 'Scalar':
                return '%s %s' % (form[0](to_py(c)), sp['config']['unit'])
            return str(to_py(c))

        def want(sp, tr):
            t = sp['node_type']
            if tr[0] == 'I':
                if tr[1] is not None and (tr[1][0] == 'x' or t == 'Array' and tr[1][0] != 'a'):
                    raise ValueError()
                return {'(%s): %s' % (t, '<empty>' if tr[1] is None else text(sp, tr[1])): {}}
            if tr[0] == 'C':
                subs = [(k + ' ', want(S.sub(sp, k), v)) for k, v in tr[1].items()]
            else:
                subs = [('[%d] ' % i, want(S.sub(sp, i), v)) for i, v in enumerate(tr[1])]
            out = {}
            for pre, d in subs:
                for k, v in d.items():
                    out[pre + k] = v
            return {'(%s)' % t: out}

        def collect(d):
            for k, v in d.items():
                labels.append(k)
                collect(v)
        try:
            ways = []
            for f in (str, format):         # these differ for small floats
                form[0] = f
                ways.append(want(spec, tree))
        except ValueError:
            return
        try:
            got, shown = node.node_tree(), repr(node)
        except Exception as e:
            self.viol(['C20'], 'node-tree', 'printing raised %r' % e)
            return
        if got not in ways:
            self.viol(['C20'], 'node-tree', 'node_tree is %s, should be %s' % (str(got)[:300], str(ways[1])[:300]))
            return
        collect(got)
        pos = 0
        for l in labels:
            pos = shown.find(l, pos)
            if pos < 0:
                self.viol(['C20'], 'repr', 'the printed tree lacks %r: %s' % (l, shown[:300]))
                return
        if len(shown.split('\n')) != sum(len(l.split('\n')) for l in labels):
            self.viol(['C20'], 'repr-lines', 'the printed tree has %d lines for %d nodes: %s' % (len(shown.split('\n')), len(labels), shown[:300]))

    def open_files(self):
        """Descriptors of files below the root."""
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if t.startswith(self.root + '/') or t == self.root:
                out.append(os.path.relpath(t, self.root))
        return sorted(out)

    def check_open(self, what, live=None):
        """No file is left open, and no more files in memory than storages."""
        def look():
            more = live is not None and h5_files() > live
            return self.open_files(), more
        if not any(look()):
            return
        gc.collect()
        files, more = look()
        if files:
            self.viol(['C21'], 'left-open', 'after %s, still open: %s' % (what, files))
        if more:
            self.viol(['C21'], 'left-in-memory', 'after %s, %d HDF5 files are open in memory for %d storages' % (what, h5_files(), live))

    def _unorder(self, x):
        if isinstance(x, tuple) and x and x[0] == 'dict':
            return ('dict', tuple(sorted((k, self._unorder(v)) for k, v in x[1])))
        if isinstance(x, tuple) and x and x[0] == 'list':
            return ('list', tuple(self._unorder(v) for v in x[1]))
        return x if x is None else ('v', repr(x))

    def _leafs(self, tree):
        if tree[0] == 'C':
            for v in tree[1].values():
                yield from self._leafs(v)
        elif tree[0] == 'L':
            for v in tree[1]:
                yield from self._leafs(v)
        else:
            yield None, None, tree[1]

    def check_schema(self, storage, spec, props):
        """The schema a loaded storage exposes."""
        try:
            node = storage.schema_node
            if S.norm(node.to_dict()) != S.norm(S.clean(spec)):
                self.viol(set(props) | {'C06'}, 'schema-differs', 'schema of the loaded storage differs: %s' % node.to_json()[:300])
            if not node == S.build(spec) or not S.build(spec) == node:
                self.viol(set(props) | {'C06'}, 'schema-unequal', 'loaded schema node does not equal the original one')
            if storage.schema_hash() != S.hash_(spec) or node.hash() != S.hash_(spec):
                self.viol(set(props) | {'C06'}, 'schema-hash', 'schema hash %s, should be %s' % (storage.schema_hash(), S.hash_(spec)))
        except StopRun:
            raise
        except Exception as e:
            self.viol(set(props) | {'C06'}, 'schema-error', 'reading the schema raised %r' % e)

    def diff_props(self, spec, d):
        """Properties a difference at these places additionally concerns."""
        out = set()
        for path, a, b in d:
            try:
                s = S.at(spec, path)
            except Exception:
                continue
            if s['node_type'] in S.STAMP:
                if s['config']['set_on_create'] or (a == ('I', None) and b != ('I', None)):
                    out.add('C09')
        return out

    def show_diff(self, d):
        def one(x):
            if x[0] == 'I':
                return show(x[1], 100)
            if x[0] == 'len':
                return 'length %d' % x[1]
            return str(x)[:100]
        return '; '.join('%s: %s -> %s' % ('.'.join(map(str, p)) or '<top>', one(a), one(b)) for p, a, b in d[:3])


class Life(Base):
    tag = 0

    def __init__(self, shim, prop, out_fd, sc, li, root, imgdir, durable):
        super().__init__(shim, prop, out_fd)
        self.sc = sc
        self.li = li
        self.life = sc['lives'][li]
        self.root = root
        self.imgdir = imgdir
        self.durable = durable
        self.slots = {}
        self.stats = {}
        self.in_branch = None
        self.quiet = False
        self.count_lines = self.last_fired = self.last_ok = False
        self.last_io = None
        self.touched = {}      # path -> marks in this life
        self.trace = hashlib.sha256()
        self.states = set()
        self.nodes = {}
        self.start_disk = None

    def listing(self):
        return listing(self.root)

    def build(self, spec):
        """The schema as given to dsch: a new object, or one shared by everything."""
        if not self.sc.get('share'):
            return S.build(spec)
        key = json.dumps(spec)
        if key not in self.nodes:
            self.nodes[key] = S.build(spec)
        return self.nodes[key]

    # -- run --------------------------------------------------------------------
    def run(self):
        sc, life = self.sc, self.life
        os.environ['TZ'] = life.get('tz') or 'UTC0'
        time.tzset()
        signal.signal(signal.SIGINT, signal.default_int_handler)
        os.chdir(self.root)
        self.start_disk = self.listing()
        self.disk = dict(self.start_disk)
        self.shim.begin(self.root, bool(life.get('power')), (sc.get('entropy', 1) * 1000003 + self.li * 7919) & (2 ** 63 - 1))
        clk = life.get('clock') or {}
        self.shim.lib.sim_clock(1, clk.get('base', 1_500_000_000_000_000_000), clk.get('step', 1000))
        self.clock0 = self.shim.lib.sim_clock_now()
        gc.disable()
        try:
            for oi, op in enumerate(life['ops']):
                self.where = [self.li, oi]
                self.do(op)
            self.where = [self.li, len(life['ops'])]
            self.end()
        except StopRun:
            self.finish()
            os._exit(0)
        self.finish()
        os._exit(0)

    def finish(self):
        self.shim.lib.sim_pause(1)
        self.emit('done', stats=self.stats, digest=self.trace.hexdigest(), states=sorted(self.states), simtime=self.shim.lib.sim_clock_now() - self.clock0)

    def end(self):
        end = self.life.get('end', 'close')
        self.emit('ending', end=end, dirty=sorted({s.path for s in self.slots.values() if s.path and s.model is not None and s.dirty}))
        if end != 'kill':
            for s in self.slots.values():
                s.obj = None
            gc.collect()
            if end == 'exit':
                atexit._run_exitfuncs()
            self.check_disk({'op': 'end'}, ())
            self.check_fds('the end of everything')
        self.count('life-end-' + end)

    # -- operations ---------------------------------------------------------------
    def do(self, op):
        self.count('op-' + op['op'])
        self.beat()
        try:
            getattr(self, 'op_' + op['op'])(op)
        except Skip:
            self.count('skipped')
            return
        finally:
            if self.shim.overflow():
                self.emit('harness', msg='log overflow')
        self.check_fds(op['op'])
        state = repr((op['op'], sorted((k, s.model) for k, s in self.slots.items()))).encode()
        self.trace.update(state)
        self.states.add(hashlib.md5(state).hexdigest()[:10])

    def check_fds(self, what):
        if self.root:
            self.check_open(what, sum(1 for s in self.slots.values() if s.obj is not None))

    def io(self, fn, fault=None, disk=True):
        """Run fn inside the simulated world; returns (result, exception)."""
        lib = self.shim.lib
        pos = self.shim.used()
        tr = None
        for f in fault or ():
            if f['cls'] == 2:
                tr = Interrupt(f['idx'], f['exc'])
            else:
                lib.sim_fault(f['cls'], f['idx'], f['kind'], f.get('arg', errno.EIO), f.get('until', 1 << 30))
        if self.count_lines:
            tr = Interrupt(None, None)
        lib.sim_arm()
        res = exc = None
        try:
            res = tr.run(fn) if tr else fn()
        except StopRun:
            raise
        except BaseException as e:
            exc = e
            e.__traceback__ = None
        w, r = lib.sim_wcount(), lib.sim_rcount()
        lib.sim_disarm()
        recs = self.shim.records(pos)
        fired = [x for x in recs if x[0] == W.R_FAULT and x[6] == self.tag]
        if tr and tr.at:
            fired.append((W.R_FAULT, 0, 0, W.F_RAISE, 0, 0, self.tag))
            self.count('raise-%s-in-%s' % (tr.exc, tr.at[0]))
            self.trace.update(repr(tr.at).encode())
            if exc is None and tr.at[1]:
                self.viol(['C23'], 'swallowed', 'an interrupt (%s) in %s never reached the caller' % (tr.exc, tr.at[0]))
        self.last_fired = bool(fired)
        for x in fired:
            if x[3] != W.F_RAISE:
                self.count('fault-%s-%s' % (FNAME(x[3]), W.RNAME.get(x[2], '?')))
        self.last_io = {'lines': tr.lines if tr else None, 'w': w, 'r': r, 'fired': fired, 'recs': recs, 'pos': pos,
                        'clocks': [x[4] - (1 << 64) if x[4] >= 1 << 63 else x[4] for x in recs if x[0] == W.R_CLOCK and x[6] == self.tag]}
        for x in recs:
            if x[0] != W.R_CLOCK:
                self.trace.update(repr(x[:7]).encode())
        if exc is not None and not isinstance(exc, (Exception, KeyboardInterrupt)):
            raise exc
        return res, exc

    def slot(self, name, open_=True):
        s = self.slots.get(name)
        if s is None or (open_ and s.model is None):
            raise Skip()
        return s

    def spell(self, op, rel):
        """The path as it is given to dsch."""
        if rel == '::inmem::':
            return rel
        lnk = op.get('lnk')
        if lnk and not self.life.get('power') and os.path.realpath(os.path.join(self.root, lnk)) == os.path.realpath(os.path.join(self.root, rel)):
            rel = lnk
            self.count('via-link')
        sp = op.get('sp', 0)
        if sp == 1:
            return rel
        if sp == 2:
            return './' + rel
        if sp == 3:
            return os.path.join(self.root, '.', rel)
        return os.path.join(self.root, rel)

    def path_of(self, op):
        return os.path.normpath(op['path']) if op['path'] != '::inmem::' else None

    def mark(self, path, *marks):
        if path is not None:
            have = self.touched.setdefault(path, set())
            if not have.issuperset(marks):
                have.update(marks)
                if not self.in_branch:
                    self.emit('mark', path=path, marks=sorted(have))

    # -- checks after every operation ------------------------------------------------
    def check_disk(self, op, allowed, props=('C11',), stray=False):
        """Nothing but the allowed paths may have changed on disk."""
        self.shim.lib.sim_pause(1)
        now = self.listing()
        self.shim.lib.sim_pause(0)
        changed = [p for p in set(now) | set(self.disk) if now.get(p, GONE) != self.disk.get(p, GONE)]
        bad = [p for p in changed if p not in allowed]
        if stray:
            bad = [p for p in bad if p in self.disk]
        self.disk = now
        for p in sorted(bad):
            pr = set(props)
            own = {s.path for s in self.slots.values()}
            if op['op'] in ('load', 'inspect', 'validate', 'copy', 'ps_open', 'ps_new'):
                e = self.durable.get(p)
                if (e and e['backend'] in WHOLE) or not e:
                    pr.add('C07')
            if p in own and op['op'] not in ('load', 'inspect', 'validate', 'copy'):
                # Formats updated in place may change their file on edits; what
                # counts is what later loads see, which is audited separately.
                if not (self.durable.get(p) or {}).get('alts') or (self.durable.get(p) or {}).get('backend') == 'hdf5':
                    continue
                pr = {'C08'}
            what = 'removed' if p not in now else 'created' if now[p] != GONE and p not in self.disk else 'changed'
            self.viol(pr, 'other-file', 'operation %s changed %s' % (op['op'], p), what=what)
        return changed

    def check_slots(self, op, expect=None, props=(), skip=(), outside=('C12',)):
        """Observe every open storage and compare it to its model.

        expect: {slot name: predicted tree}; everything else must be as before.
        """
        for name, s in self.slots.items():
            if s.model is None or name in skip:
                continue
            pr = set(props) if expect and name in expect else set(outside)
            want = expect[name] if expect and name in expect else s.model
            try:
                root = s.root()
                obs = self.observe(root, s.spec, pr)
            except StopRun:
                raise
            except Exception as e:
                self.viol(pr | set(props), 'observe', 'reading back raised %r after %s' % (e, op['op']))
                continue
            d = S.diff(want, obs)
            if d:
                extra = self.diff_props(s.spec, d)
                if s.marks & {'copy', 'copysrc'} and not (expect and name in expect):
                    extra.add('C10')
                self.viol(pr | extra, 'memory', 'after %s, slot %s shows %s' % (self.opname(op), name, self.show_diff(d)))
            s.model = obs
            self.data_tree(root, obs)
            if s.shown != obs:
                s.shown = obs
                self.node_tree(root, s.spec, obs)
            if s.kind == 'st' and root.parent is not None:
                self.viol(['C17'], 'parent', 'the top-level node has a parent: %s' % type(root.parent).__name__)
            if s.kind == 'st' and s.obj.complete is not S.is_complete(s.spec, obs):
                self.viol(['C17'], 'storage-complete', 'storage.complete is %r' % (s.obj.complete,))
            st = s.obj if s.kind == 'st' else s.obj.storage
            if st is not None and s.path is not None:
                bound = os.path.abspath(st.storage_path)
                if s.bound not in (None, bound):
                    self.viol(set(props) | {'C11'}, 'storage-path', 'after %s, the storage_path of slot %s is %s' % (self.opname(op), name, st.storage_path))
                s.bound = bound

    def opname(self, op):
        return op['op'] + (' ' + '.'.join(map(str, op['at'])) if op.get('at') else '')

    def stamps(self, pred, name, spec, props=('C09',)):
        """Resolve timestamps in a predicted tree by looking at the real one."""
        s = self.slots[name]
        clocks = self.last_io['clocks']
        ok = {'d': set(), 't': set(), 'dt': set()}
        for ns in clocks:
            for dus in (-2, -1, 0, 1, 2):
                us = ns // 1000 + dus
                sec, u = divmod(us, 1000000)
                lt = time.localtime(sec)
                ok['d'].add(('d', lt.tm_year, lt.tm_mon, lt.tm_mday))
                ok['t'].add(('t', lt.tm_hour, lt.tm_min, lt.tm_sec, u))
                ok['dt'].add(('dt', lt.tm_year, lt.tm_mon, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec, u))
        obs = self.observe(s.root(), spec, props)
        res, bad = S.resolve_stamps(pred, obs, lambda kind, c: c in ok[kind])
        for path, c in bad:
            self.viol(props, 'stamp', 'field %s was set to %s on creation; the clock showed %s' % (
                '.'.join(map(str, path)) or '<top>', show(c), sorted(ok[S.at(spec, path) and S.STAMP[S.at(spec, path)['node_type']]])[:2]))
        n = sum(1 for _ in self._stamps(pred))
        if n:
            self.count('stamps-checked', n)
        return res

    def _stamps(self, pred):
        for _, _, c in self._leafs(pred):
            if isinstance(c, tuple) and c[0] == 'T':
                yield c

    # -- durable state ------------------------------------------------------------
    def entry(self, path):
        return self.durable.get(path)

    def set_entry(self, path, entry):
        if self.durable.get(path, {}).get('foreign'):
            entry['foreign'] = True
        self.durable[path] = entry
        self.emit('dur', path=path, entry=entry)

    def inflight(self, s):
        """Entry while a save of this slot is under way."""
        old = self.entry(s.path)
        alts = list(old['alts']) if old else []
        if not any(not S.diff(a, s.model) for a in alts):
            alts.append(s.model)
        return {'spec': s.spec, 'alts': alts, 'absent': not old or old['absent'], 'backend': s.backend}

    def acked(self, s):
        return {'spec': s.spec, 'alts': [s.model], 'absent': False, 'backend': s.backend}

    def image(self, label, entry, path, props, disk=None, recover=False, stray_ok=True, ack=False, force_only=False):
        """Register a copy of the disk for verification by a fresh process."""
        if self.quiet:
            return
        self.shim.lib.sim_pause(1)
        d = os.path.join(self.imgdir, '%05d' % len(os.listdir(self.imgdir)))
        os.mkdir(d)
        restore(d, self.listing() if disk is None else disk)
        self.shim.lib.sim_pause(0)
        self.emit('audit', job={'dir': d, 'path': path, 'entry': entry, 'props': sorted(props), 'label': label,
                                'recover': recover, 'ack': ack, 'where': list(self.where) if self.where else None,
                                'branch': self.in_branch})

    # -- creating and loading -------------------------------------------------------
    def op_create(self, op):
        import dsch
        if op['slot'] in self.slots and self.slots[op['slot']].model is not None:
            raise Skip()
        rel = self.path_of(op)
        spec = self.sc['schemas'][op['schema']]
        bk = backend_of(op['path'], op.get('backend'))
        exists = rel is not None and os.path.lexists(os.path.join(self.root, rel))
        node = self.build(spec)
        if op.get('br') and not self.in_branch:
            self.branches(op, op['br'])
        st, exc = self.io(lambda: dsch.create(self.spell(op, op['path']), node, backend=op.get('backend')), op.get('fault'))
        if exc is not None and self.last_fired:
            self.check_disk(op, ())
            self.check_slots(op)
            self.last_fired = True
            return
        self.mark(rel, 'create')
        if bk is None or bk == 'inmem' and op['path'] != '::inmem::':
            if exc is None:
                self.viol(['C11'], 'autodetect', 'a storage was created although no backend matches %r' % op['path'])
            self.check_disk(op, ())
            self.check_slots(op)
            return
        if exists:
            if not isinstance(exc, FileExistsError):
                self.viol(['C11'], 'create-existing', 'creating at existing %s: %r' % (rel, exc))
            self.check_disk(op, ())
            self.check_slots(op)
            st = None
            if exc is None:
                raise Skip()
            return
        if exc is not None:
            self.viol(['C12', 'C04', 'C10', 'C06'], 'create-failed', 'creating %s with %s raised %r' % (rel, bk, exc))
            raise Skip()
        s = self.new_slot(op['slot'], 'st', rel, bk, spec, st)
        self.after_create(op, s)

    def new_slot(self, name, kind, rel, bk, spec, obj):
        s = Slot(kind, rel, bk, spec)
        s.obj = obj
        st = obj if kind == 'st' else None
        if st is not None and rel is not None:
            s.bound = os.path.abspath(st.storage_path)
        self.slots[name] = s
        return s

    def after_create(self, op, s):
        s.model = S.fresh(s.spec)
        s.model = self.stamps(s.model, [k for k, v in self.slots.items() if v is s][0], s.spec)
        s.dirty = True
        s.marks = {'create'}
        self.check_disk(op, {s.path})
        self.check_slots(op, {op['slot']: s.model}, ('C12', 'C09'))
        self.check_schema_of(s)

    def check_schema_of(self, s):
        if s.kind == 'st':
            self.check_schema(s.obj, s.spec, ())

    def op_load(self, op):
        if op['slot'] in self.slots and self.slots[op['slot']].model is not None:
            raise Skip()
        br = op.get('br')
        if br and not self.in_branch:
            self.branches(op, br)
        self.load(op, op.get('fault'))

    def load(self, op, fault=None, damaged=False):
        import dsch
        rel = self.path_of(op)
        e = self.entry(rel)
        full = os.path.join(self.root, rel)
        exists = os.path.lexists(full)
        own = backend_of(op['path'], op.get('backend'))
        kw = {}
        if op.get('backend'):
            kw['backend'] = op['backend']
        if op.get('force'):
            kw['force'] = True
        req = None
        if op.get('req'):
            req = self.sc['schemas'][op['req']]
            reqs = [req]
            if op.get('hash'):
                kw['required_schema_hash'] = S.hash_(req)
                if op.get('cut'):
                    kw['required_schema_hash'] = kw['required_schema_hash'][:op['cut']]
            else:
                kw['required_schema'] = self.build(req)
            if op.get('req2'):
                # both ways at once
                reqs.append(self.sc['schemas'][op['req2']])
                if op.get('hash'):
                    kw['required_schema'] = self.build(reqs[1])
                else:
                    kw['required_schema_hash'] = S.hash_(reqs[1])
        self.mark(rel, 'load')
        st, exc = self.io(lambda: dsch.load(self.spell(op, op['path']), **kw), fault)
        fired = self.last_io['fired']
        ctx = {'C01', 'C05'} | self.ctx_props(rel)
        try:
            if own is None:
                if exc is None:
                    self.viol(['C11'], 'autodetect', 'loading %r found a backend' % op['path'])
                return None
            if not exists:
                if not isinstance(exc, FileNotFoundError) and not (exc is not None and fired):
                    self.viol(['C11'], 'load-missing', 'loading missing %s: %r' % (rel, exc))
                return None
            if e is None or not e['alts']:
                if exc is None:
                    self.viol(['C05', 'C08'], 'load-junk', 'something that was never saved was loaded from %s' % rel)
                return None
            if own != e['backend']:
                if exc is None:
                    self.viol(['C05'], 'load-wrong-backend', 'a %s file was loaded with backend %s' % (e['backend'], own))
                return None
            match = req is None or not op.get('cut') and all(S.norm(S.clean(r)) == S.norm(S.clean(e['spec'])) for r in reqs)
            verdicts = {S.verdict(e['spec'], a)[0] for a in e['alts']}
            if damaged:
                if exc is None and not op.get('force'):
                    self.damaged_ok(st, e)
                return None
            if exc is not None:
                if fired:
                    self.count('load-refused-under-fault')
                    return None
                from dsch import exceptions
                if not match:
                    if not isinstance(exc, exceptions.InvalidSchemaError):
                        self.viol(['C06'], 'req-error', 'loading with another required schema raised %r' % exc)
                    return None
                if e['absent']:
                    return None
                if op.get('force') or verdicts == {'valid'}:
                    p = set(ctx)
                    if req is not None and isinstance(exc, exceptions.InvalidSchemaError):
                        p = {'C06'}
                    self.viol(p, 'load-refused', 'loading %s raised %r' % (rel, exc))
                elif verdicts == {'invalid'}:
                    self.check_location(e['spec'], e['alts'][0], exc, ['C04', 'C05'])
                return None
            if not match:
                self.viol(['C06'], 'req-ignored', 'loading %s with another required schema (or hash) succeeded' % rel)
                return None
            if verdicts == {'invalid'} and not op.get('force'):
                self.viol(['C05'], 'load-invalid', 'invalid data was loaded without force: %s' % S.violations(e['spec'], e['alts'][0])[:2])
            s = self.new_slot(op['slot'], 'st', rel, own, e['spec'], st)
            self.adopt_loaded(op, s, e, ctx, bool(fired))
            self.check_schema(st, e['spec'], ctx)
        finally:
            st = None
            if exc is not None:
                gc.collect()
            self.check_disk(op, ())
            self.check_slots(op)

    def ctx_props(self, rel):
        """Properties concerned by what happened to this path before."""
        m = set()
        e = self.durable.get(rel)
        if e:
            m |= set(e.get('ctx', ()))
        return m

    def adopt_loaded(self, op, s, e, props, faulted=False):
        """Compare a freshly opened slot to what its path must contain."""
        name = [k for k, v in self.slots.items() if v is s][0]
        obs = self.observe(s.root(), s.spec, props)
        if not any(not S.diff(a, obs) for a in e['alts']):
            d = min((S.diff(a, obs) for a in e['alts']), key=len)
            self.viol(set(props) | self.diff_props(s.spec, d), 'load-differs', 'loaded data differs from what was saved: %s' % self.show_diff(d))
        s.model = obs
        s.dirty = False
        s.marks = {'load'}
        self.data_tree(s.root(), obs)
        self.node_tree(s.root(), s.spec, obs)
        if not faulted and len(e['alts']) > 1 and not self.in_branch:
            self.set_entry(s.path, dict(e, alts=[obs], absent=False))

    def check_location(self, spec, tree, exc, props):
        """A reported location must name a node that violates the schema."""
        from dsch import exceptions
        if not isinstance(exc, exceptions.SubnodeValidationError):
            return
        v = S.violations(spec, tree)
        if any(r == 'open' for p, r in v):
            return
        try:
            text = exc.node_path()
            where = S.name_path(text)
        except Exception as e:
            self.viol(props, 'location', 'the location of a validation error could not be read: %r' % e)
            return
        if not any(p == where for p, r in v):
            self.viol(props, 'location', 'validation blames %r, but only %s violate the schema' % (text, [p for p, r in v][:3]))
        self.count('location-checked')

    def op_copy(self, op):
        import dsch
        if op['slot'] in self.slots and self.slots[op['slot']].model is not None:
            raise Skip()
        src = self.slot(op['src'])
        if src.kind != 'st':
            raise Skip()
        rel = self.path_of(op)
        bk = backend_of(op['path'], op.get('backend'))
        if bk is None:
            raise Skip()
        if not S.storable(src.spec, src.model, 'mat'):
            raise Skip()
        exists = rel is not None and os.path.lexists(os.path.join(self.root, rel))
        p = self.spell(op, op['path'])
        before = src.model
        if op.get('via') == 'create_from':
            fn = lambda: dsch.create_from(p, src.obj, backend=op.get('backend'))
        else:
            fn = lambda: src.obj.save_as(p, backend=op.get('backend'))
        if op.get('br') and not self.in_branch:
            self.branches(op, op['br'])
        st, exc = self.io(fn, op.get('fault'))
        if exc is not None and self.last_fired:
            self.check_disk(op, ())
            self.check_slots(op, outside=('C12', 'C10'))
            self.last_fired = True
            return
        self.mark(rel, 'copy')
        self.mark(src.path, 'copysrc')
        src.marks.add('copysrc')
        if exists:
            if not isinstance(exc, FileExistsError):
                self.viol(['C11'], 'copy-existing', 'copying to existing %s: %r' % (rel, exc))
            self.check_disk(op, ())
            self.check_slots(op, outside=('C12', 'C10'))
            return
        verdict = S.verdict(src.spec, before)[0]
        if exc is not None:
            if self.shape_free(src.spec, before):
                raise Skip()
            self.viol(['C10'], 'copy-failed', 'copying %s to %s raised %r' % (src.backend, bk, exc))
            raise Skip()
        s = self.new_slot(op['slot'], 'st', rel, bk, src.spec, st)
        s.model = before
        s.dirty = True
        s.marks = {'copy'}
        self.check_disk(op, {rel})
        self.check_slots(op, {op['slot']: before}, ('C10',), outside=('C10', 'C12'))
        self.check_schema(st, src.spec, ('C10',))
        self.count('copy-%s-%s' % (src.backend, bk))

    def shape_free(self, spec, tree):
        return any(S.item_error(s, c) for p, s, c in S.leaves(spec, tree) if c is not None)

    # -- saving ---------------------------------------------------------------------
    def op_save(self, op):
        s = self.slot(op['slot'])
        if s.kind != 'st' or s.path is None:
            raise Skip()
        if op.get('force') and not S.storable(s.spec, s.model, s.backend) and not op.get('anyway'):
            raise Skip()
        if S.verdict(s.spec, s.model)[0] == 'open' and not S.storable(s.spec, s.model, s.backend):
            raise Skip()
        br = op.get('br')
        if br and not self.in_branch and self.same_kind(s):
            self.branches(op, br)
        self.save(op, s, op.get('fault'))

    def same_kind(self, s):
        """What the path holds has the same format and schema, so that an interrupted
        save can be judged against one entry."""
        old = self.entry(s.path)
        return not old or old['backend'] == s.backend and S.text(old['spec']) == S.text(s.spec)

    def save(self, op, s, fault=None, call=None, props=()):
        """Save and judge the outcome. Returns True if acknowledged."""
        force = bool(op.get('force'))
        verdict, viols = S.verdict(s.spec, s.model)
        old = self.entry(s.path)
        will = force or verdict != 'invalid'
        same = self.same_kind(s)
        if not same:
            fault = None
        if will:
            self.set_entry(s.path, self.inflight(s))
        before = self.disk.get(s.path, GONE)
        call = call or (lambda: s.obj.save(force=True) if force else s.obj.save())
        _, exc = self.io(call, fault)
        fired = self.last_io['fired']
        crashy = [f for f in fired if f[3] == W.F_SIGNAL]
        raised = [f for f in fired if f[3] == W.F_RAISE]
        self.last_ok = exc is None
        props = set(props)
        retry = {'C03'} if 'failed' in s.marks else set()
        if exc is None:
            if not will:
                self.viol({'C04'} | props, 'invalid-saved', 'data violating the schema was saved without force: %s' % viols[:2])
            s.dirty = False
            self.mark(s.path, 'save')
            if not os.path.isfile(os.path.join(self.root, s.path)):
                self.viol({'C11', 'C16', 'C01'} | props, 'not-at-path', 'after the save there is no file at %s' % s.path)
            ent = self.acked(s)
            if fired:
                ent['ctx'] = ['C03']
            self.set_entry(s.path, ent)
            self.check_disk(op, {s.path}, stray=False)
            pr = {'C01', 'C16'} | retry | props
            if fired:
                pr.add('C03')
            if force and verdict == 'invalid':
                pr |= {'C04', 'C05'}
            if s.marks & {'copy'}:
                pr.add('C10')
            if s.marks & {'aftererr'}:
                pr.add('C13')
            self.image('ack', ent, s.path, pr, ack=True)
            self.count('ack-' + s.backend)
            if force and verdict == 'invalid':
                self.count('forced-invalid-saved')
            if not self.in_branch and self.life.get('power') and same:
                self.power_images(op, s, old, ent)
            s.marks -= {'failed', 'aftererr'}
            res = True
        else:
            res = False
            if fired:
                self.mark(s.path, 'savefail')
                s.marks.add('failed')
                pr = {'C03', 'C02'} if crashy else {'C23'} if raised else {'C03'}
                ent = self.inflight(s) if will else old
                if ent:
                    self.set_entry(s.path, ent) if will else None
                stray = any(f[3] == W.F_STICKY or f[2] == W.R_UNLINK or f[3] == W.F_SIGNAL for f in fired)
                self.check_disk(op, {s.path}, props=('C11', 'C03') if not stray else ('C11',), stray=stray)
                self.image('failed-save', ent, s.path, pr | props, recover=bool(crashy))
                self.count('save-failed-by-fault')
            else:
                if will and verdict == 'valid' or force:
                    self.viol({'C04'} | retry | props | ({'C13'} if 'aftererr' in s.marks else set()) | ({'C10'} if 'copy' in s.marks else set()),
                              'save-refused', 'saving valid data (force=%r) raised %r' % (force, exc))
                elif verdict == 'invalid':
                    self.check_location(s.spec, s.model, exc, ['C04'])
                    self.count('save-refused-invalid')
                self.mark(s.path, 'refused')
                if will:
                    if old:
                        self.set_entry(s.path, old)
                    else:
                        self.durable.pop(s.path, None)
                        self.emit('dur', path=s.path, entry=None)
                changed = self.check_disk(op, {s.path} if s.backend == 'hdf5' else (), props=('C11', 'C04', 'C08'))
                self.image('refused-save', old, s.path, {'C04', 'C08'} | props)
        self.check_slots(op, None, (), outside=('C23',) if raised else ('C12', 'C03') if fired else ('C12', 'C04'))
        self.last_fired = bool(fired)
        return res

    def op_close(self, op):
        s = self.slot(op['slot'])
        if s.kind != 'st':
            raise Skip()
        self.drop(op['slot'])
        self.check_disk(op, ())
        if s.path:
            pr = {'C08', 'C01'} if s.dirty else {'C01', 'C07'} if not s.marks & {'edit'} else {'C01'}
            self.image('closed', self.entry(s.path), s.path, pr)
        self.check_slots(op)

    def drop(self, name):
        s = self.slots.pop(name)
        s.obj = None
        for t in list(self.slots.values()):
            if t.kind == 'ps' and t.origin and t.origin[0] == name:
                t.obj = None
                t.model = None
        gc.collect()

    # -- branches: alternative futures of one operation ---------------------------------
    def fork(self, fn, label):
        """Run fn in a copy of this process; returns its exit status (None: killed)."""
        self.shim.lib.sim_pause(1)
        base = self.listing()
        pos = self.shim.used()
        pid = os.fork()
        if pid == 0:
            self.shim.lib.sim_pause(0)
            self.in_branch = label
            self.stats = {}
            try:
                fn()
                code = 0
            except StopRun:
                code = 7
            except Skip:
                code = 0
            except BaseException:
                self.emit('harness', msg=traceback.format_exc())
                code = 9
            self.emit('bstat', stats=self.stats)
            os._exit(code)
        code = self.wait(pid, 40)
        return base, pos, code

    def wait(self, pid, limit):
        t0 = time.monotonic()
        try:
            fd = os.pidfd_open(pid)
        except OSError:
            fd = None
        while True:
            if fd is not None:
                select.select([fd], [], [], limit)
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                if fd is not None:
                    os.close(fd)
                return os.waitstatus_to_exitcode(st)
            if time.monotonic() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                if fd is not None:
                    os.close(fd)
                return 'timeout'
            if fd is None:
                time.sleep(0.0001)

    def unfork(self, base, pos):
        restore(self.root, base)
        self.shim.lib.sim_log_trunc(pos)
        self.shim.lib.sim_pause(0)

    def probe(self, fn):
        """I/O operations of fn, found by running it in a copy of this process."""
        r, w = os.pipe()

        def go():
            self.quiet = True
            fn()
            io = self.last_io
            os.write(w, pickle.dumps({'w': io['w'], 'r': io['r'], 'lines': pick_lines(io['lines'])}))
        out = self.out
        devnull = os.open('/dev/null', os.O_WRONLY)
        self.out = devnull
        base, pos, code = self.fork(go, 'probe')
        self.out = out
        os.close(devnull)
        os.close(w)
        data = os.read(r, 65536)
        os.close(r)
        self.unfork(base, pos)
        return pickle.loads(data) if data else {'w': 0, 'r': 0, 'lines': [[], 0]}

    def branches(self, op, br):
        """Fork one alternative per fault variant, judge each, then go on without faults."""
        todo = br.get('list')
        if todo is None:
            plain = {k: v for k, v in op.items() if k not in ('br', 'fault')}
            self.count_lines = br['mode'] == 'intr'
            n = self.probe(lambda: self.run_plain(plain))
            self.count_lines = False
            todo = self.variants(op, br, n)
        for v in todo:
            self.one_branch(op, v)

    def run_plain(self, op):
        getattr(self, 'op_' + op['op'])(op)

    def variants(self, op, br, n):
        """Deterministic choice of fault variants for an operation with n I/O operations."""
        mode, cap, seed = br['mode'], br.get('max', 1000), br.get('seed', 0)
        out = []
        errs = (errno.EIO, errno.ENOSPC, errno.EINTR, errno.EACCES, errno.EDQUOT)
        if mode == 'crash':
            for k in range(n['w']):
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_CRASH_BEFORE}]})
                for part in (1, 37, 511, 4096):
                    out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_CRASH_TORN, 'arg': part}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_CRASH_AFTER}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_SIGNAL}]})
            for k in range(n['r']):
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_CRASH_BEFORE}]})
        elif mode == 'err':
            for k in range(n['w']):
                e = errs[(k + seed) % len(errs)]
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_ERR, 'arg': errno.EIO}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_ERR, 'arg': e}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_STICKY, 'arg': errno.ENOSPC}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_STICKY, 'arg': errno.EIO, 'until': 2}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_PARTIAL, 'arg': errno.ENOSPC}]})
                out.append({'fault': [{'cls': 0, 'idx': k, 'kind': W.F_SHORT, 'arg': 1 + seed % 700}]})
            for k in range(n['r']):
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_ERR, 'arg': errno.EIO}]})
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_STICKY, 'arg': errno.EIO}]})
        elif mode == 'read':
            for k in range(n['r']):
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_ERR, 'arg': errno.EIO}]})
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_ERR, 'arg': errno.EINTR}]})
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_STICKY, 'arg': errno.EIO}]})
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_SHORT, 'arg': 1 + seed % 300}]})
                out.append({'fault': [{'cls': 1, 'idx': k, 'kind': W.F_CRASH_BEFORE}]})
        elif mode == 'intr':
            # half of the interrupts hit the code of the operation itself, half anything
            hot, n = n['lines']
            rnd = random.Random(seed)
            for i in range(min(cap, n)):
                k = rnd.choice(hot) if hot and i % 2 else rnd.randrange(n)
                out.append({'fault': [{'cls': 2, 'idx': k, 'kind': W.F_RAISE, 'exc': rnd.choice(sorted(RAISES))}]})
        elif mode == 'damage':
            out = [{'damage': d} for d in br['damage']]
        if len(out) > cap:
            x = seed * 2654435761 + 12345
            keyed = []
            for i, v in enumerate(out):
                x = (x * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
                keyed.append((x >> 20, i))
            out = [out[i] for _, i in sorted(keyed)[:cap]]
        return out

    def one_branch(self, op, v):
        plain = {k: x for k, x in op.items() if k not in ('br', 'fault')}
        kind = v['fault'][0]['kind'] if 'fault' in v else None
        if 'damage' in v:
            return self.damage_branch(plain, v)
        entry0 = {p: e for p, e in self.durable.items()}
        s = self.slots.get(op.get('slot'))
        crash = kind in (W.F_CRASH_BEFORE, W.F_CRASH_TORN, W.F_CRASH_AFTER)
        is_save = op['op'] in ('save', 'ps_close')

        def go():
            if kind == W.F_RAISE:
                self.branch_intr(op, dict(plain, fault=v['fault']), plain)
                return
            if is_save:
                self.branch_save(op, dict(plain, fault=v['fault']), v)
            else:
                self.branch_load(op, plain, v)
            self.check_fds(op['op'] + ' with a fault')
        infl = None
        verdict = None
        if is_save and s is not None and s.path is not None:
            verdict = S.verdict(s.spec, s.model)[0]
            old = self.entry(s.path)
            infl = self.inflight(s) if op.get('force') or verdict != 'invalid' else old
        self.count('branches')
        self.beat()
        base, pos, code = self.fork(go, v)
        if code == 137:
            recs = self.shim.records(pos)
            died = [x for x in recs if x[0] == W.R_FAULT]
            for x in died:
                self.count('fault-%s-%s' % (FNAME(x[3]), W.RNAME.get(x[2], '?')))
            self.trace.update(repr([x[:7] for x in recs if x[0] != W.R_CLOCK]).encode())
            self.shim.lib.sim_pause(0)
            br = self.in_branch
            self.in_branch = v
            if is_save:
                self.image('crash-in-save', infl, s.path, {'C02'}, recover=True)
                self.check_dead_disk(base, {s.path})
            else:
                rel = self.path_of(op) if 'path' in op else None
                if rel is not None:
                    self.image('crash-in-load', self.entry(rel), rel, {'C07', 'C01'})
                    self.check_dead_disk(base, ())
            self.in_branch = br
        elif code == 7:
            self.unfork(base, pos)
            raise StopRun()
        elif code == 9 or (code != 0 and code != 'timeout' and code > 0):
            self.emit('harness', msg='branch exit %r in %r' % (code, v))
        elif code != 0:
            br, self.in_branch = self.in_branch, v
            try:
                self.viol(['C03', 'C05'], 'died', 'the process died (%r) in %s under %s' % (code, op['op'], v))
            finally:
                self.in_branch = br
        self.unfork(base, pos)
        self.durable.clear()
        for p, e in entry0.items():
            self.durable[p] = e
        self.emit('durall', durable=self.durable)

    def check_dead_disk(self, base, allowed):
        """After a crash: no other file changed (temporary leftovers are tolerated)."""
        self.shim.lib.sim_pause(1)
        now = self.listing()
        self.shim.lib.sim_pause(0)
        for p in sorted(base):
            if p not in allowed and now.get(p, GONE) != base[p]:
                self.viol(['C11'], 'other-file', 'a crash in the operation changed or removed %s' % p)

    def branch_save(self, op, faulty, v):
        s = self.slot(op['slot'])
        kind = v['fault'][0]['kind']
        ok = self.do_save(faulty, s, v['fault'])
        fired = bool(self.last_io['fired'])
        if not fired:
            self.count('fault-not-reached')
        if kind == W.F_SIGNAL:
            return
        if ok or not fired:
            return
        # once the fault is gone, saving again succeeds and is durable
        s = self.slot(op['slot'])
        if s.model is None:
            return
        for extra in v.get('then', ()):
            self.do(extra)
        plain = {k: x for k, x in op.items() if k not in ('br', 'fault')}
        self.do_save(plain, s, None)
        self.count('retries')

    def do_save(self, op, s, fault):
        if op['op'] == 'ps_close':
            return self.close_ps(op, s, fault)
        return self.save(op, s, fault)

    def branch_intr(self, op, faulty, plain):
        """An interrupt hits the operation; then it is repeated."""
        kind = op['op']
        if kind == 'ps_close':
            return self.intr_close(faulty, plain)
        if kind == 'ps_open':
            return self.intr_open(faulty, plain)
        s = self.slots.get(op['slot'])
        self.run_plain(faulty)
        if not self.last_fired:
            self.count('fault-not-reached')
            return
        if kind in ('create', 'load', 'copy'):
            if self.slots.get(op['slot']) is not s:
                return
            gc.collect()
        elif kind == 'save' and self.last_ok:
            return
        self.run_plain(plain)
        self.count('retries')

    def intr_close(self, faulty, plain):
        s = self.slot(plain['slot'])
        real = s.obj
        ent = self.acked(s)
        ok = self.close_ps(faulty, s, faulty['fault'])
        if ok or not self.last_fired:
            return
        if real.storage is None:
            # It was interrupted after saving.
            s.model = None
            self.set_entry(s.path, ent)
            _, exc = self.io(lambda: real.close())
            if exc is not None:
                self.viol(['C14'], 'ps-close-again', 'closing again after an interrupted close raised %r' % exc)
            self.ps_closed(plain, s, 'closing again after an interrupted close')
            self.check_disk(plain, (), props=('C11', 'C14'))
            self.image('ack', ent, s.path, {'C14', 'C01', 'C23'}, ack=True)
        else:
            if real.data is None:
                self.viol(['C14'], 'ps-lost', 'an interrupted close has lost the data, but not the storage')
            self.close_ps(plain, s)
        self.count('retries')

    def intr_open(self, faulty, plain):
        s = self.slots[plain['slot']]
        new = not os.path.exists(os.path.join(self.root, s.path)) if s.path else False
        self.open_ps(faulty, faulty['fault'])
        if not self.last_fired or s.model is not None:
            return
        if s.obj.data is not None:
            e = s.path and self.entry(s.path)
            if new or not e or len(e['alts']) != 1 or e['absent'] or S.verdict(e['spec'], e['alts'][0])[0] != 'valid':
                return
            # Half open: closing makes it usable again.
            _, exc = self.io(lambda: s.obj.close())
            if exc is not None:
                self.viol(['C14'], 'ps-close-half', 'closing after an interrupted open raised %r' % exc)
            self.shim.lib.sim_pause(1)
            self.disk = self.listing()
            self.shim.lib.sim_pause(0)
        self.open_ps(plain, None)
        self.count('retries')

    def branch_load(self, op, plain, v):
        if op['op'] == 'ps_open':
            self.open_ps(plain, v['fault'])
            s = self.slots[op['slot']]
            if s.model is None:
                self.open_ps(plain, None)
                self.count('retries')
            return
        self.load(plain, v['fault'])
        if plain['slot'] not in self.slots or self.slots[plain['slot']].model is None:
            self.load(plain, None)
            self.count('retries')

    # damaged files
    def damage_branch(self, op, v):
        rel = self.path_of(op)
        full = os.path.join(self.root, rel)
        if not os.path.isfile(full):
            return
        self.shim.lib.sim_pause(1)
        with open(full, 'rb') as f:
            data = bytearray(f.read())
        self.shim.lib.sim_pause(0)
        if not data:
            return
        d = v['damage']
        n = len(data)
        if d[0] == 'trunc':
            data = data[:int(n * d[1])]
        elif d[0] == 'flip':
            for fr, bit in d[1]:
                data[min(n - 1, int(n * fr))] ^= 1 << bit
        elif d[0] == 'byte':
            for fr, b in d[1]:
                data[min(n - 1, int(n * fr))] = b
        elif d[0] == 'zero':
            a = int(n * d[1])
            data[a:a + d[2]] = bytes(len(data[a:a + d[2]]))
        elif d[0] == 'text':
            # a stored digit or letter changed: plausible corruption of the content itself
            pos = [i for i, b in enumerate(data) if 48 <= b < 58]
            if pos:
                i = pos[int(len(pos) * d[1])]
                data[i] = 48 + (data[i] - 48 + d[2]) % 10
        elif d[0] == 'tail':
            data += bytes.fromhex(d[1])
        data = bytes(data)

        def go():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CPU, (3, 3))
            self.shim.lib.sim_pause(1)
            with open(full, 'r+b') as f:
                f.truncate(0)
                f.write(data)
            self.shim.lib.sim_pause(0)
            self.disk[rel] = data
            self.load(op, None, damaged=True)
            self.check_fds('loading a damaged file')
        self.count('branches')
        self.count('damage-' + d[0])
        base, pos, code = self.fork(go, v)
        if code == 7:
            self.unfork(base, pos)
            raise StopRun()
        if code == 9:
            pass
        if code != 0:
            self.count('damage-load-died')
        self.unfork(base, pos)

    def damaged_ok(self, st, e):
        """Unforced data from a damaged file must satisfy the schema it claims."""
        try:
            spec = S.norm(st.schema_node.to_dict())
            obs = self.observe(st.data, spec, ('C05',))
        except StopRun:
            raise
        except Exception as exc:
            self.viol(['C05'], 'damaged-unreadable', 'a damaged file was loaded, but reading it raises %r' % exc)
            return
        self.count('damage-loaded')
        try:
            v, why = S.verdict(spec, obs)
        except Exception:
            return
        if v == 'invalid':
            self.viol(['C05'], 'damaged-invalid', 'a damaged file was loaded without force although its data violates the schema: %s' % (why[:2],))

    # power loss
    def power_images(self, op, s, old, ent):
        """Disk states possible after a power loss during or right after this save."""
        import power
        recs = [r for r in self.shim.records() if r[0] in W.RNAME]
        io = self.last_io
        first = len([r for r in self.shim.records(None, io['pos']) if r[0] in W.RNAME])
        seed = op.get('pseed', 0)
        for label, disk, after in power.images(self.start_disk, recs, first, seed, op.get('pmax', 6)):
            self.shim.lib.sim_pause(1)
            infl = dict(ent, alts=([old['alts'][0]] if old and len(old['alts']) == 1 else list(old['alts']) if old else []) + [s.model],
                        absent=not old or old['absent'])
            br, self.in_branch = self.in_branch, {'power': label}
            self.image('power-loss', ent if after else infl, s.path, {'C02'}, disk=disk, recover=True)
            self.in_branch = br
            self.count('power-image')
            self.count('power-' + label.split(':')[0])

    # -- editing -------------------------------------------------------------------------
    def node(self, s, path):
        n = s.root()
        for p in path:
            n = getattr(n, p) if isinstance(p, str) else n[p]
        return n

    def target(self, op):
        s = self.slot(op['slot'])
        path = tuple(op.get('at', ()))
        if not S.exists(s.model, path):
            raise Skip()
        return s, path, S.at(s.spec, path)

    def edited(self, op, s, path, exc, lvl, pred, props=()):
        """Judge an update: lvl 'valid' must have worked, others may be refused."""
        props = set(props)
        name = op['slot']
        s.dirty = True
        s.marks.add('edit')
        whole = s.model
        self.check_disk(op, ())
        if exc is None and lvl in ('valid', 'storable'):
            want = S.put(whole, path, pred)
            if any(True for _ in self._stamps(want)):
                want = self.stamps(want, name, s.spec)
            self.mirror(op, s, path)
            self.check_slots(op, {name: want}, {'C12'} | props, skip=self.twins(s, name))
        elif exc is not None and lvl == 'valid':
            self.viol({'C12'} | props | ({'C13'} if 'aftererr' in s.marks else set()), 'valid-refused', '%s with a valid value raised %r (backend %s)' % (self.opname(op), exc, s.backend))
            self.adopt(op, s, path, props)
        elif exc is not None:
            s.marks.add('aftererr')
            self.count('refused-' + op['op'])
            if s.spec and S.at(s.spec, path)['node_type'] in S.ITEMS or op['op'] == 'append':
                self.check_slots(op, {name: whole}, {'C13'} | props, skip=self.twins(s, name), outside=('C13', 'C12'))
            else:
                self.adopt(op, s, path, props)
        else:
            self.adopt(op, s, path, props)
        self.sync_twins(s, name)

    def twins(self, s, name):
        """Slots showing (part of) the same data: a pseudo-storage on a node."""
        out = set()
        for k, t in self.slots.items():
            if k == name or t.model is None:
                continue
            if t.origin and t.origin[0] == name or s.origin and s.origin[0] == k:
                out.add(k)
            if t.origin and s.origin and t.origin[0] == s.origin[0]:
                out.add(k)
        return out

    def mirror(self, op, s, path):
        pass

    def sync_twins(self, s, name):
        """Propagate the change to slots sharing the node."""
        if s.origin and s.origin[0] in self.slots:
            base = self.slots[s.origin[0]]
            if base.model is not None and S.exists(base.model, s.origin[1]):
                base.model = S.put(base.model, s.origin[1], s.model)
                base.dirty = True
                base.marks.add('edit')
        src = s.origin[0] if s.origin else name
        base = self.slots.get(src)
        for k, t in self.slots.items():
            if k != name and t.origin and t.origin[0] == src and t.model is not None and base is not None and base.model is not None:
                if S.exists(base.model, t.origin[1]):
                    t.model = S.get(base.model, t.origin[1])
        if self.twins(s, name):
            self.check_slots({'op': 'twins'}, None, (), outside=('C12', 'C14'))

    def adopt(self, op, s, path, props):
        """Outcome inside path is open; everything else must be unchanged."""
        name = op['slot']
        obs = self.observe(s.root(), s.spec, props)
        if S.exists(obs, path):
            want = S.put(s.model, path, S.get(obs, path))
        else:
            want = s.model
        self.check_slots(op, {name: want}, {'C12'} | ({'C13'} if op['op'] == 'set' else set()) | set(props), skip=self.twins(s, name))

    def op_set(self, op):
        s, path, spec = self.target(op)
        if spec['node_type'] not in S.ITEMS:
            raise Skip()
        v = dec(op['v'])
        lvl, pred = S.level(spec, v)
        node = self.node(s, path)
        if op.get('via') == 'replace':
            fn = lambda: node.replace(v)
        else:
            fn = lambda: setattr(node, 'value', v)
        _, exc = self.io(fn, op.get('fault'))
        node = fn = None
        v = None
        self.edited(op, s, path, exc, lvl, ('I', pred))

    def op_clear(self, op):
        s, path, spec = self.target(op)
        node = self.node(s, path)
        _, exc = self.io(lambda: node.clear())
        node = None
        self.edited(op, s, path, exc, 'valid', S.cleared(S.get(s.model, path)))

    def plan_value(self, spec, v):
        """Level and predicted tree for List.append/replace and Compilation.replace values."""
        t = spec['node_type']
        if t in S.ITEMS:
            lvl, c = S.level(spec, v)
            return lvl, ('I', c)
        if t == 'List':
            if not isinstance(v, list):
                return 'free', ('L', [])
            lv, out = 'valid', []
            for x in v:
                if x is None:
                    out.append(S.fresh(spec['config']['subnode']))
                    continue
                l, tr = self.plan_into(spec['config']['subnode'], S.fresh(spec['config']['subnode']), x)
                out.append(tr)
                lv = self.worse(lv, l)
            return lv, ('L', out)
        return 'free', None

    def plan_into(self, spec, cur, v):
        """As plan_value for a node that currently is cur."""
        if spec['node_type'] != 'Compilation':
            return self.plan_value(spec, v)
        if not isinstance(v, dict):
            return 'free', cur
        lv, kids = 'valid', dict(cur[1])
        for k, x in v.items():
            if k not in kids:
                return 'free', cur
            l, kids[k] = self.plan_into(spec['config']['subnodes'][k], kids[k], x)
            lv = self.worse(lv, l)
        return lv, ('C', kids)

    def worse(self, a, b):
        o = ('valid', 'storable', 'free')
        return o[max(o.index(a), o.index(b))]

    def op_append(self, op):
        s, path, spec = self.target(op)
        if spec['node_type'] != 'List':
            raise Skip()
        node = self.node(s, path)
        cur = S.get(s.model, path)
        sub = spec['config']['subnode']
        if 'v' in op and op['v'] != ['none']:
            v = dec(op['v'])
            lvl, tr = self.plan_into(sub, S.fresh(sub), v)
            _, exc = self.io(lambda: node.append(v))
            v = None
        else:
            lvl, tr = 'valid', S.fresh(sub)
            _, exc = self.io(lambda: node.append())
        node = None
        self.edited(op, s, path, exc, lvl, ('L', cur[1] + [tr]))

    def op_trep(self, op):
        s, path, spec = self.target(op)
        if spec['node_type'] in S.ITEMS:
            raise Skip()
        v = dec(op['v'])
        node = self.node(s, path)
        lvl, tr = self.plan_into(spec, S.get(s.model, path), v)
        _, exc = self.io(lambda: node.replace(v))
        node = v = None
        self.edited(op, s, path, exc, lvl, tr)

    def key(self, k):
        out = []
        for x in k:
            if x == '...':
                out.append(Ellipsis)
            elif isinstance(x, list):
                out.append(slice(*x))
            else:
                out.append(x)
        return tuple(out) if len(out) != 1 else out[0]

    def op_setitem(self, op):
        s, path, spec = self.target(op)
        cur = S.get(s.model, path)[1] if spec['node_type'] == 'Array' else None
        if cur is None or cur[0] != 'a' or not isinstance(cur[3], bytes) or S.item_error(spec, cur) in ('type', 'dtype', 'ndim'):
            raise Skip()
        a = np.frombuffer(cur[3], dtype=cur[1]).reshape(cur[2]).copy()
        v = dec(op['v'])
        key = self.key(op['key'])
        try:
            a[key] = v
        except Exception:
            raise Skip()
        node = self.node(s, path)

        def fn():
            node[key] = v
        _, exc = self.io(fn)
        node = None
        self.edited(op, s, path, exc, 'valid', ('I', canon(a)))

    def op_resize(self, op):
        s, path, spec = self.target(op)
        cur = S.get(s.model, path)[1] if spec['node_type'] == 'Array' else None
        if cur is None or cur[0] != 'a' or not isinstance(cur[3], bytes) or S.item_error(spec, cur) in ('type', 'dtype', 'ndim'):
            raise Skip()
        a = np.frombuffer(cur[3], dtype=cur[1]).reshape(cur[2])
        size = tuple((op['size'] * 9)[:len(cur[2])])
        b = np.zeros(size, dtype=a.dtype)
        common = tuple(slice(min(x)) for x in zip(a.shape, b.shape))
        b[common] = a[common]
        b = canon(b)
        lvl = 'storable' if self.fixed_size(s, spec['config']) or S.item_error(spec, b) else 'valid'
        node = self.node(s, path)
        held = node.value if op.get('held') else None
        _, exc = self.io(lambda: node.resize(size))
        node = held = None
        self.count('resize-' + s.backend)
        self.edited(op, s, path, exc, lvl, ('I', b))

    def fixed_size(self, s, cfg):
        """HDF5 does not resize datasets of fixed shape, such as those of other programs."""
        if s.backend != 'hdf5':
            return False
        base = self.slots.get(s.origin[0], s) if s.origin else s
        e = self.durable.get(base.path) or {}
        return bool(cfg['max_shape']) and cfg['max_shape'] == cfg['min_shape'] or bool(e.get('foreign'))

    def op_lf(self, op):
        s, path, spec = self.target(op)
        src = self.slot(op['src'])
        sat = tuple(op.get('sat', ()))
        if not S.exists(src.model, sat):
            raise Skip()
        sspec = S.at(src.spec, sat)
        tree = S.get(src.model, sat)
        node, snode = self.node(s, path), self.node(src, sat)
        before = src.model
        _, exc = self.io(lambda: node.load_from(snode))
        node = snode = None
        if src is not s:
            s.marks.add('copy')
            src.marks.add('copysrc')
        if S.norm(S.clean(sspec)) != S.norm(S.clean(spec)):
            from dsch import exceptions
            if not isinstance(exc, exceptions.IncompatibleNodesError):
                self.viol(['C10'], 'incompatible', 'loading from an incompatible node: %r' % (exc,))
                self.adopt(op, s, path, ('C10',))
                return
            self.count('incompatible-refused')
            self.check_slots(op, None, (), outside=('C10', 'C13', 'C12'))
            return
        lvl = 'free' if self.shape_free(sspec, tree) else 'valid'
        self.edited(op, s, path, exc, lvl, tree, props=('C10',))
        self.count('lf-%s-%s' % (src.backend, s.backend))

    def op_misassign(self, op):
        """Assigning to a sub-node instead of its value is refused."""
        s, path, spec = self.target(op)
        if not path:
            raise Skip()
        par = self.node(s, path[:-1])
        from dsch import exceptions
        v = dec(op['v'])

        def fn():
            if isinstance(path[-1], str):
                setattr(par, path[-1], v)
            else:
                par[path[-1]] = v
        _, exc = self.io(fn)
        par = None
        if not isinstance(exc, exceptions.ResetSubnodeError):
            self.viol(['C13', 'C12'], 'misassign', 'assigning to a sub-node: %r' % (exc,))
        self.check_disk(op, ())
        self.check_slots(op, None, (), outside=('C13', 'C12'))

    # -- read-only operations ----------------------------------------------------------
    def op_validate(self, op):
        s, path, spec = self.target(op)
        tree = S.get(s.model, path)
        if op.get('br') and not self.in_branch:
            self.branches(op, op['br'])
        if path:
            node = self.node(s, path)
            _, exc = self.io(lambda: node.validate(), op.get('fault'))
            node = None
        else:
            _, exc = self.io(lambda: (s.obj if s.kind == 'st' else s.root()).validate(), op.get('fault'))
        if exc is not None and self.last_fired:
            pass
        elif not path or spec['node_type'] != 'Array' or not spec['config']['depends_on']:
            v, viols = S.verdict(spec, tree)
            if v == 'valid' and exc is not None:
                self.viol(['C04'], 'valid-fails', 'validating valid data raised %r' % exc)
            elif v == 'invalid':
                if exc is None:
                    self.viol(['C04'], 'invalid-passes', 'validation accepts data violating the schema: %s' % viols[:2])
                else:
                    self.check_location(spec, tree, exc, ['C04'])
        self.check_disk(op, ())
        self.check_slots(op, None, (), outside=('C07', 'C12'))

    def op_inspect(self, op):
        s, path, spec = self.target(op)
        node = self.node(s, path)

        def fn():
            repr(node)
            str(node)
            node.data_tree()
            node.data_tree(include_empty=True)
            node.complete, node.empty, dir(node), node.node_tree()
            if spec['node_type'] == 'Array' and not node.empty and node.value.ndim == 1:
                node[:1]
                node[()]
            if s.kind == 'st':
                s.obj.schema_hash(), s.obj.complete
            node.schema_node.to_json()
        c = S.get(s.model, path)
        if op.get('br') and not self.in_branch:
            self.branches(op, op['br'])
        _, exc = self.io(fn, op.get('fault'))
        node = None
        if exc is not None and not self.last_fired and not self.shape_free(spec, c):
            self.viol(['C17'], 'inspect', 'inspecting a node raised %r' % exc)
        self.check_disk(op, ())
        self.check_slots(op, None, (), outside=('C07', 'C12'))

    # -- the world around ----------------------------------------------------------------
    def op_clock(self, op):
        lib = self.shim.lib
        if op.get('add'):
            lib.sim_clock_add(op['add'])
            self.count('clock-moved')
        lib.sim_clock_nojumps()
        for idx, d in op.get('jumps', ()):
            lib.sim_clock_jump(idx, d)
            self.count('clock-jump-planned')

    def op_tz(self, op):
        os.environ['TZ'] = op['tz']
        time.tzset()
        self.count('tz-changed')

    def op_fs(self, op):
        """The application or another program creates a file or directory."""
        if 'link' in op:
            full = os.path.join(self.root, op['path'])
            if self.life.get('power') or os.path.lexists(full) or not os.path.exists(os.path.join(self.root, op['link'])):
                raise Skip()
            self.shim.lib.sim_pause(1)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.symlink(os.path.relpath(op['link'], os.path.dirname(op['path'])), full)
            self.disk = self.listing()
            self.shim.lib.sim_pause(0)
            self.count('links')
            return
        if self.life.get('power'):
            if op.get('data') is not None or os.path.lexists(os.path.join(self.root, op['path'])):
                raise Skip()
            self.start_disk[op['path']] = '<dir>'       # taken as long on disk
        self.shim.lib.sim_pause(1)
        p = os.path.join(self.root, op['path'])
        if not os.path.lexists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if op.get('data') is None:
                os.mkdir(p)
            else:
                with open(p, 'xb') as f:
                    f.write(bytes.fromhex(op['data']))
        self.disk = self.listing()
        self.shim.lib.sim_pause(0)

    def op_plant(self, op):
        """A file in the known layout, written without dsch."""
        if self.life.get('power'):
            raise Skip()
        rel = self.path_of(op)
        spec = self.sc['schemas'][op['schema']]
        bk = backend_of(op['path'], op.get('backend'))
        full = os.path.join(self.root, rel)
        if os.path.lexists(full) or bk not in ('npz', 'hdf5', 'mat'):
            raise Skip()
        tree = self.plant_tree(spec, op['vals'])
        if tree is None or S.verdict(spec, tree)[0] != 'valid':
            raise Skip()
        self.shim.lib.sim_pause(1)
        layout.write(full, bk, spec, tree, op.get('style', 0))
        self.disk = self.listing()
        self.shim.lib.sim_pause(0)
        ent = {'spec': spec, 'alts': [tree], 'absent': False, 'backend': bk, 'ctx': ['C16'], 'foreign': True}
        self.set_entry(rel, ent)
        self.image('planted', ent, rel, {'C16', 'C01'})
        self.count('planted-' + bk)

    def plant_tree(self, spec, v):
        if v[0] == 'C':
            kids = {k: self.plant_tree(s, v[1][k]) if k in v[1] else S.fresh(s, False) for k, s in spec['config']['subnodes'].items()}
            return ('C', kids)
        if v[0] == 'L':
            return ('L', [self.plant_tree(spec['config']['subnode'], x) for x in v[1]])
        if v[1] is None:
            return ('I', None)
        lvl, c = S.level(spec, dec(v[1]))
        return ('I', c)

    # -- pseudo-storages -------------------------------------------------------------------
    def op_ps_new(self, op):
        import dsch
        if op['slot'] in self.slots:
            raise Skip()
        spec = self.sc['schemas'][op['schema']]
        alts = [self.sc['schemas'][a[0]] for a in op.get('alts', ())]
        altargs = [S.hash_(sp) if a[1] else self.build(sp) for sp, a in zip(alts, op.get('alts', ()))]
        if 'src' in op:
            src = self.slot(op['src'])
            sat = tuple(op.get('sat', ()))
            if src.kind != 'st' or not S.exists(src.model, sat):
                raise Skip()
            arg = self.node(src, sat)
            rel, bk, origin = None, src.backend, (op['src'], sat)
        else:
            rel = self.path_of(op)
            bk = backend_of(op['path'], None)
            if bk is None:
                raise Skip()
            arg = self.spell(op, op['path'])
            origin = None
        s = Slot('ps', rel, bk, spec)
        s.ps = {'spec': spec, 'alts': alts, 'origin': origin}
        s.origin = None
        self.slots[op['slot']] = s
        defer = bool(op.get('defer'))
        kw = {'defer_open': True} if defer else {}
        if altargs:
            kw['schema_alternatives'] = altargs if op.get('seq') != 'tuple' else tuple(altargs)

        def make():
            s.obj = dsch.PseudoStorage(arg, self.build(spec), **kw)
        if defer:
            _, exc = self.io(make)
            if exc is not None:
                self.viol(['C14'], 'ps-new', 'constructing a deferred pseudo-storage raised %r' % exc)
                del self.slots[op['slot']]
                raise Skip()
            self.ps_closed(op, s, 'construction with defer_open')
            self.check_disk(op, (), props=('C11', 'C14'))
            self.check_slots(op, None, (), outside=('C14', 'C12'))
        else:
            self.open_ps(op, op.get('fault'), make)
            if s.obj is None:
                del self.slots[op['slot']]

    def ps_closed(self, op, s, when):
        o = s.obj
        if o is not None and (o.data is not None or o.storage is not None or o.schema_node is not None):
            self.viol(['C14'], 'ps-not-closed', 'after %s: data=%s storage=%s schema_node=%s' % (
                when, 'None' if o.data is None else 'held', o.storage, 'None' if o.schema_node is None else 'held'))

    def op_ps_open(self, op):
        s = self.slot(op['slot'], False)
        if s.kind != 'ps' or s.obj is None:
            raise Skip()
        if op.get('br') and not self.in_branch and s.model is None:
            self.branches(op, op['br'])
        self.open_ps(op, op.get('fault'))

    def open_ps(self, op, fault=None, make=None):
        from dsch import exceptions
        s = self.slots[op['slot']]
        was_open = s.model is not None
        call = make or (lambda: s.obj.open())
        if s.ps['origin']:
            return self.open_ps_node(op, s, call, was_open)
        rel = s.path
        exists = rel is not None and os.path.exists(os.path.join(self.root, rel))
        e = self.entry(rel) if rel else None
        if e and e['backend'] != s.backend:
            raise Skip()
        self.mark(rel, 'ps')
        _, exc = self.io(call, fault)
        fired = self.last_io['fired']
        if was_open:
            if not isinstance(exc, RuntimeError):
                self.viol(['C14'], 'ps-reopen', 'opening an open pseudo-storage: %r' % (exc,))
            self.check_disk(op, (), props=('C11', 'C14'))
            self.check_slots(op, None, (), outside=('C14', 'C12'))
            return
        accepted = [s.ps['spec']] + s.ps['alts']
        if exists:
            known = e is not None and e['alts']
            match = known and any(S.norm(S.clean(x)) == S.norm(S.clean(e['spec'])) for x in accepted)
            verdicts = {S.verdict(e['spec'], a)[0] for a in e['alts']} if known else set()
            if exc is not None:
                if s.obj is not None and not (fired and intr(self.in_branch)):
                    self.ps_closed(op, s, 'a failed open')
                gc.collect()
                if fired:
                    self.count('open-refused-under-fault')
                elif known and not e['absent'] and match and verdicts == {'valid'}:
                    p = {'C14', 'C06'} if isinstance(exc, exceptions.InvalidSchemaError) else {'C14', 'C01'}
                    self.viol(p, 'ps-open-refused', 'opening a pseudo-storage on %s raised %r' % (rel, exc))
                elif known and not match and verdicts == {'valid'} and not isinstance(exc, exceptions.InvalidSchemaError):
                    self.viol(['C14', 'C06'], 'ps-open-error', 'opening a pseudo-storage with another schema raised %r' % exc)
                self.check_disk(op, (), props=('C11', 'C14', 'C07'))
                self.check_slots(op, None, (), outside=('C14', 'C12'))
                return
            if not known:
                self.viol(['C14', 'C05'], 'ps-open-junk', 'opening a pseudo-storage on a file that is no storage succeeded')
                s.obj = None
                del self.slots[op['slot']]
                raise Skip()
            if not match:
                self.viol(['C06', 'C14'], 'ps-schema', 'a pseudo-storage accepted data of a schema that was not requested')
            if verdicts == {'invalid'}:
                self.viol(['C05', 'C14'], 'ps-invalid', 'a pseudo-storage loaded data violating its schema')
            s.spec = e['spec']
            self.ps_exposes(op, s)
            self.adopt_loaded(op, s, e, {'C14', 'C01'}, bool(fired))
            self.check_disk(op, (), props=('C11', 'C14', 'C07'))
        else:
            if exc is not None:
                if s.obj is not None and not (fired and intr(self.in_branch)):
                    self.ps_closed(op, s, 'a failed open')
                if not fired:
                    self.viol(['C14'], 'ps-create', 'opening a pseudo-storage on a new path raised %r' % exc)
                self.check_disk(op, (rel,) if fired and not intr(self.in_branch) else (), props=('C11', 'C14'))
                return
            s.spec = s.ps['spec']
            self.ps_exposes(op, s)
            s.model = S.fresh(s.spec)
            s.model = self.stamps(s.model, op['slot'], s.spec, ('C09',))
            s.dirty = True
            self.check_disk(op, (rel,), props=('C11', 'C14'))
        self.count('ps-opened')
        self.check_slots(op, {op['slot']: s.model}, ('C14', 'C12'), outside=('C14', 'C12'))

    def ps_exposes(self, op, s):
        o = s.obj
        if o.data is None or o.storage is None or o.schema_node is None:
            self.viol(['C14'], 'ps-exposes', 'an opened pseudo-storage lacks data, storage or schema_node')
            raise Skip()
        if o.data is not o.storage.data:
            self.viol(['C14'], 'ps-exposes', 'a pseudo-storage exposes other data than its storage')
        if S.norm(o.schema_node.to_dict()) != S.norm(S.clean(s.spec)):
            self.viol(['C14', 'C06'], 'ps-schema-node', 'schema_node of the pseudo-storage is not the schema of its data')

    def open_ps_node(self, op, s, call, was_open):
        from dsch import exceptions
        src, sat = s.ps['origin']
        base = self.slots.get(src)
        if base is None or base.model is None or not S.exists(base.model, sat):
            raise Skip()
        nspec = S.at(base.spec, sat)
        _, exc = self.io(call)
        match = any(S.norm(S.clean(x)) == S.norm(S.clean(nspec)) for x in [s.ps['spec']] + s.ps['alts'])
        if was_open:
            if not isinstance(exc, RuntimeError):
                self.viol(['C14'], 'ps-reopen', 'opening an open pseudo-storage: %r' % (exc,))
        elif exc is not None:
            if match:
                self.viol(['C14', 'C06'], 'ps-node', 'opening a pseudo-storage on a node raised %r' % exc)
            elif not isinstance(exc, exceptions.InvalidSchemaError):
                self.viol(['C14', 'C06'], 'ps-node-error', 'opening on a node with another schema raised %r' % exc)
            if s.obj is not None:
                self.ps_closed(op, s, 'a failed open')
        else:
            if not match:
                self.viol(['C06', 'C14'], 'ps-schema', 'a pseudo-storage accepted a node of a schema that was not requested')
            node = self.node(base, sat)
            o = s.obj
            if o.data is not node or o.storage is not None:
                self.viol(['C14'], 'ps-node-data', 'a pseudo-storage on a node exposes storage=%r' % (o.storage,))
            if S.norm(o.schema_node.to_dict()) != S.norm(S.clean(nspec)):
                self.viol(['C14', 'C06'], 'ps-schema-node', 'schema_node of the pseudo-storage is not the schema of its node')
            s.spec = nspec
            s.origin = (src, sat)
            s.model = S.get(base.model, sat)
            self.count('ps-node-opened')
        self.check_disk(op, (), props=('C11', 'C14'))
        self.check_slots(op, None, (), outside=('C14', 'C12'))

    def op_ps_close(self, op):
        s = self.slot(op['slot'], False)
        if s.kind != 'ps' or s.obj is None:
            raise Skip()
        if op.get('br') and not self.in_branch and s.model is not None and s.path is not None and not s.origin and self.same_kind(s):
            self.branches(op, op['br'])
        self.close_ps(op, s, op.get('fault'))

    def close_ps(self, op, s, fault=None, call=None):
        """Returns True if closed."""
        real = s.obj
        call = call or (lambda: real.close())
        if s.model is None:
            _, exc = self.io(call)
            if exc is not None:
                self.viol(['C14'], 'ps-close-closed', 'closing a closed pseudo-storage raised %r' % exc)
            self.ps_closed(op, s, 'closing again')
            self.check_disk(op, (), props=('C11', 'C14'))
            return True
        if s.origin or s.path is None:
            before = s.model
            _, exc = self.io(call)
            if exc is not None:
                self.viol(['C14'], 'ps-close', 'closing raised %r' % exc)
            self.ps_closed(op, s, 'closing')
            s.model = None
            s.origin = None
            self.check_disk(op, (), props=('C11', 'C14'))
            self.check_slots(op, None, (), outside=('C14', 'C12'))
            self.count('ps-closed')
            return True
        if not S.storable(s.spec, s.model, s.backend) and S.verdict(s.spec, s.model)[0] == 'open':
            raise Skip()
        held = (s.obj.data, s.obj.storage)
        model = s.model
        box = []

        def run():
            try:
                call()
            except BaseException as e:
                box.append(e)
                raise
        ok = self.save_ps(op, s, fault, run, held)
        return ok

    def save_ps(self, op, s, fault, call, held):
        """A close is a save plus a release; judge both."""
        model = s.model

        class Keep:
            pass
        real = s.obj

        # During save() the slot's observation uses real.data, which is None after closing.
        view = Keep()
        view.data, view.storage = held
        s.obj = view
        try:
            ok = self.save(op, s, fault, call, props={'C14'})
        finally:
            s.obj = real
        if ok:
            self.ps_closed(op, s, 'closing')
            s.model = None
            s.dirty = False
            self.count('ps-closed')
        else:
            if (real.data is not held[0] or real.storage is not held[1]) and not intr(self.in_branch):
                self.viol(['C14', 'C03'] if self.last_io['fired'] else ['C14'], 'ps-lost', 'closing failed and the held data is gone')
                if real.data is None:
                    s.model = None
            self.count('ps-close-failed')
        held = view = None
        gc.collect()
        return ok

    def op_ps_with(self, op):
        s = self.slot(op['slot'], False)
        if s.kind != 'ps' or s.obj is None:
            raise Skip()
        if s.model is None:
            if s.ps['origin']:
                base = self.slots.get(s.ps['origin'][0])
                if base is None or base.model is None or not S.exists(base.model, s.ps['origin'][1]):
                    raise Skip()
            self.open_ps(op, op.get('ofault'), lambda: s.obj.__enter__())
            if s.model is None:
                return
        else:
            r, exc = self.io(lambda: s.obj.__enter__())
            if exc is not None or r is not s.obj:
                self.viol(['C14'], 'ps-enter', 'entering an open pseudo-storage: %r' % (exc,))
            self.check_slots(op, None, (), outside=('C14',))
        for sub in op['body']:
            if sub['op'] in ('ps_with', 'ps_close', 'close'):
                continue
            self.do(sub)
        if s.model is None:
            return
        # leave the context the way the with statement does
        err = body_error(op.get('raise'))

        def leave():
            if err is None:
                s_ps.__exit__(None, None, None)
            else:
                if s_ps.__exit__(type(err), err, None):
                    box.append('swallowed')
        s_ps = s.obj
        box = []
        self.close_ps(op, s, op.get('fault'), leave)
        if box:
            self.viol(['C14'], 'ps-swallow', 'the context swallowed an exception raised in its body')
        if op.get('raise'):
            self.count('ps-body-raised')


RAISES = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'timeout': TimeoutError}
WIDE = ('/zipfile/', '/shutil.py', '/uuid.py', '/json/', '/numpy/lib/', '/scipy/io/', '/h5py/')


class Interrupt:
    """Raises an exception at the k-th moment of a call at which Python handles signals.

    These are the ends of calls, the starts of functions and the ends of loop rounds;
    particularly, nothing can come between the body of a with statement and its exit.
    """

    codes = {}

    def __init__(self, k, exc):
        self.k, self.exc = k, exc
        self.n = 0
        self.at = None
        self.lines = [] if k is None else None

    def run(self, fn):
        # must be known before tracing starts
        sys._getframe().f_trace_opcodes = True
        sys.settrace(self.enter)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def info(self, code):
        """(kind of code, offsets of instructions before which signals are handled)"""
        r = self.codes.get(code)
        if r is None:
            f = code.co_filename
            at = frozenset()
            if f.startswith(W.REPO + '/dsch/'):
                k = 2 if f.endswith(('/storage.py', '/frontend.py')) or code.co_qualname.startswith('Storage.') else 1
            else:
                k = 0 if any(x in f for x in WIDE) else -1
            if k >= 0:
                ins = list(dis.get_instructions(code))
                at = frozenset([b.offset for a, b in zip(ins, ins[1:]) if a.opname in ('RESUME', 'CALL', 'CALL_KW', 'CALL_FUNCTION_EX')] +
                               [a.offset for a in ins if a.opname == 'JUMP_BACKWARD'])
            r = self.codes[code] = k, at
        return r

    def enter(self, frame, event, arg):
        if self.at or self.info(frame.f_code)[0] < 0:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.step

    def step(self, frame, event, arg):
        if event == 'opcode' and not self.at:
            k, at = self.info(frame.f_code)
            if frame.f_lasti not in at:
                return self.step
            if self.lines is not None:
                self.lines.append(k)
            elif self.n == self.k:
                f = frame.f_code.co_filename
                self.at = (f.split('/dsch/')[-1] if k > 0 else os.path.basename(f), k > 0, frame.f_lineno)
                sys.settrace(None)
                raise RAISES[self.exc]('simulated')
            self.n += 1
        return self.step


def pick_lines(lines):
    """Positions in the code of the operation itself, and the number of all."""
    lines = lines or []
    return [[i for i, k in enumerate(lines) if k == 2][:2000], len(lines)]


def intr(branch):
    return bool(branch) and 'fault' in branch and branch['fault'][0]['kind'] == W.F_RAISE


def body_error(kind):
    """An exception leaving the body of a with statement."""
    from dsch import exceptions as E
    return {0: lambda: None, 1: lambda: RuntimeError('body failed'), 'empty': E.NodeEmptyError, 'reset': lambda: E.ResetSubnodeError('x'),
            'invalid': lambda: E.ValidationError('m', 1, 2), 'schema': lambda: E.InvalidSchemaError('a', 'b'), 'os': lambda: OSError(28, 'No space left on device'),
            'exists': lambda: FileExistsError('x'), 'interrupt': KeyboardInterrupt, 'exit': lambda: SystemExit(0), 'memory': MemoryError, 'gen': GeneratorExit,
            'key': lambda: KeyError('x'), 'attr': lambda: AttributeError('x')}[kind or 0]()


def FNAME(k):
    return W.FNAME.get(k, str(k))
