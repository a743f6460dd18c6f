"""Processes sharing files (C22).

The processes are real forks, but exactly one of them runs at any time.  Before every
disk operation (and every look at a file name) inside dsch, and before every operation
of the scenario, the seam reports to the controller and waits for its turn; the
controller decides from the scenario's seed, or from an explicit list of switches,
which process goes on.  Everything stored is derived from the number of a version, so
any mixture of versions is seen as such; what the processes did and saw is a history
that must be explained by one whole-file register per path.
"""
import datetime
import errno
import gc
import hashlib
import os
import pickle
import select
import signal
import struct
import time
import traceback

import numpy as np

import schemas as S
import threads
import world as W
from execu import FNAME, Base, StopRun, listing
from values import canon

PROPS = ('C22',)


# -- what a version contains -------------------------------------------------------
def content(spec, v, salt=1):
    t, c = spec['node_type'], spec['config']
    if t == 'Compilation':
        return {k: content(s, v, salt * 7 + i) for i, (k, s) in enumerate(sorted(c['subnodes'].items()))}
    if t == 'List':
        return [content(c['subnode'], v, salt * 5 + i) for i in range(1 + v % 3)]
    if t == 'Array':
        return np.arange(1 + v % 5 * spec['x']['size'], dtype=c['dtype']) + v
    if t == 'Scalar':
        return np.dtype(c['dtype']).type(v * 100 + salt % 97)
    if t == 'String':
        return 'v%d/%d' % (v, salt) + '*' * (v % 4 * 30)
    if t == 'Bytes':
        return b'v%d/%d' % (v, salt) + bytes(range(256)) * (v % 3)
    if t == 'Bool':
        return bool(v % 2)
    return datetime.datetime(2001, 1, 1) + datetime.timedelta(hours=v, microseconds=salt)


def tree(spec, val):
    if spec['node_type'] == 'Compilation':
        return ('C', {k: tree(s, val[k]) for k, s in spec['config']['subnodes'].items()})
    if spec['node_type'] == 'List':
        return ('L', [tree(spec['config']['subnode'], x) for x in val])
    return ('I', canon(val))


def whole(sc, key, v):
    s = sc['schemas'][key]
    return tree(s, content(s, v))


def versions(sc):
    out = set()

    def walk(ops):
        for op in ops:
            if op.get('v') is not None:
                out.add(op['v'])
    walk(sc['init'])
    for t in sc['threads']:
        walk(t['ops'])
    return sorted(out)


class Proc(Base):
    def __init__(self, shim, prop, out_fd, sc, pid, ops, root, ctl=None, inp=None):
        super().__init__(shim, prop, out_fd)
        self.sc, self.pid, self.ops, self.root = sc, pid, ops, root
        self.ctl, self.inp = ctl, inp
        self.slots = {}
        self.stats = {}
        self.nh = 0

    def viol(self, props, sig, msg, **kw):
        # what concerns the state of one node is judged elsewhere
        super().viol(set(props) | set(PROPS), sig, 'process %d: %s' % (self.pid, msg), proc=self.pid)

    def run(self):
        sc = self.sc
        os.environ['TZ'] = 'UTC0'
        time.tzset()
        os.chdir(self.root)
        self.shim = W.Shim(4 << 20)
        lib = self.lib = self.shim.lib
        self.shim.begin(self.root, False, (sc.get('entropy', 1) * 1000003 + self.pid * 7919 + 5) & (2 ** 63 - 1))
        lib.sim_clock(1, 1_500_000_000_000_000_000 + self.pid * 10 ** 6, 1000)
        self.clock0 = lib.sim_clock_now()
        gc.disable()
        self.nodes = {k: S.build(s) for k, s in sc['schemas'].items()}
        self.versions = versions(sc)
        if self.ctl is not None:
            lib.sim_yield_fds(self.ctl, self.inp)
        try:
            for i, op in enumerate(self.ops):
                self.where = [self.pid, i]
                self.emit('op', i=op.get('i', i))
                if self.ctl is not None:
                    lib.sim_yield()
                self.count('op-' + op['op'])
                getattr(self, 'op_' + op['op'])(op)
        except StopRun:
            pass
        lib.sim_pause(1)
        self.emit('done', stats=self.stats, simtime=lib.sim_clock_now() - self.clock0)
        os._exit(0)

    # -- history ------------------------------------------------------------------
    def begin(self, file, write=None):
        self.nh += 1
        self.emit('hs', h=self.nh, file=file, write=write, op=self.where[1])

    def end(self, seen=None, sure=True):
        """seen: None, or what a read tells about the file at some moment of the call."""
        self.emit('he', h=self.nh, seen=seen, sure=sure)

    def call(self, fn, fault=None):
        lib = self.lib
        pos = self.shim.used()
        for f in fault or ():
            lib.sim_fault(f['cls'], f['idx'], f['kind'], f.get('arg', errno.EIO), f.get('until', 1 << 30))
        lib.sim_arm()
        res = exc = None
        try:
            res = fn()
        except Exception as e:
            exc = e
            e.__traceback__ = None
        lib.sim_disarm()
        self.fired = [x for x in self.shim.records(pos) if x[0] == W.R_FAULT]
        for x in self.fired:
            self.count('fault-%s-%s' % (FNAME(x[3]), W.RNAME.get(x[2], '?')))
        return res, exc

    def path(self, op):
        f = self.sc['files'][op['file']]
        p = f.get('alias') if op.get('alias') and f.get('alias') else f['path']
        return os.path.join(self.root, p) if op.get('abs') else p

    def version(self, data, what):
        """Which version the data is; nothing but whole ones may be seen."""
        for key, spec in self.sc['schemas'].items():
            if data.schema_node.to_dict() != self.nodes[key].to_dict():
                continue
            obs = self.observe(data, spec, PROPS)
            best = None
            for v in self.versions:
                d = S.diff(whole(self.sc, key, v), obs)
                if not d:
                    return [key, v]
                if best is None or len(d) < len(best[1]):
                    best = v, d
            self.viol(PROPS, 'mixture', '%s is no version anybody stored; compared to version %s: %s' % (what, best and best[0], best and self.show_diff(best[1])))
            return None
        self.viol(PROPS, 'schema', '%s has a schema nobody used' % what)

    # -- operations -----------------------------------------------------------------
    def new(self, op, fn):
        """create and its relatives: only where nothing exists."""
        self.begin(op['file'])
        st, exc = self.call(fn)
        if exc is None:
            self.end(['absent'])
            return st
        if isinstance(exc, FileExistsError):
            self.end(['present'])
            return None
        self.viol(PROPS, 'create', '%s raised %r' % (op['op'], exc))

    def op_create(self, op):
        import dsch
        st = self.new(op, lambda: dsch.create(self.path(op), self.nodes[op['key']], backend=self.sc['files'][op['file']].get('backend')))
        if st is not None:
            self.slots[op['slot']] = [st, op['file'], op['key'], None]
            if op.get('v') is not None:
                self.op_put(op)

    def op_load(self, op):
        import dsch
        kw = {}
        if op.get('force'):
            kw['force'] = True
        if op.get('req'):
            if op.get('hash'):
                kw['required_schema_hash'] = self.nodes[op['req']].hash()
            else:
                kw['required_schema'] = self.nodes[op['req']]
        self.begin(op['file'])
        st, exc = self.call(lambda: dsch.load(self.path(op), backend=self.sc['files'][op['file']].get('backend'), **kw))
        if isinstance(exc, FileNotFoundError):
            return self.end(['absent'])
        if isinstance(exc, dsch.exceptions.InvalidSchemaError) and op.get('req'):
            return self.end(['not', op['req']])
        if exc is not None:
            self.viol(PROPS, 'load', 'loading %s raised %r' % (self.path(op), exc))
        ver = self.version(st.data, 'what was loaded from %s' % self.path(op))
        if ver is None:
            return
        if op.get('req') and ver[0] != op['req']:
            self.viol(PROPS + ('C06',), 'required', 'schema %s was required, %s was loaded' % (op['req'], ver[0]))
        self.end(['is', ver])
        self.slots[op.get('slot', 'x')] = [st, op['file'], *ver]

    def op_edit(self, op):
        s = self.slots.get(op['slot'])
        if s is None:
            return
        _, exc = self.call(lambda: s[0].data.replace(content(self.sc['schemas'][s[2]], op['v'])))
        if exc is not None:
            self.viol(PROPS, 'edit', 'replace raised %r' % exc)
        s[3] = op['v']

    def op_put(self, op):
        if self.slots.get(op['slot']) is not None:
            self.op_edit(op)
            self.op_save(op)

    def op_save(self, op):
        s = self.slots.get(op['slot'])
        if s is None or s[3] is None:
            return
        self.write(s[1], s[2:], lambda: s[0].save(**({'force': True} if op.get('force') else {})), op)

    def write(self, file, ver, fn, op):
        self.begin(file, list(ver))
        _, exc = self.call(fn, op.get('fault'))
        if exc is not None:
            if not self.fired:
                self.viol(PROPS, 'save', '%s raised %r without any error of the disk' % (op['op'], exc))
            self.count('save-failed')
            return self.end(sure=False)
        self.end()

    def op_copy(self, op):
        s = self.slots.get(op['slot'])
        if s is None or s[3] is None:
            return
        st = self.new(op, lambda: s[0].save_as(self.path(op), self.sc['files'][op['file']].get('backend')))
        if st is not None:
            self.write(op['file'], s[2:], st.save, op)

    def op_mv(self, op):
        """Somebody moves another storage to the path."""
        src = self.sc['files'][op['src']]
        if not os.path.exists(src['path']):
            return
        self.begin(op['file'], src['ver'])
        os.replace(src['path'], self.sc['files'][op['file']]['path'])
        self.end()

    def op_peek(self, op):
        """Data in memory is the process' own."""
        s = self.slots.get(op['slot'])
        if s is None or s[3] is None:
            return
        box = []
        self.lib.sim_arm()
        box.append(self.observe(s[0].data, self.sc['schemas'][s[2]], PROPS))
        self.lib.sim_disarm()
        d = S.diff(whole(self.sc, *s[2:]), box[0])
        if d:
            self.viol(PROPS + ('C12',), 'memory', 'data opened before has changed: %s' % self.show_diff(d))

    def op_ps(self, op):
        import dsch
        key = op['key']
        self.begin(op['file'])
        ps, exc = self.call(lambda: dsch.PseudoStorage(self.path(op), self.nodes[key]))
        if isinstance(exc, dsch.exceptions.InvalidSchemaError):
            return self.end(['not', key])
        if isinstance(exc, FileExistsError):
            return self.end(['present'])
        if exc is not None:
            self.viol(PROPS, 'ps', 'opening the pseudo-storage raised %r' % exc)
        if ps.data.empty:
            ver = None
            self.end(['absent'])
        else:
            ver = self.version(ps.data, 'the data of a pseudo-storage')
            self.end(['is', ver])
        if ver is None or op.get('v') is not None:
            v = op['v'] if op.get('v') is not None else self.versions[0]
            _, exc = self.call(lambda: ps.data.replace(content(self.sc['schemas'][key], v)))
            if exc is not None:
                self.viol(PROPS, 'edit', 'replace raised %r' % exc)
            ver = [key, v]
        self.write(op['file'], ver, ps.close, op)


# -- scheduling ----------------------------------------------------------------------
class Sched(threads.Scheduler):
    """The decisions of threads.Scheduler, without its threads."""

    def __init__(self, spec, switches, ids):
        super().__init__(spec, switches, ids)
        self.hot = set(ids)

    def give(self, t):
        self.current = t

    def wait(self, tid):
        pass


class Child:
    def __init__(self, pid, ops):
        self.pid, self.ops = pid, ops
        self.frm = os.pipe()
        self.ctl = os.pipe()
        self.inp = os.pipe()
        self.buf = b''
        self.os_pid = None
        self.ready = False

    def frames(self):
        """Complete frames that are there now; None at the end."""
        try:
            d = os.read(self.frm[0], 1 << 20)
        except BlockingIOError:
            return []
        if not d:
            return None
        self.buf += d
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack_from('<I', self.buf)[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out

    def close(self):
        for fd in (self.frm[0], self.ctl[0], self.inp[1]):
            os.close(fd)


class Control:
    def __init__(self, runner, sc, prop, res):
        self.runner, self.sc, self.prop, self.res = runner, sc, prop, res
        self.history = []
        self.seq = 0
        self.trace = hashlib.sha256()
        self.kids = []
        self.faulty = False
        self.crashed = set()

    def frame(self, pid, kind, kw):
        self.seq += 1
        res = self.res
        if kind == 'op':
            if self.sched:
                self.sched.enter(pid, kw['i'])
        elif kind == 'hs':
            self.history.append({'pid': pid, 'h': kw['h'], 'op': kw['op'], 'file': kw['file'], 'write': kw['write'], 'start': self.seq, 'end': None, 'seen': None, 'sure': True})
        elif kind == 'he':
            for h in self.history:
                if h['pid'] == pid and h['h'] == kw['h']:
                    h.update(end=self.seq, seen=kw['seen'], sure=kw['sure'])
                    self.trace.update(repr((pid, h['file'], h['write'], h['seen'], h['sure'])).encode())
                    res.states.add(self.trace.hexdigest()[:10])
        elif kind == 'viol':
            kw['life'] = None
            kw['extra']['switches'] = list(self.sched.record) if self.sched else None
            res.viols.append(kw)
        elif kind == 'harness':
            res.harness.append('process %s: %s' % (pid, kw['msg']))
        elif kind == 'done':
            res.add(kw['stats'])
            res.simtime += kw['simtime']

    def bad(self, sig, msg, where=None):
        self.res.viols.append({'props': list(PROPS), 'sig': sig, 'msg': msg, 'where': where or [-1, 0], 'life': None, 'extra': {'switches': list(self.sched.record) if self.sched else None}})

    def alone(self, pid, ops):
        """One process on its own, start to end."""
        if not ops:
            return
        code = self.runner.child(lambda w: Proc(self.runner.shim, self.prop, w, self.sc, pid, ops, self.runner.root), lambda k, kw: self.frame(pid, k, kw))
        self.res.processes += 1
        if code in ('timeout', 'slow'):
            self.bad('hang', 'a process on its own did not finish', [pid, 0])
        elif code != 0 and not self.res.harness:
            self.bad('died', 'process %d ended with %s' % (pid, code), [pid, 0])

    def stop(self):
        return self.runner.stop(self.res, self.prop)

    def run(self):
        sc, runner = self.sc, self.runner
        self.sched = None
        self.alone(-1, sc['init'])
        if self.stop():
            return
        for f in sc['files']:
            if f.get('alias') and os.path.exists(os.path.join(runner.root, f['path'])):
                os.symlink(f['path'], os.path.join(runner.root, f['alias']))
        self.sched = Sched(sc['sched'], sc.get('switches'), [t['id'] for t in sc['threads']])
        try:
            self.together()
        finally:
            self.end()
        if self.stop():
            return
        self.sched.alive = [-9]
        self.alone(99, [{'op': 'load', 'file': i} for i, f in enumerate(sc['files']) if 'ver' not in f])
        if self.stop():
            return
        self.check()
        if not self.faulty and not self.crashed:
            mine = {p for f in sc['files'] for p in (f['path'], f.get('alias'))}
            for p in sorted(listing(runner.root)):
                if p not in mine:
                    self.bad('stray', 'the processes left %s behind' % p)

    def end(self):
        for k in self.kids:
            if k.os_pid:
                try:
                    os.killpg(k.os_pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(k.os_pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(k.os_pid, 0)
                k.os_pid = None
                k.close()

    def together(self):
        sc, res = self.sc, self.res
        kids = self.kids = [Child(t['id'], t['ops']) for t in sc['threads']]
        for k in kids:
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    for o in kids:
                        for fd in {*o.frm, *o.ctl, *o.inp} - ({k.frm[1], k.ctl[1], k.inp[0]} if o is k else set()):
                            os.close(fd)
                    Proc(self.runner.shim, self.prop, k.frm[1], sc, k.pid, k.ops, self.runner.root, k.ctl[1], k.inp[0]).run()
                except BaseException:
                    try:
                        data = pickle.dumps(('harness', {'msg': traceback.format_exc()}), 4)
                        os.write(k.frm[1], struct.pack('<I', len(data)) + data)
                    finally:
                        os._exit(9)
                os._exit(9)
            k.os_pid = pid
            res.processes += 1
        for k in kids:
            for fd in (k.frm[1], k.ctl[1], k.inp[0]):
                os.close(fd)
            os.set_blocking(k.frm[0], False)
            os.set_blocking(k.ctl[0], False)
        by = {k.pid: k for k in kids}
        # everybody up to the first operation
        for k in kids:
            if k.ops and self.turn(k, first=True) == 'end':
                self.gone(k)
            elif not k.ops:
                self.turn(k, first=True)
                self.gone(k)
            if self.stop():
                return
        if not self.sched.alive:
            return
        self.sched.start()
        while self.sched.alive:
            k = by[self.sched.current]
            os.write(k.inp[1], b'g')
            what = self.turn(k)
            if what == 'hang':
                self.bad('hang', 'process %d does not go on' % k.pid, [k.pid, 0])
                return
            if what == 'end':
                self.gone(k)
                if self.stop():
                    return
                continue
            s = self.sched
            s.step += 1
            s.loc[k.pid][1] += 1
            t = s.decide(k.pid, None)
            if t != k.pid:
                res.states.add(hashlib.md5(repr((s.loc, t)).encode()).hexdigest()[:10])
                s.record.append([k.pid, *s.loc[k.pid], t])
                s.give(t)
        res.add({'proc-switches': len(self.sched.record), 'proc-steps': self.sched.step})

    def turn(self, k, first=False):
        """Until the process reports ('y'), ends or hangs."""
        from runner import LIMIT
        end = time.monotonic() + LIMIT
        done = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                return 'hang'
            r, _, _ = select.select([k.ctl[0], k.frm[0]], [], [], min(left, 5))
            if not r:
                continue
            y = b''
            if k.ctl[0] in r:
                try:
                    y = os.read(k.ctl[0], 1)
                except BlockingIOError:
                    pass
            while True:
                fr = k.frames()
                if fr is None:
                    return 'end'
                for kind, kw in fr:
                    self.frame(k.pid, kind, kw)
                if not fr:
                    break
            if y:
                return 'y'

    def gone(self, k):
        _, st = os.waitpid(k.os_pid, 0)
        k.os_pid = None
        k.close()
        code = os.waitstatus_to_exitcode(st)
        self.seq += 1
        if code == 137:
            self.crashed.add(k.pid)
            self.res.add({'fault-crash-process': 1, 'life-end-crash': 1})
        elif code == 138:
            self.bad('livelock', 'more than 100000 I/O operations in one call', [k.pid, 0])
        elif code != 0 and not (code == 9 and self.res.harness):
            self.bad('died', 'process %d ended with %s' % (k.pid, code), [k.pid, 0])
        for h in self.history:
            if h['pid'] == k.pid and h['end'] is None:
                h['end'] = self.seq
                h['sure'] = False
        if self.sched.current is None:
            self.sched.alive.remove(k.pid)
        else:
            self.sched.finish(k.pid)

    # -- the oracle ------------------------------------------------------------------
    def check(self):
        self.faulty = any(not h['sure'] for h in self.history)
        for f in range(len(self.sc['files'])):
            ops = [h for h in self.history if h['file'] == f and (h['write'] or h['seen'])]
            over = sum(1 for a in ops for b in ops if a is not b and a['write'] and a['start'] < b['start'] < a['end'] and a['pid'] != b['pid'])
            if over:
                self.res.add({'proc-overlaps': over})
            self.res.add({'proc-history': len(ops)})
            if not explain(ops):
                lines = ['%s %s [%d..%d] %s' % ('init' if h['pid'] == -1 else 'end' if h['pid'] == 99 else 'p%d' % h['pid'], 'op %d' % h['op'], h['start'], h['end'],
                         'stores %s%s' % (h['write'], '' if h['sure'] else ' (failed)') if h['write'] else 'sees %s' % (h['seen'],)) for h in ops]
                self.bad('history', 'no order of the operations explains what was seen at %s: %s' % (self.sc['files'][f]['path'], '; '.join(lines)))


def fits(seen, state):
    k = seen[0]
    if k == 'absent':
        return state is None
    if k == 'present':
        return state is not None
    if k == 'not':
        return state is not None and state[0] != seen[1]
    return state == tuple(seen[1])


def explain(ops):
    """Is there an order of the operations, compatible with their times, in which a
    single whole-file register would have shown what was seen?"""
    n = len(ops)
    sure = [o['sure'] for o in ops]
    before = [sum(1 << j for j in range(n) if sure[j] and ops[j]['end'] < ops[i]['start']) for i in range(n)]
    after = [sum(1 << j for j in range(n) if ops[j]['start'] > ops[i]['end']) for i in range(n)]
    goal = sum(1 << i for i in range(n) if sure[i])
    seen = set()
    todo = [(0, None)]
    while todo:
        done, state = todo.pop()
        if done & goal == goal:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        for i in range(n):
            b = 1 << i
            if done & b or before[i] & ~done or not sure[i] and after[i] & done:
                continue
            o = ops[i]
            if o['write']:
                todo.append((done | b, tuple(o['write'])))
            elif o['seen'] and fits(o['seen'], state):
                todo.append((done | b, state))
    return False


def run(runner, sc, prop, res):
    c = Control(runner, sc, prop, res)
    c.run()
    if c.sched:
        res.sched = list(c.sched.record)
        for v in res.viols:
            v['extra']['switches'] = v['extra'].get('switches') or res.sched
        c.trace.update(repr(c.sched.record).encode())
    res.digest.append(c.trace.hexdigest())


# -- scenarios -------------------------------------------------------------------------
def family(g):
    """Schemas whose every value tells the version."""
    def arr():
        return dict(g.node('Array', dtype=g.pick(['float64', 'int32', 'uint16']), unit='', max_shape=None, min_shape=None, ndim=1, max_value=None, min_value=None, depends_on=None),
                    x={'size': g.pick([1, 10, 10, 700, 9000])})

    def scal():
        return g.node('Scalar', dtype=g.pick(['int64', 'int32', 'float64']), unit='', max_value=None, min_value=None)

    def leaf():
        return g.pick([arr, scal, lambda: g.node('String', max_length=None, min_length=None), lambda: g.node('Bytes', max_length=None, min_length=None),
                       lambda: g.node('DateTime', set_on_create=False)])()

    def comp(depth):
        subs = {'n': scal()}
        for k in g.r.sample(['a', 'b', 'c', 'd', 'e'], g.pick([1, 2, 3])):
            x = g.r.random()
            if x < 0.2 and not depth:
                subs[k] = comp(1)
            elif x < 0.4:
                subs[k] = g.node('List', subnode=leaf() if g.p(0.6) or depth else comp(1), max_length=None, min_length=None)
            else:
                subs[k] = leaf()
        names = list(subs)
        g.r.shuffle(names)
        return g.node('Compilation', subnodes={k: subs[k] for k in names}, optionals=[])
    x = g.r.random()
    if x < 0.75:
        return comp(0)
    if x < 0.87:
        return g.node('List', subnode=g.pick([leaf, lambda: comp(1)])(), max_length=None, min_length=None)
    return leaf()


def scenario(g):
    schemas = {'S0': family(g)}
    if g.p(0.5):
        if g.p(0.4):
            schemas['S1'] = family(g)
        else:
            # the same fields, some other detail
            import copy
            s = schemas['S1'] = copy.deepcopy(schemas['S0'])
            for p, n in list(S.walk_spec(s)):
                if 'unit' in n['config']:
                    n['config']['unit'] = 'm'
                elif n['node_type'] in ('String', 'Bytes'):
                    n['config']['max_length'] = 100000
                elif n['node_type'] == 'DateTime':
                    n['config']['set_on_create'] = False
        if S.text(schemas['S1']) == S.text(schemas['S0']):
            del schemas['S1']
    keys = sorted(schemas)
    files = []
    for i in range(g.pick([1, 1, 1, 2, 3])):
        bk = g.pick(['npz', 'hdf5', 'mat'])
        ext = {'npz': '.npz', 'hdf5': g.pick(['.h5', '.hdf5']), 'mat': '.mat'}[bk]
        f = {'path': 'f%d%s' % (i, ext)}
        if g.p(0.1):
            f = {'path': 'f%d.dat' % i, 'backend': bk}
        files.append(f)
    init = []
    nv = [0]

    def v():
        nv[0] += 1
        return nv[0]
    for i, f in enumerate(files):
        if g.p(0.7):
            init.append({'op': 'create', 'file': i, 'slot': 'i%d' % i, 'key': g.pick(keys), 'v': v()})
            if g.p(0.25) and len(f) == 1:
                f['alias'] = 'l%d' % i + os.path.splitext(f['path'])[1]
    has = {op['file'] for op in init}
    alts = []
    for i in range(g.pick([0, 0, 1, 2, 4])):
        f = g.r.randrange(len(files))
        key, ver = g.pick(keys), v()
        alts.append([len(files) + i, f])
        init.append({'op': 'create', 'file': len(files) + i, 'slot': 'i', 'key': key, 'v': ver})
    moved = [dict(files[f], path='x' + str(i) + os.path.splitext(files[f]['path'])[1], ver=[op['key'], op['v']]) for (i, f), op in zip(alts, init[len(init) - len(alts):])]
    for m in moved:
        m.pop('alias', None)
    targets = len(files)
    files += moved
    out = []
    w = g.weighted
    mode = w({'mix': 60, 'rw': 30, 'create': 15 if len(has) < targets else 0})
    n = g.pick([2, 2, 2, 3, 4])
    crash = g.p(0.3)
    for pid in range(n):
        role = g.pick(['w', 'r']) if mode == 'rw' and pid else 'w'
        ops = []
        slots = []
        for _ in range(g.r.randint(1, g.pick([3, 6, 10]))):
            fi = g.r.randrange(targets)
            f = files[fi]
            how = {k: 1 for k in ('abs',) if g.p(0.2)}
            if 'alias' in f and g.p(0.5):
                how['alias'] = 1
            bkd = 'backend' in f
            if mode == 'create' and not ops:
                k = 'create'
            elif role == 'r':
                k = w({'load': 70, 'peek': 20 if slots else 0})
            else:
                k = w({'load': 25, 'put': 35 if slots else 0, 'save': 5 if slots else 0, 'edit': 4 if slots else 0, 'peek': 8 if slots else 0, 'create': 5 if fi in has else 30,
                       'copy': 8 if slots and targets > 1 else 0, 'mv': 14 if alts else 0, 'ps': 0 if bkd else 18})
            op = {'op': k}
            if k in ('load', 'create'):
                op.update(how, file=fi, slot='s%d' % g.r.randrange(2))
                slots.append(op['slot'])
                if k == 'create':
                    op.update(key=g.pick(keys), v=v() if g.p(0.8) else None)
                else:
                    if g.p(0.2):
                        op['force'] = 1
                    if g.p(0.25):
                        op.update(req=g.pick(keys), hash=int(g.p(0.5)))
            elif k == 'mv':
                src, fi = alts.pop(g.r.randrange(len(alts)))
                op.update(src=src, file=fi)
            elif k == 'ps':
                op.update(how, file=fi, key=g.pick(keys), v=v() if g.p(0.8) else None)
            else:
                op['slot'] = g.pick(slots)
                if k == 'copy':
                    op.update(how, file=fi)
                if k in ('put', 'edit'):
                    op['v'] = v()
                if k in ('put', 'save') and g.p(0.1):
                    op['force'] = 1
            if k in ('put', 'save', 'ps', 'copy', 'create') and g.p(0.1):
                op['fault'] = [{'cls': 0, 'idx': g.r.randrange(14), 'kind': g.pick([1, 1, 7, 3, 2]), 'arg': g.pick([5, 28, 13]), 'until': g.pick([1 << 30, 1, 2])}]
                if op['fault'][0]['kind'] == 2:
                    op['fault'][0]['arg'] = 5
            elif k in ('put', 'save', 'ps', 'copy', 'create') and crash and g.p(0.3):
                op['fault'] = [{'cls': 0, 'idx': g.r.randrange(14), 'kind': g.pick([4, 5, 6]), 'arg': g.pick([1, 3, 64])}]
            op['i'] = len(ops)
            ops.append(op)
        out.append({'id': pid, 'ops': ops})
    # pseudo-storages need some version to store
    if not nv[0]:
        v()
    for t in out:
        for op in t['ops']:
            if op['op'] == 'ps' and op['v'] is None and not any(x.get('v') is not None for y in out for x in y['ops']):
                op['v'] = 17
    kind = w({'rand': 50, 'burst': 25, 'pct': 25})
    sched = {'kind': kind, 'seed': g.r.randrange(10 ** 9)}
    if kind == 'rand':
        sched['p'] = g.pick([0.05, 0.2, 0.5, 0.9])
    elif kind == 'burst':
        sched['len'] = g.pick([2, 5, 12, 40])
    else:
        sched.update(depth=g.r.randint(1, 12), len=g.pick([20, 80, 300]))
    return {'kind': 'procs', 'schemas': schemas, 'files': files, 'init': init, 'threads': out, 'sched': sched, 'switches': None, 'entropy': g.r.randrange(1 << 40)}
