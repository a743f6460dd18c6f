"""Threads of one process, each working on its own storages (C15).

The threads are real ones, but exactly one of them runs at any time: the others wait
for the baton.  Before every source line (or bytecode) of dsch that a thread executes,
the scheduler decides from the scenario's seed, or from an explicit list of switches,
which thread goes on.  Every thread has its own reference model, files and fault plan.
"""
import atexit
import gc
import hashlib
import os
import random
import threading
import time
import sys
import traceback

import world as W
from execu import Life, StopRun, listing

STALL = 5.0


class Scheduler:
    def __init__(self, spec, switches, ids):
        self.spec = spec
        self.plan = None if switches is None else {}
        for tid, op, k, t in switches or ():
            self.plan.setdefault((tid, op, k), t)
        self.r = random.Random(str(spec.get('seed', 0)))
        self.ids = list(ids)
        self.alive = list(ids)
        self.gates = {t: threading.Lock() for t in ids}
        for g in self.gates.values():
            g.acquire()
        self.current = None
        self.step = 0
        self.loc = {t: [-1, 0] for t in ids}      # operation and step in it
        self.spins = 0
        self.dead = False
        self.record = []
        self.done = threading.Event()
        self.hot = set()
        self.error = None
        self.forced = 0
        self.idents = {}
        kind = spec.get('kind', 'rand')
        if kind == 'pct':
            self.prio = {t: self.r.random() for t in ids}
            self.change = sorted({self.r.randrange(1, spec['len']) for _ in range(spec['depth'])})
        elif kind == 'burst':
            self.left = self.r.randint(1, spec['len'])
        self.kind = kind
        self.pairs = 0

    def start(self):
        if self.plan is not None:
            t = self.plan.get((-1, -1, 0), self.alive[0])
            t = t if t in self.alive else self.alive[0]
        else:
            t = self.r.choice(self.alive)
        self.record.append([-1, -1, 0, t])
        self.give(t)

    def enter(self, tid, op):
        self.loc[tid] = [op, 0]

    def blocked(self, tid):
        """Thread tid waits for a lock: let the next one run."""
        self.spins += 1
        if self.spins > 2000 or len(self.alive) < 2:
            self.dead = True
            self.done.set()
            threading.Event().wait()
        i = self.alive.index(tid)
        self.give(self.alive[(i + 1) % len(self.alive)])
        self.wait(tid)

    def decide(self, tid, code):
        """The thread to run at this point of thread tid."""
        if self.plan is not None:
            t = self.plan.get((tid, *self.loc[tid]))
            return t if t in self.alive else tid
        if len(self.alive) < 2:
            return tid
        k, r = self.kind, self.r
        if k == 'pct':
            while self.change and self.step >= self.change[0]:
                self.change.pop(0)
                self.prio[tid] = min(self.prio.values()) - 1
            return max(self.alive, key=lambda t: self.prio[t])
        if k == 'burst':
            self.left -= 1 if tid in self.hot else 0.2
            if self.left > 0:
                return tid
            self.left = r.randint(1, self.spec['len'])
            return r.choice(self.alive)
        if k == 'focus':
            h = hash_name(code.co_name, self.spec['salt'])
            if h % 4:
                return tid
            return r.choice(self.alive) if r.random() < 0.5 else tid
        p = self.spec['p'] if tid in self.hot else self.spec['p'] * 0.15
        return r.choice(self.alive) if r.random() < p else tid

    def point(self, tid, code):
        self.wait(tid)                      # the baton may have been taken away meanwhile
        self.step += 1
        self.spins = 0
        self.loc[tid][1] += 1
        t = self.decide(tid, code)
        if t != tid:
            self.record.append([tid, *self.loc[tid], t])
            self.give(t)
            self.wait(tid)

    def give(self, t):
        self.current = t
        if self.gates[t].locked():
            self.gates[t].release()

    def wait(self, tid):
        while self.current != tid:
            self.gates[tid].acquire()

    def finish(self, tid):
        self.wait(tid)
        self.alive.remove(tid)
        self.step += 1
        if not self.alive:
            self.done.set()
            return
        if self.plan is not None:
            t = self.plan.get((tid, -2, 0))
            t = t if t in self.alive else self.alive[0]
        else:
            t = self.r.choice(self.alive)
        self.record.append([tid, -2, 0, t])
        self.give(t)

    def watch(self, beat):
        """A thread blocked on a real lock gives the baton away."""
        last, idle = None, 0
        cpu = time.process_time()
        while not self.done.wait(STALL):
            now = time.process_time()
            if self.step != last or now - cpu > 0.2:
                if self.step != last:
                    beat()
                last, idle, cpu = self.step, 0, now
                continue
            idle += 1
            if idle > len(self.alive):
                return False
            others = [t for t in self.alive if t != self.current]
            if others:
                self.forced += 1
                self.give(others[idle % len(others)])
        return not self.dead


class SimLock:
    """Stands for a lock created by dsch: waiting for it is the scheduler's business."""

    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        if self.real.acquire(False):
            return True
        if not blocking:
            return False
        tid = ACTIVE[0].idents.get(threading.get_ident()) if ACTIVE else None
        if tid is None:
            if timeout < 0 and not self.real.acquire(True, 20):
                raise RuntimeError('deadlock: a lock is never released')
            return timeout < 0 or self.real.acquire(True, timeout)
        while not self.real.acquire(False):
            ACTIVE[0].blocked(tid)
        return True

    def release(self):
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self.real._at_fork_reinit()

    def __getattr__(self, name):
        return getattr(self.real, name)


ACTIVE = []


def lock_seam():
    """Locks that dsch creates become part of the simulated schedule."""
    def wrap(make):
        def factory(*args, **kw):
            real = make(*args, **kw)
            name = sys._getframe(1).f_globals.get('__name__', '')
            return SimLock(real) if name == 'dsch' or name.startswith('dsch.') else real
        return factory
    threading.Lock = wrap(threading.Lock)
    threading.RLock = wrap(threading.RLock)


NAMES = {}


def hash_name(name, salt):
    k = (name, salt)
    if k not in NAMES:
        NAMES[k] = int(hashlib.md5(('%s/%s' % k).encode()).hexdigest()[:8], 16)
    return NAMES[k]


class ThreadLife(Life):
    def __init__(self, host, tid, ops):
        self.host = host
        sc = dict(host.sc, lives=[{'ops': ops}])
        super().__init__(host.shim, host.prop, host.out, sc, 0, host.root, host.imgdir, host.durable)
        self.nodes = host.nodes
        self.tid = tid
        self.tag = tid + 1
        self.ops = ops
        self.stats = host.stats
        self.trace = host.trace
        self.states = host.states
        self.own = 't%d_' % tid

    def beat(self):
        pass                                # the watching thread gives them

    def check_fds(self, what):
        pass                                # others may be at work

    def listing(self):
        return {p: c for p, c in listing(self.root).items() if p in ('sub', 'sub/deep', '~') or any(x.startswith(self.own) for x in p.split('/'))}

    def viol(self, props, sig, msg, **kw):
        super().viol(set(props) | {'C15'}, sig, 'thread %d: %s' % (self.tid, msg), thread=self.tid, switches=list(self.host.sched.record), **kw)

    def image(self, label, entry, path, props, **kw):
        super().image(label, entry, path, set(props) | {'C15'}, **kw)

    def io(self, fn, fault=None, disk=True):
        self.host.sched.hot.add(self.tid)
        try:
            return super().io(fn, fault, disk)
        finally:
            self.host.sched.hot.discard(self.tid)
            if any(True for _ in self.last_io['fired']):
                self.host.faulted = True

    def op_fs(self, op):
        pass

    op_tz = op_clock = op_fs

    def body(self):
        lib = self.shim.lib
        host, sched = self.host, self.host.sched
        try:
            sched.idents[threading.get_ident()] = self.tid
            sched.wait(self.tid)
            lib.sim_tag(self.tag)
            sys.settrace(host.tracer(self.tid))
            for oi, op in enumerate(self.ops):
                self.where = [self.tid, oi]
                sched.enter(self.tid, op.get('i', oi))
                self.do({k: v for k, v in op.items() if k != 'br'})
            self.where = [self.tid, len(self.ops)]
            sys.settrace(None)
        except StopRun:
            sys.settrace(None)
            host.finish()
            os._exit(0)
        except BaseException:
            sys.settrace(None)
            host.emit('harness', msg=traceback.format_exc())
            os._exit(9)
        sched.finish(self.tid)


class Host(Life):
    """The process the threads run in."""

    def __init__(self, shim, prop, out_fd, sc, root, imgdir, durable):
        life = {'ops': [], 'end': sc.get('end', 'close'), 'tz': sc.get('tz'), 'clock': sc.get('clock')}
        super().__init__(shim, prop, out_fd, dict(sc, lives=[life]), 0, root, imgdir, durable)
        self.faulted = False
        self.files = {}

    def traced(self, fn):
        ok = self.files.get(fn)
        if ok is None:
            r = os.path.realpath(fn)
            ok = r.startswith(os.path.join(os.path.realpath(W.REPO), 'dsch') + os.sep)
            if not ok and self.sc['sched'].get('wide'):
                ok = 2 * any(x in r for x in ('/zipfile', '/numpy/lib/_npyio', '/numpy/lib/_format', '/scipy/io/matlab', '/uuid.py', '/json/'))
            self.files[fn] = ok
        return ok

    def tracer(self, tid):
        sched = self.sched
        fine = bool(self.sc['sched'].get('fine'))

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                sched.point(tid, frame.f_code)
            return local

        def call(frame, event, arg):
            ok = self.traced(frame.f_code.co_filename)
            if not ok or ok == 2 and tid not in sched.hot:
                return None
            if fine:
                frame.f_trace_opcodes = True
            sched.point(tid, frame.f_code)
            return local
        return call

    def run(self):
        sc = self.sc
        os.environ['TZ'] = sc.get('tz') or 'UTC0'
        time.tzset()
        os.chdir(self.root)
        for d in ('sub', 'sub/deep', '~'):
            os.mkdir(d)
        self.start_disk = listing(self.root)
        self.shim.begin(self.root, False, sc.get('entropy', 1) & (2 ** 63 - 1))
        clk = sc.get('clock') or {}
        self.shim.lib.sim_clock(1, clk.get('base', 1_500_000_000_000_000_000), clk.get('step', 1000))
        self.clock0 = self.shim.lib.sim_clock_now()
        gc.disable()
        ids = [t['id'] for t in sc['threads']]
        self.sched = Scheduler(sc['sched'], sc.get('switches'), ids)
        ACTIVE[:] = [self.sched]
        self.lives = [ThreadLife(self, t['id'], t['ops']) for t in sc['threads']]
        for l in self.lives:
            l.start_disk = l.listing()
            l.disk = dict(l.start_disk)
        threads = [threading.Thread(target=l.body, daemon=True) for l in self.lives]
        for t in threads:
            t.start()
        self.sched.start()
        self.where = [-1, 0]
        try:
            if not self.sched.watch(super().beat):
                self.viol(['C15'], 'deadlock', 'the threads block each other: %s still running' % self.sched.alive)
                os._exit(0)
            for t in threads:
                t.join()
            self.check_stray()
            for l in self.lives:
                l.where = [l.tid, len(l.ops)]
                l.check_slots({'op': 'end'}, None, (), outside=('C12',))
            self.close()
        except StopRun:
            pass
        self.finish()
        os._exit(0)

    def check_stray(self):
        if self.faulted:
            return
        for p in sorted(listing(self.root)):
            if p not in self.start_disk and not any(x.startswith('t%d_' % l.tid) for l in self.lives for x in p.split('/')):
                self.viol(['C11', 'C15'], 'stray', 'the threads left %s behind' % p)

    def viol(self, props, sig, msg, **kw):
        super().viol(set(props) | {'C15'}, sig, msg, switches=list(self.sched.record), thread=None, **kw)

    def close(self):
        end = self.sc.get('end', 'close')
        slots = [s for l in self.lives for s in l.slots.values()]
        self.emit('ending', end=end, dirty=sorted({s.path for s in slots if s.path and s.model is not None and s.dirty}))
        if end != 'kill':
            for s in slots:
                s.obj = None
            slots = s = None
            gc.collect()
            if end == 'exit':
                atexit._run_exitfuncs()
            for l in self.lives:
                l.check_disk({'op': 'end'}, ())
        self.count('life-end-' + end)

    def finish(self):
        self.shim.lib.sim_pause(1)
        self.trace.update(repr(self.sched.record).encode())
        self.count('thread-switches', len(self.sched.record))
        self.count('thread-steps', self.sched.step)
        self.count('thread-forced', self.sched.forced)
        self.emit('sched', switches=self.sched.record)
        self.emit('done', stats=self.stats, digest=self.trace.hexdigest(), states=sorted(self.states), simtime=self.shim.lib.sim_clock_now() - self.clock0)


def execute(runner, sc, prop, res):
    durable = {}
    runner.one(lambda w: Host(runner.shim, prop, w, sc, runner.root, runner.img, dict(durable)), 0, 0, prop, res, durable, extra=('C15',))


def run(runner, sc, prop, res):
    from runner import Result
    execute(runner, sc, prop, res)
    bad = [v for v in res.viols if 'C15' in v['props']]
    if prop != 'C15' or not bad or res.harness:
        return
    # What a thread also does wrong when it is alone is no matter of concurrency.
    solo = set()
    for t in sc['threads']:
        alone = Result()
        runner.clean()
        os.mkdir(runner.root)
        execute(runner, dict(sc, threads=[t], switches=[]), prop, alone)
        res.processes += alone.processes
        res.harness += alone.harness
        solo |= {v['sig'] for v in alone.viols}
    for v in bad:
        if v['sig'] in solo:
            v['props'] = [p for p in v['props'] if p != 'C15']
            res.add({'solo-violations': 1})
        else:
            v['extra'].setdefault('switches', res.sched)


def scenario(g):
    from gen import Track
    from profiles import Build, err_fault, crash_fault, ps_session, schema, size
    schema(g, g.pick([1, 1, 2]))
    n = g.pick([2, 2, 2, 3, 4])
    out = []
    same = g.p(0.4)             # all threads on one schema, one backend
    bk = None
    crash = g.p(0.2)
    for tid in range(n):
        g.t = Track()
        g.t.files.add('sub')
        g.prefix = 't%d_' % tid
        if same:
            key = 'S0'
            bk = bk or g.pick(g.backends_for(g.schemas[key]))
        b = Build(g, {'clock': 0, 'tz': 0, 'fs': 0, 'plant': 1, 'copy': 5, 'save': 18, 'reload': 12}, odd=0.03, bad=g.pick([0, 0.1]), breakp=g.pick([0, 0.08]),
                  mend=0.9, backends=[bk] if same and bk else None, save=lambda: {'fault': err_fault(g)} if g.p(0.06) else {})
        b.lives.append(None)
        b.create('S0' if same else None, bk)
        b.add(g.g_fill(None, g.r.random()))
        b.steps(size(g, 2, 14))
        if g.p(0.3):
            ps_session(b)
        b.save(mend=1.0)
        if crash and g.p(0.6):
            st = g.open_slots('st', True)
            if st:
                b.add(g.g_edit(g.pick(st)))
                b.save(mend=1.0, fault=crash_fault(g))
        b.steps(g.r.randint(0, 3))
        out.append({'id': tid, 'ops': [dict(strip(op), i=i) for i, op in enumerate(b.ops)]})
    kind = g.weighted({'rand': 40, 'burst': 20, 'pct': 20, 'focus': 20})
    sched = {'kind': kind, 'seed': g.r.randrange(10 ** 9)}
    if kind == 'rand':
        sched['p'] = g.pick([0.01, 0.05, 0.2, 0.5])
    elif kind == 'burst':
        sched['len'] = g.pick([5, 30, 200, 1500])
    elif kind == 'pct':
        sched.update(depth=g.r.randint(1, 12), len=g.pick([300, 3000, 20000]))
    else:
        sched['salt'] = g.r.randrange(1000)
    if g.p(0.15):
        sched['fine'] = 1
    if g.p(0.15):
        sched['wide'] = 1
    sc = g.done([])
    del sc['lives']
    sc.update(kind='threads', threads=out, sched=sched, switches=None, end=g.weighted({'close': 40, 'exit': 30, 'kill': 30}), tz='UTC0', clock=g.clock(),
              share=int(g.p(0.6)))
    return sc


def strip(op):
    op = {k: v for k, v in op.items() if k != 'br'}
    if op.get('sp') == 3:
        op['sp'] = 0
    if isinstance(op.get('body'), list):
        op['body'] = [strip(x) for x in op['body']]
    return op
