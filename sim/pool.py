"""A pool of simulation workers, each with its own scratch space."""
import ctypes
import json
import os
import selectors
import shutil
import signal
import subprocess
import time

import world as W

HERE = os.path.dirname(os.path.abspath(__file__))


def _fixed_layout():
    os.setpgid(0, 0)
    try:
        ctypes.CDLL(None).personality(0x0040000)     # no address space randomisation
    except Exception:
        pass


class Worker:
    def __init__(self, pool, n):
        self.pool = pool
        self.base = os.path.join(pool.base, 'w%02d' % n)
        os.makedirs(self.base, exist_ok=True)
        self.proc = None
        self.job = None
        self.since = 0
        self.buf = b''
        self.start()

    def start(self):
        self.log = os.path.join(self.base, 'log')
        with open(self.log, 'ab') as log:
            self.proc = subprocess.Popen([W.PYTHON, os.path.join(HERE, 'worker.py'), self.base], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=log,
                                         env=self.pool.env, preexec_fn=_fixed_layout, bufsize=0, cwd=self.base)
        self.buf = b''

    def kill(self):
        for line in self.children():
            try:
                os.kill(line, signal.SIGKILL)
            except OSError:
                pass
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        self.proc.stdin.close()
        self.proc.stdout.close()

    def children(self):
        """All descendants (lives have process groups of their own)."""
        out, todo = [], [self.proc.pid]
        while todo:
            p = todo.pop()
            try:
                with open('/proc/%d/task/%d/children' % (p, p)) as f:
                    kids = [int(x) for x in f.read().split()]
            except OSError:
                continue
            out += kids
            todo += kids
        return out


class Pool:
    def __init__(self, n, limit=60, env=None):
        self.base = W.scratch_base()
        so = W.build_shim(self.base)
        self.env = dict({k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'DSCH_REPO')},
                        LD_PRELOAD=so, PYTHONHASHSEED=os.environ.get('DSCHSIM_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                        DSCHSIM_LIMIT=str(limit), HDF5_USE_FILE_LOCKING='TRUE', PYTHONNOUSERSITE='1')
        self.env.pop('LC_ALL', None)
        self.env['LC_ALL'] = 'C.UTF-8'
        self.env.update(env or {})
        self.workers = [Worker(self, i) for i in range(n)]
        self.errors = []

    def map(self, jobs, on, deadline=None, stall=400):
        """Feed jobs (an iterator) to the workers; on(job, answer, scenario) returns
        True to stop handing out further jobs."""
        jobs = iter(jobs)
        stop = False
        sel = selectors.DefaultSelector()
        busy = 0

        def give(w):
            nonlocal busy, stop
            if stop or (deadline and time.monotonic() > deadline):
                return
            try:
                w.job = next(jobs)
            except StopIteration:
                stop = True
                return
            w.since = time.monotonic()
            w.buf = b''
            try:
                w.proc.stdin.write(json.dumps(w.job).encode() + b'\n')
            except OSError:
                pass
            sel.register(w.proc.stdout, selectors.EVENT_READ, w)
            busy += 1
        for w in self.workers:
            give(w)
        while busy:
            for key, _ in sel.select(1.0):
                w = key.data
                d = os.read(w.proc.stdout.fileno(), 1 << 20)
                if not d:
                    sel.unregister(w.proc.stdout)
                    busy -= 1
                    job, w.job = w.job, None
                    self.errors.append('a worker died (%s): %s' % (w.proc.wait(), self.tail(w)))
                    if len(self.errors) > 5:
                        raise RuntimeError('workers keep dying: %s' % self.errors[-1])
                    w.kill()
                    w.start()
                    give(w)
                    continue
                w.buf += d
                if w.buf.endswith(b'\n'):
                    sel.unregister(w.proc.stdout)
                    busy -= 1
                    ans = json.loads(w.buf)
                    w.buf = b''
                    job, w.job = w.job, None
                    sc = ans['scenario'][1] if ans['scenario'] else None
                    if on(job, ans['answer'], sc):
                        stop = True
                    give(w)
            now = time.monotonic()
            for w in self.workers:
                if w.job is not None and now - w.since > stall:
                    sel.unregister(w.proc.stdout)
                    busy -= 1
                    self.errors.append('run %s stalled' % {k: v for k, v in w.job.items() if k != 'scenario'})
                    w.job = None
                    w.kill()
                    w.start()
                    give(w)
        sel.close()

    def tail(self, w):
        try:
            with open(w.log, 'rb') as f:
                return f.read()[-2000:].decode('utf-8', 'replace')
        except OSError:
            return ''

    def close(self):
        for w in self.workers:
            w.kill()
        shutil.rmtree(self.base, ignore_errors=True)
