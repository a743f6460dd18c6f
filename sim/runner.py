"""Runs scenarios: forks one process per simulated life, then later sessions."""
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

import execu
import procs
import threads
import verify
import world as W

LIMIT = float(os.environ.get('DSCHSIM_LIMIT', '60'))   # one operation, in wall-clock seconds without a sign of life
TOTAL = 300     # a whole life


class Result:
    def __init__(self):
        self.viols = []
        self.harness = []
        self.stats = {}
        self.digest = []
        self.states = set()
        self.sched = None
        self.simtime = 0
        self.processes = 0

    def add(self, stats):
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v


def frames(fd, pid, limit):
    """Decode frames until the writer is gone. Yields (kind, dict)."""
    buf = b''
    final = time.monotonic() + TOTAL
    end = time.monotonic() + limit
    while True:
        now = time.monotonic()
        if now > final:
            yield 'slow', {}
            return
        left = end - now
        if left <= 0:
            yield 'timeout', {}
            return
        r, _, _ = select.select([fd], [], [], min(left, 5))
        if not r:
            continue
        data = os.read(fd, 1 << 20)
        if not data:
            return
        buf += data
        end = time.monotonic() + limit
        while len(buf) >= 4:
            n = struct.unpack_from('<I', buf)[0]
            if len(buf) < 4 + n:
                break
            yield pickle.loads(buf[4:4 + n])
            buf = buf[4 + n:]


class Runner:
    def __init__(self, shim, base):
        self.shim = shim
        self.base = base
        self.root = os.path.join(base, 'disk')
        self.img = os.path.join(base, 'img')

    def clean(self):
        for d in (self.root, self.img):
            shutil.rmtree(d, ignore_errors=True)

    def child(self, make, on, limit=LIMIT):
        """Run make(write_fd).run() in a fork, feeding frames to on()."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
                make(w).run()
            except BaseException:
                try:
                    data = pickle.dumps(('harness', {'msg': traceback.format_exc()}), 4)
                    os.write(w, struct.pack('<I', len(data)) + data)
                finally:
                    os._exit(9)
            os._exit(9)
        os.close(w)
        timeout = False
        for kind, kw in frames(r, pid, limit):
            if kind in ('timeout', 'slow'):
                timeout = kind
                break
            if kind != 'beat':
                on(kind, kw)
        os.close(r)
        if timeout:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        return timeout or os.waitstatus_to_exitcode(st)

    def run(self, sc, prop, all_viols=False):
        """Execute a scenario; the run stops at the first violation of prop."""
        res = Result()
        self.clean()
        os.mkdir(self.root)
        try:
            if sc.get('kind') == 'threads':
                threads.run(self, sc, prop, res)
            elif sc.get('kind') == 'procs':
                procs.run(self, sc, prop, res)
            else:
                self.lives(sc, prop, res)
        finally:
            self.clean()
        return res

    def lives(self, sc, prop, res):
        durable = {}
        for li in range(len(sc['lives'])):
            d = dict(durable)
            self.one(lambda w: execu.Life(self.shim, prop, w, sc, li, self.root, self.img, d), li, len(sc['lives'][li]['ops']), prop, res, durable)
            if self.stop(res, prop):
                break

    def one(self, make, li, nops, prop, res, durable, extra=()):
        """One process life, and the later sessions judging what it left."""
        os.mkdir(self.img)
        audits, marks, ending = [], {}, []

        def on(kind, kw):
            if kind == 'viol':
                kw['life'] = li
                res.viols.append(kw)
            elif kind == 'harness':
                res.harness.append('life %d: %s' % (li, kw['msg']))
            elif kind == 'dur':
                if kw['entry'] is None:
                    durable.pop(kw['path'], None)
                else:
                    durable[kw['path']] = kw['entry']
            elif kind == 'durall':
                durable.clear()
                durable.update(kw['durable'])
            elif kind == 'audit':
                audits.append(kw['job'])
            elif kind == 'mark':
                marks[kw['path']] = set(kw['marks'])
            elif kind == 'ending':
                ending.append(kw)
            elif kind == 'bstat':
                res.add(kw['stats'])
            elif kind == 'sched':
                res.sched = kw['switches']
            elif kind == 'done':
                res.add(kw['stats'])
                res.digest.append(kw['digest'])
                res.states.update(kw['states'])
                res.simtime += kw['simtime']
        code = self.child(make, on)
        res.processes += 1
        where = [li, nops]
        props = sorted({prop} | set(extra))
        if code == 'slow':
            res.harness.append('life %d took more than %d s' % (li, TOTAL))
        elif code == 'timeout':
            res.viols.append({'props': props, 'sig': 'hang', 'msg': 'an operation in life %d did not finish within %g s' % (li, LIMIT), 'where': where, 'extra': {}, 'life': li})
        elif code == 138:
            res.viols.append({'props': props, 'sig': 'livelock', 'msg': 'more than 100000 I/O operations in one call', 'where': where, 'extra': {}, 'life': li})
        elif code == 137:
            res.add({'life-end-crash': 1})
            res.digest.append('crash')
        elif code != 0 and code != 9:
            res.viols.append({'props': props, 'sig': 'died', 'msg': 'the process died (%s) in life %d' % (code, li), 'where': where, 'extra': {}, 'life': li})
        elif code == 9 and not res.harness:
            res.harness.append('life %d ended with code 9' % li)
        if self.stop(res, prop):
            return
        for job in audits:
            self.audit(job, prop, res)
            if self.stop(res, prop):
                return
        shutil.rmtree(self.img)
        crashed = code == 137
        dirty = set(ending[0]['dirty']) if ending else set(marks)
        end = ending[0]['end'] if ending else 'crash'
        for path in sorted(marks):
            m = marks[path]
            props = {'C01'} | set(extra)
            if crashed:
                props.add('C02')
            if path in dirty and not crashed:
                props.add('C08')
            if m <= {'load', 'copysrc'}:
                props.add('C07')
            if 'savefail' in m:
                props.add('C03')
            if 'refused' in m:
                props |= {'C04', 'C08'}
            if 'copy' in m:
                props.add('C10')
            if 'ps' in m:
                props.add('C14')
            self.audit({'dir': self.root, 'path': path, 'entry': durable.get(path), 'props': sorted(props), 'label': 'next-session-' + end,
                        'recover': False, 'ack': False, 'where': where, 'branch': None}, prop, res)
            if self.stop(res, prop):
                return

    def audit(self, job, prop, res):
        def on(kind, kw):
            if kind == 'viol':
                kw['life'] = job['where'][0] if job['where'] else None
                res.viols.append(kw)
            elif kind == 'harness':
                res.harness.append('audit %s: %s' % (job['label'], kw['msg']))
            elif kind == 'audited':
                res.add(kw['stats'])
        code = self.child(lambda w: verify.Audit(self.shim, prop, w, job), on)
        res.processes += 1
        if code == 'slow':
            res.harness.append('audit %s took more than %d s' % (job['label'], TOTAL))
        elif code == 'timeout' or code not in (0, 9):
            res.viols.append({'props': sorted(set(job['props']) | {prop}) if code != 'timeout' else job['props'], 'sig': job['label'] + '/died', 'msg': 'loading ended with %s' % code, 'where': job['where'],
                              'extra': {'branch': job.get('branch')}, 'life': None})

    def stop(self, res, prop):
        return bool(res.harness) or any(prop in v['props'] for v in res.viols)
