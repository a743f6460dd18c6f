"""Decides one property by seeded simulation, or replays a recorded violation.

    check.py PROPERTY              seeds from VERIF_SEED, depth from VERIF_TIER
    check.py --replay FILE         execute a replay file, compare with its record
"""
import argparse
import collections
import hashlib
import json
import os
import shutil
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import minimise
import pool as pool_
import world as W

BUDGET = {'quick': 55, 'thorough': 1500}
QUICK = {'C23': 100, 'C12': 80, 'C15': 80, 'C05': 70, 'C03': 70}    # slower runs
LIMITRUNS = {'quick': 6000, 'thorough': 10 ** 9}

# what has to have happened in a run for it to say something about the property
RELEVANT = {
    'C01': ['audit-ack', 'audit-next-session', 'audit-closed', 'op-load'],
    'C02': ['audit-crash-in-save', 'audit-power-loss', 'life-end-crash'],
    'C03': ['save-failed-by-fault', 'audit-failed-save', 'retries', 'ps-close-failed'],
    'C04': ['save-refused-invalid', 'location-checked', 'forced-invalid-saved', 'op-validate'],
    'C05': ['damage-', 'load-refused-under-fault', 'audit-next-session', 'op-load'],
    'C06': ['op-load', 'op-ps_open', 'op-ps_new'],
    'C07': ['op-load', 'op-inspect', 'op-validate', 'audit-next-session'],
    'C08': ['audit-next-session', 'audit-closed', 'audit-refused-save'],
    'C09': ['stamps-checked'],
    'C10': ['copy-', 'lf-', 'incompatible-refused'],
    'C11': ['op-create', 'op-copy', 'op-save'],
    'C12': ['op-set', 'op-append', 'op-trep', 'op-clear', 'op-setitem', 'op-resize'],
    'C13': ['refused-set', 'refused-append', 'refused-trep', 'op-misassign'],
    'C14': ['ps-opened', 'ps-closed', 'ps-close-failed', 'ps-node-opened'],
    'C15': ['thread-switches'],
    'C16': ['layout-', 'audit-planted'],
    'C17': ['op-inspect', 'op-set', 'op-append', 'op-load', 'op-lf'],
    'C20': ['op-set', 'op-append', 'op-load', 'op-lf', 'op-clear'],
    'C21': ['op-load', 'op-save', 'op-copy', 'op-ps_open', 'damage-'],
    'C22': ['proc-overlaps'],
    'C23': ['raise-'],
}

REAL = ['all of dsch (/repo/dsch, unmodified, no hooks)', 'NumPy', 'SciPy (scipy.io)', 'h5py and libhdf5', 'CPython, zipfile, json, datetime, libc']
STUB = ['disk system calls: real tmpfs below a recording and fault-injecting seam (sim/shim.c)', 'CLOCK_REALTIME: virtual', 'entropy (getrandom): seeded stream',
        'process death: _exit inside the chosen system call', 'power loss: reconstructed from the recorded write/fsync/rename log',
        'thread scheduling (C15): one thread runs at a time, chosen by the seeded scheduler; locks created by dsch are scheduler-aware',
        'process scheduling (C22): one process runs at a time, chosen by the seeded scheduler at every disk operation and look at a file name',
        'signals (C23): the exception is raised by a trace function at a chosen instruction at which CPython would run a signal handler']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, prop, tier, seed, budget=None, workers=None, runs=None, start=0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.budget = budget or (QUICK.get(prop) if tier == 'quick' else None) or BUDGET[tier]
        self.nwork = workers or max(1, min(8, os.cpu_count() or 1))
        self.maxruns = runs or LIMITRUNS[tier]
        self.start = start
        self.stats = collections.Counter()
        self.digests = {}
        self.states = set()
        self.runs = self.nontrivial = 0
        self.simtime = 0
        self.processes = 0
        self.samples = []
        self.viols = []
        self.harness = []
        self.unreproduced = []
        self.known_seen = []

    def run(self):
        self.t0 = time.monotonic()
        self.pool = pool_.Pool(self.nwork)
        try:
            code = self.known()
            if code == 0:
                code = self.search()
        finally:
            self.pool.close()
        self.evidence(code)
        return code

    # -- known findings -----------------------------------------------------------
    def known(self):
        """Scenarios of recorded findings: still failing the same way, and only so."""
        out = []
        for f in known_findings():
            if f['property'] != self.prop:
                continue
            with open(os.path.join(VERIF, f['scenario'])) as fh:
                sc = json.load(fh)
            out.append((f, sc['scenario']))
        if not out:
            return 0
        res = {}
        self.pool.map(({'prop': self.prop, 'scenario': sc, 'n': i} for i, (f, sc) in enumerate(out)), lambda job, ans, sc: res.__setitem__(job['n'], (ans, sc)))
        for i, (f, _) in enumerate(out):
            if i not in res:
                log('no result for known finding', f['scenario'])
                return 2
            ans, sc = res[i]
            if ans['harness']:
                log(ans['harness'][0])
                return 2
            mine = [v for v in ans['viols'] if self.prop in v['props']]
            if mine and mine[0]['sig'] == f['sig']:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']), flush=True)
                self.known_seen.append(f['what'])
            elif mine:
                return self.report(sc, mine[0], ans, 'known-%s' % os.path.basename(f['scenario']))
        return 0

    # -- search -------------------------------------------------------------------
    def search(self):
        found = []
        deadline = self.t0 + self.budget

        def jobs():
            i = self.start
            while i < self.start + self.maxruns:
                yield {'prop': self.prop, 'seed': self.seed, 'index': i, 'tier': self.tier}
                i += 1

        def on(job, ans, sc):
            self.account(job, ans, sc)
            mine = [v for v in ans['viols'] if self.prop in v['props']]
            if mine:
                found.append((job['index'], sc, mine[0], ans))
                return True
            if ans['harness']:
                self.harness.append((job['index'], ans['harness'][0]))
                return len(self.harness) > self.tolerated()
            return False
        while True:
            self.pool.map(jobs(), on, deadline)
            for index, sc, v, ans in sorted(found, key=lambda x: x[0]):
                code = self.report(sc, v, ans, str(index))
                if code:
                    return code
            if not found or time.monotonic() > deadline or len(self.harness) > self.tolerated():
                break
            self.start = max(max(x[0] for x in found) + 1, self.start + 1)
            found.clear()
        for e in self.pool.errors:
            log('note:', e)
        if self.harness:
            for i, h in self.harness[:3]:
                log('HARNESS ERROR in run %s of %s, seed %s:\n%s' % (i, self.prop, self.seed, h))
        if len(self.harness) > self.tolerated():
            return 2
        if not self.runs:
            log('no run was completed')
            return 2
        return 0

    def tolerated(self):
        """Runs that may come without an answer; they are reported in the evidence."""
        return 2 + self.runs // 500

    def account(self, job, ans, sc):
        self.runs += 1
        self.stats.update(ans['stats'])
        self.simtime += ans['simtime']
        self.processes += ans['processes']
        self.states.update(ans['states'])
        nontrivial = any(v > 0 for k, v in ans['stats'].items() if any(k.startswith(r) for r in RELEVANT[self.prop]))
        h = hashlib.md5('/'.join(ans['digest']).encode()).hexdigest()
        if nontrivial and h not in self.digests:
            self.nontrivial += 1
            self.digests[h] = job['index']
            if len(self.samples) < 3 and sc:
                self.samples.append(sample(job, sc, ans))

    def report(self, sc, v, ans, name):
        """Confirm, minimise, write the replay file. 1 if it is a real violation."""
        first = (v['sig'], v['where'])
        for attempt in range(3):
            again = []
            self.pool.map([{'prop': self.prop, 'scenario': sc}], lambda j, a, s: again.append(a))
            hit = [x for x in again[0]['viols'] if self.prop in x['props']] if again else []
            if hit and (hit[0]['sig'], hit[0]['where']) == first:
                break
        else:
            self.unreproduced.append({'run': name, 'sig': v['sig'], 'msg': v['msg']})
            log('note: run %s reported %s, which did not happen again: %s' % (name, v['sig'], v['msg']))
            return 0
        log('run %s violates %s (%s): %s' % (name, self.prop, v['sig'], v['msg']))
        m = minimise.Minimiser(self.pool, self.prop, sc, hit[0], 60 if self.tier == 'quick' else 300)
        best, bv = m.run()
        last = []
        self.pool.map([{'prop': self.prop, 'scenario': best}], lambda j, a, s: last.append((a, s)))
        ok = last and minimise.same(bv, last[0][0], self.prop)
        if not ok:
            best, bv, a = sc, hit[0], again[0]
        else:
            a = last[0][0]
            bv = minimise.same(bv, a, self.prop)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%d-%s.json' % (self.prop, self.seed, name.replace('.json', '')))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'seed': self.seed, 'run': name, 'violation': bv, 'digest': a['digest'], 'minimised': bool(ok),
                       'candidates_tried': m.tried, 'scenario': best}, f, indent=1)
        self.viols.append(bv)
        print('%s: %s' % (bv['sig'], bv['msg'][:1000]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        return 1

    # -- evidence -----------------------------------------------------------------
    def evidence(self, code):
        wall = time.monotonic() - self.t0
        st = self.stats
        faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault-')}
        faults.update({k: v for k, v in sorted(st.items()) if k.startswith(('damage-', 'power-', 'life-end-', 'clock-', 'tz-changed', 'branches'))})
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': self.runs,
                'distinct_nontrivial': self.nontrivial,
                'rule': 'One evaluation is one simulated run (all its process lives, alternative futures and later sessions) of the scenario generated from '
                        '(VERIF_SEED, property, run index). Distinct: the hash over operations, model states, disk operations%s differs from all runs before. '
                        'Non-trivial: at least one of these events happened in it: %s.' % (', schedule' if self.prop in ('C15', 'C22') else '', ', '.join(RELEVANT[self.prop])),
                'samples': self.samples,
                'seeds_per_hour': round(self.runs / wall * 3600) if wall else 0,
                'simulated_processes': self.processes,
                'simulated_time_s': round(self.simtime / 1e9, 3),
                'distinct_states': len(self.states),
                'distinct_states_measure': 'distinct (operation, model state of all open storages) pairs reached',
                'faults_injected': faults,
                'events': {k: v for k, v in sorted(st.items()) if not k.startswith('fault-')},
                'real_components': REAL,
                'stubbed_components': STUB,
                'workers': self.nwork,
                'known_findings_seen': self.known_seen,
                'unreproduced': self.unreproduced,
                'runs_without_answer': [i for i, _ in self.harness],
                'outcome': code,
            },
            'assumptions': ['tmpfs behaves like the disk file systems deployments use, apart from the injected faults',
                            'the reference model, validator and layout readers in sim/ express the documented behaviour',
                            'input domain exclusions listed in DESIGN.md'],
            'wall_s': round(wall, 2),
            'violations': len(self.viols),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', self.prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))


def sample(job, sc, ans):
    ops = [str(op)[:160] for l in sc.get('lives', sc.get('threads', ())) for op in l['ops']]
    return {'run': job['index'], 'lives_or_threads': len(sc.get('lives', sc.get('threads', ()))), 'operations': ops[:12] + (['... %d more' % (len(ops) - 12)] if len(ops) > 12 else []),
            'schemas': {k: str(v)[:300] for k, v in sc['schemas'].items()}, 'processes': ans['processes'], 'digest': ans['digest'][:3]}


def known_findings():
    """Lines: finding: property=C04 scenario=known/x.json sig=save-refused what..."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if not line.startswith('finding:'):
                    continue
                w = line.split(None, 4)
                kv = dict(x.split('=', 1) for x in w[1:4])
                out.append(dict(kv, what=w[4].strip()))
    return out


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = rec['property']
    p = pool_.Pool(1)
    out = []
    try:
        p.map([{'prop': prop, 'scenario': rec['scenario']}], lambda j, a, s: out.append(a))
    finally:
        p.close()
    if not out or out[0]['harness']:
        log(out[0]['harness'][0] if out else 'no result')
        return 2
    a = out[0]
    mine = [v for v in a['viols'] if prop in v['props']]
    if not mine:
        print('no violation of %s' % prop)
        return 0
    v, want = mine[0], rec.get('violation')
    print('%s: %s' % (v['sig'], v['msg']))
    if want:
        same = v['sig'] == want['sig'] and v['where'] == want['where'] and a['digest'] == rec['digest']
        print('same as recorded' if same else 'differs from the record')
    print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))
    if a.replay:
        return replay(a.replay)
    return Check(a.prop, a.tier if a.tier in BUDGET else 'quick', a.seed, a.budget, a.workers, a.runs, a.start).run()


if __name__ == '__main__':
    sys.exit(main())
