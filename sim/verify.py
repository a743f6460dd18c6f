"""A later session, in a fresh process, judging what a path holds."""
import gc
import json
import os
import time
import traceback

import layout
import schemas as S
import world as W
from execu import GONE, WHOLE, Base, StopRun, listing


class Audit(Base):
    def __init__(self, shim, prop, out_fd, job):
        super().__init__(shim, prop, out_fd)
        self.job = job
        self.where = job.get('where')
        self.stats = {}
        self.props = set(job['props'])

    def viol(self, props, sig, msg, **kw):
        super().viol(props, self.job['label'] + '/' + sig, msg, branch=self.job.get('branch'), path=self.job['path'], **kw)

    def run(self):
        job = self.job
        os.environ['TZ'] = 'UTC0'
        time.tzset()
        self.dir = job['dir']
        self.path = os.path.join(self.dir, job['path'])
        self.before = listing(self.dir)
        os.chdir(self.dir)
        self.shim.begin(self.dir, False, 77)
        self.shim.lib.sim_clock(1, 2_044_444_444_123_456_789, 1_000_003)
        gc.disable()
        try:
            self.judge()
        except StopRun:
            pass
        self.emit('audited', stats=self.stats)
        os._exit(0)

    def load(self, force=False):
        import dsch
        e = self.job['entry']
        try:
            return dsch.load(self.path, backend=e['backend'] if e else None, **({'force': True} if force else {})), None
        except Exception as exc:
            exc.__traceback__ = None
            return None, exc

    def judge(self):
        job, e = self.job, self.job['entry']
        self.count('audit-' + job['label'])
        exists = os.path.lexists(self.path)
        if e is None or not e['alts']:
            if exists and job['path'].endswith(('.npz', '.h5', '.hdf5', '.mat')):
                st, exc = self.load(True)
                if exc is None:
                    self.viol(self.props | {'C08'}, 'never-saved', 'data that was never saved was loaded from %s' % job['path'])
                st = None
            return
        spec, alts = e['spec'], e['alts']
        verdicts = [S.verdict(spec, a)[0] for a in alts]
        ctx = set(e.get('ctx', ()))
        props = self.props | ctx
        if not exists:
            if not e['absent']:
                self.viol(props, 'lost', 'nothing exists at %s any more' % job['path'])
            elif job.get('recover'):
                self.recover(spec, None)
            return
        if not os.path.isfile(self.path) or os.path.islink(self.path):
            self.viol(props | {'C16', 'C11'}, 'no-file', '%s is no regular file' % job['path'])
        got = None
        for force in (False, True):
            if force and got is not None and set(verdicts) == {'valid'}:
                break
            st, exc = self.load(force)
            if exc is not None:
                self.count('audit-refused')
                if e['absent']:
                    continue
                if force or set(verdicts) == {'valid'}:
                    self.viol(props, 'refused', 'loading %s%s raised %r' % (job['path'], ' with force' if force else '', exc))
                elif set(verdicts) == {'invalid'} and len(alts) == 1:
                    self.location(spec, alts[0], exc, {'C04', 'C05'})
                continue
            obs = self.observe(st.data, spec, props)
            match = [i for i, a in enumerate(alts) if not S.diff(a, obs)]
            if not match:
                d = min((S.diff(a, obs) for a in alts), key=len)
                self.viol(props | self.diff_props(spec, d), 'differs', '%s loads as something that was never saved: %s' % (job['path'], self.show_diff(d)))
                continue
            if not force and all(verdicts[i] == 'invalid' for i in match):
                self.viol({'C05', 'C04'}, 'invalid', 'data violating its schema was loaded without force')
            got = obs
            self.data_tree(st.data, obs)
            self.node_tree(st.data, spec, obs)
            if st.complete is not S.is_complete(spec, obs):
                self.viol({'C17'}, 'storage-complete', 'storage.complete is %r' % (st.complete,))
            self.check_schema(st, spec, props)
            if not force:
                self.count('audit-loaded')
            st = None
        st = None
        gc.collect()
        self.unchanged(e)
        if job.get('ack'):
            self.check_layout(spec, alts[0], e['backend'])
        if job.get('recover') and (got is not None or e['absent']):
            self.recover(spec, got)

    def location(self, spec, tree, exc, props):
        from execu import Life
        Life.check_location(self, spec, tree, exc, props)

    def unchanged(self, e):
        now = listing(self.dir)
        for p in sorted(set(now) | set(self.before)):
            if now.get(p, GONE) != self.before.get(p, GONE):
                if p == self.job['path'] and e['backend'] not in WHOLE:
                    continue
                self.viol({'C07', 'C11'} if p != self.job['path'] else {'C07'}, 'read-changed', 'loading and inspecting changed %s' % p)

    def check_layout(self, spec, want, backend):
        if any(c and isinstance(c[-1], tuple) for p, s, c in S.leaves(spec, want)) and backend == 'x':
            return
        try:
            text, tree, left = layout.read(self.path, backend, spec)
        except Exception as exc:
            self.viol({'C16'}, 'layout', 'reading %s without dsch: %s: %s' % (self.job['path'], type(exc).__name__, exc))
            return
        try:
            ok = S.norm(json.loads(text)) == S.norm(S.clean(spec))
        except Exception:
            ok = False
        if not ok:
            self.viol({'C16', 'C06'}, 'layout-schema', 'the schema text in the file is %s' % str(text)[:200])
        d = S.diff(want, tree)
        if d:
            self.viol({'C16', 'C01'}, 'layout-data', 'read without dsch, the file shows %s' % self.show_diff(d))
        if left:
            self.viol({'C16'}, 'layout-left', 'the file contains left-overs: %s' % left[:4])
        self.count('layout-' + backend)

    def recover(self, spec, tree):
        """After an interruption the path must be usable: load, edit, save, load."""
        import dsch
        e = self.job['entry']
        try:
            if tree is None:
                if os.path.lexists(self.path):
                    return
                st = dsch.create(self.path, S.build(spec), backend=e['backend'])
                want = self.observe(st.data, spec, self.props)
            else:
                st = dsch.load(self.path, backend=e['backend'], force=True)
                want = tree
                for p, s, c in S.leaves(spec, tree):
                    if c is not None and not any(isinstance(x, int) for x in p):
                        n = st.data
                        for x in p:
                            n = getattr(n, x)
                        n.clear()
                        n = None
                        want = S.put(tree, p, ('I', None))
                        break
            st.save(force=True)
            st = None
            gc.collect()
            st = dsch.load(self.path, backend=e['backend'], force=True)
            obs = self.observe(st.data, spec, self.props)
            d = S.diff(want, obs)
            if d:
                self.viol(self.props | {'C01'}, 'recover-differs', 'after recovery, a new save loads as %s' % self.show_diff(d))
            self.count('recovered')
        except StopRun:
            raise
        except Exception as exc:
            self.viol(self.props, 'recover', 'after the interruption, using the path again raised %r' % exc)
