"""One worker process: imports everything once; every run starts in a fork of this
same state, so that a run does not depend on the runs before it."""
import json
import os
import select
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world as W

sys.path.insert(0, W.REPO)


def warm():
    import threads
    threads.lock_seam()
    import dsch
    import dsch.backends.hdf5
    import dsch.backends.inmem
    import dsch.backends.mat
    import dsch.backends.npz
    import numpy as np
    import h5py
    import scipy.io as sio
    import io
    import datetime
    assert os.path.realpath(dsch.__file__).startswith(os.path.realpath(W.REPO) + os.sep), dsch.__file__
    # run the lazily initialised parts once, so that every life starts alike
    b = io.BytesIO()
    sio.savemat(b, {'a': np.zeros(3), 's': 'x', 'l': np.array([None, 1], dtype=object)[1:], 'd': {'q': 1}})
    b.seek(0)
    sio.loadmat(b)
    f = h5py.File('warm', 'w', driver='core', backing_store=False)
    f.create_group('g').create_dataset('x', data=np.zeros(3), maxshape=(None,), compression='gzip')
    f['s'] = 'text'
    f['b'] = True
    f['v'] = np.void(b'ab')
    f.attrs['x'] = 'y'
    f['s'][()]
    f.close()
    np.savez(io.BytesIO(), a=np.zeros(2))
    datetime.datetime.strptime('2000', '%Y')
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')


def put(fd, data):
    while data:
        data = data[os.write(fd, data):]


def forked(fn):
    """Run fn(write fd) in a fork; its output and exit code."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            fn(w)
            code = 0
        except BaseException:
            put(w, json.dumps({'viols': [], 'harness': [traceback.format_exc()], 'stats': {}, 'digest': [], 'states': [], 'simtime': 0, 'processes': 0, 'wall': 0}).encode())
        finally:
            os._exit(code)
    os.close(w)
    out = []
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        out.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return b''.join(out), st


def generate(line):
    def go(w):
        import profiles
        job = json.loads(line)
        sc = job.get('scenario') or profiles.scenario(job['prop'], job['seed'], job['index'], job.get('tier', 'quick'))
        put(w, json.dumps([job['prop'], sc]).encode())
    return forked(go)


def execute(shim, base, text):
    def go(w):
        import runner
        prop, sc = json.loads(text)
        t0 = time.monotonic()
        r = runner.Runner(shim, base)
        res = r.run(sc, prop)
        put(w, json.dumps({'viols': res.viols, 'harness': res.harness, 'stats': res.stats, 'digest': res.digest, 'states': sorted(res.states), 'simtime': res.simtime,
                           'processes': res.processes, 'wall': time.monotonic() - t0}, default=repr).encode())
    return forked(go)


def main():
    base = sys.argv[1]
    # What shells would expand in file names, leading to places of our own.
    os.environ['HOME'] = os.path.join(base, 'home')
    os.environ['DSCHX'] = os.environ['DSCHX1'] = 'expanded'
    os.makedirs(os.environ['HOME'], exist_ok=True)
    warm()
    import gc
    import profiles
    import runner
    shim = W.Shim()
    gc.collect()
    gc.freeze()
    gc.disable()
    out = os.dup(1)
    os.dup2(2, 1)
    os.set_inheritable(out, False)
    buf = b''
    while True:
        while b'\n' not in buf:
            d = os.read(0, 1 << 20)
            if not d:
                return
            buf += d
        line, buf = buf.split(b'\n', 1)
        text, st = generate(line)
        if st:
            put(out, b'{"answer":' + text + b',"scenario":null}\n')
            continue
        ans, st = execute(shim, base, text)
        if not ans:
            ans = json.dumps({'viols': [], 'harness': ['run process died: %r' % st], 'stats': {}, 'digest': [], 'states': [], 'simtime': 0, 'processes': 0, 'wall': 0}).encode()
        put(out, b'{"answer":' + ans + b',"scenario":' + text + b'}\n')
        text = ans = line = None


if __name__ == '__main__':
    main()
