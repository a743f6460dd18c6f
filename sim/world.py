"""Access to the seam (shim.c) and the scratch space of one simulation worker."""
import ctypes
import mmap
import os
import shutil
import struct
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DSCH_REPO', '/repo')
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

(R_PATH, R_OPENW, R_OPENR, R_WRITE, R_READ, R_TRUNC, R_RENAME, R_UNLINK, R_LINK, R_MKDIR,
 R_FSYNC, R_CLOSE, R_CLOCK, R_FAULT, R_CRASH, R_MARK) = range(1, 17)
RNAME = {R_OPENW: 'create', R_OPENR: 'open', R_WRITE: 'write', R_READ: 'read', R_TRUNC: 'truncate', R_RENAME: 'rename',
         R_UNLINK: 'unlink', R_LINK: 'link', R_MKDIR: 'mkdir', R_FSYNC: 'fsync', R_CLOSE: 'close'}
(F_ERR, F_SHORT, F_PARTIAL, F_CRASH_BEFORE, F_CRASH_TORN, F_CRASH_AFTER, F_STICKY, F_SIGNAL, F_RAISE) = range(1, 10)
FNAME = {F_ERR: 'error', F_SHORT: 'short', F_PARTIAL: 'partial-then-error', F_CRASH_BEFORE: 'crash-before',
         F_CRASH_TORN: 'crash-torn', F_CRASH_AFTER: 'crash-after', F_STICKY: 'persistent-error', F_SIGNAL: 'interrupt', F_RAISE: 'raise'}
REC = struct.Struct('<IIIiQQII')
HDR = struct.Struct('<QQQQ')


def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp'):
        try:
            p = tempfile.mkdtemp(prefix='dschsim-', dir=d)
            return p
        except OSError:
            continue
    raise RuntimeError('no scratch space')


def build_shim(target_dir):
    """Compile the seam; returns the path of the shared object."""
    so = os.path.join(target_dir, 'shim.so')
    src = os.path.join(HERE, 'shim.c')
    cc = shutil.which('gcc') or shutil.which('clang') or shutil.which('cc')
    tmp = so + '.%d' % os.getpid()
    subprocess.run([cc, '-O2', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
    os.replace(tmp, so)
    return so


class Shim:
    """The seam, inside a simulated process."""

    def __init__(self, size=96 << 20):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.sim_present()
        except AttributeError:
            raise RuntimeError('the seam is not preloaded')
        lib = self.lib
        i64, u64, lng, cint = ctypes.c_int64, ctypes.c_uint64, ctypes.c_long, ctypes.c_int
        lib.sim_init.argtypes = [ctypes.c_void_p, u64]
        lib.sim_begin.argtypes = [ctypes.c_char_p, cint, u64]
        lib.sim_fault.argtypes = [cint, lng, cint, lng, lng]
        lib.sim_clock.argtypes = [cint, i64, i64]
        lib.sim_clock_now.restype = i64
        lib.sim_clock_add.argtypes = [i64]
        lib.sim_clock_jump.argtypes = [lng, i64]
        for f in ('sim_wcount', 'sim_rcount', 'sim_creads'):
            getattr(lib, f).restype = lng
        lib.sim_used.restype = u64
        lib.sim_log_trunc.argtypes = [u64]
        self.mm = mmap.mmap(-1, size)
        self.size = size
        self._anchor = ctypes.c_char.from_buffer(self.mm)
        lib.sim_init(ctypes.addressof(self._anchor), size)
        lib.sim_log_reset()

    def begin(self, root, logdata, seed):
        self.lib.sim_log_reset()
        self.lib.sim_begin(os.fsencode(root), 1 if logdata else 0, seed & (2 ** 64 - 1))

    def used(self):
        return HDR.unpack_from(self.mm, 0)[0]

    def overflow(self):
        return HDR.unpack_from(self.mm, 0)[2]

    def records(self, start=None, end=None):
        """(type, path, path2, res, off, len, crc, data) with path names resolved."""
        pos = HDR.size
        end = self.used() if end is None else end
        start = pos if start is None else start
        names = {}
        out = []
        while pos < end:
            t, p, p2, res, off, ln, crc, dlen = REC.unpack_from(self.mm, pos)
            data = None
            if t == R_PATH:
                names[p] = os.fsdecode(self.mm[pos + REC.size:pos + REC.size + dlen]).lstrip('/')
            elif pos >= start:
                if dlen:
                    data = self.mm[pos + REC.size:pos + REC.size + dlen]
                if t == R_CLOCK or t == R_MARK:
                    out.append((t, p, p2, res, off, ln, crc, data))
                elif t == R_RENAME or t == R_LINK:
                    out.append((t, names.get(p, '?'), names.get(p2, '?'), res, off, ln, crc, data))
                else:
                    out.append((t, names.get(p, '?'), p2, res, off, ln, crc, data))
            pos += REC.size + ((dlen + 7) & ~7)
        return out
