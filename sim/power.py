"""Disk states that a power loss may leave behind, derived from the recorded I/O.

Data written to a file is only certain to be on disk after that file has been
synced; names (creations, renames, removals) only after a directory sync.
Before that, any part of the written data and any prefix of the name changes
may have arrived.
"""
import world as W


class Rng:
    def __init__(self, seed):
        self.x = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & (2 ** 64 - 1)

    def __call__(self, n):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
        return (self.x >> 33) % n


def apply(content, op, part=None):
    if op[0] == 'w':
        data = op[2] if part is None else op[2][:part]
        if len(content) < op[1]:
            content = content + bytes(op[1] - len(content))
        return content[:op[1]] + data + content[op[1] + len(data):]
    n = op[1]
    return content[:n] + bytes(max(0, n - len(content)))


class Model:
    def __init__(self, disk):
        self.names = {}      # volatile: path -> inode
        self.synced = {}     # inode -> content certainly on disk
        self.pending = {}    # inode -> operations since
        self.base = {}       # durable names
        self.meta = []       # name changes since the last directory sync
        self.n = 0
        self.other = {}
        for p, c in disk.items():
            if isinstance(c, bytes):
                self.names[p] = self.new(c)
            else:
                self.other[p] = c
        self.base = dict(self.names)

    def new(self, content=b''):
        self.n += 1
        self.synced[self.n] = content
        self.pending[self.n] = []
        return self.n

    def step(self, r):
        t, p = r[0], r[1]
        if t == W.R_OPENW:
            if p not in self.names:
                if r[5] & 0o100:
                    self.names[p] = self.new()
                    self.meta.append(('set', p, self.names[p]))
            elif r[4]:
                self.pending[self.names[p]].append(('t', 0))
        elif t == W.R_WRITE and p in self.names:
            self.pending[self.names[p]].append(('w', r[4], r[7] or b''))
        elif t == W.R_TRUNC and p in self.names:
            self.pending[self.names[p]].append(('t', r[4]))
        elif t == W.R_RENAME and p in self.names:
            i = self.names.pop(p)
            self.names[r[2]] = i
            self.meta.append(('mv', p, r[2], i))
        elif t == W.R_LINK and p in self.names:
            self.names[r[2]] = self.names[p]
            self.meta.append(('set', r[2], self.names[p]))
        elif t == W.R_UNLINK and p in self.names:
            del self.names[p]
            self.meta.append(('del', p))
        elif t == W.R_FSYNC:
            if r[2]:
                self.base = dict(self.names)
                self.meta = []
            elif p in self.names:
                i = self.names[p]
                c = self.synced[i]
                for op in self.pending[i]:
                    c = apply(c, op)
                self.synced[i] = c
                self.pending[i] = []

    def image(self, rng, mode):
        names = dict(self.base)
        m = {'none': 0, 'all': len(self.meta), 'late': len(self.meta)}.get(mode)
        if m is None:
            m = rng(len(self.meta) + 1)
        for op in self.meta[:m]:
            if op[0] == 'set':
                names[op[1]] = op[2]
            elif op[0] == 'mv':
                names.pop(op[1], None)
                names[op[2]] = op[3]
            else:
                names.pop(op[1], None)
        out = dict(self.other)
        for p, i in names.items():
            c = self.synced[i]
            ops = self.pending[i]
            if mode == 'all':
                keep = [(op, None) for op in ops]
            elif mode in ('none', 'late'):
                keep = []
            elif mode == 'prefix':
                k = rng(len(ops) + 1)
                keep = [(op, None) for op in ops[:k]]
                if k < len(ops) and ops[k][0] == 'w':
                    keep.append((ops[k], rng(len(ops[k][2]) + 1)))
            else:
                keep = [(op, None) for op in ops if rng(2)]
            for op, part in keep:
                c = apply(c, op, part)
            out[p] = c
        return out, m


MODES = ('none', 'late', 'prefix', 'subset', 'all')


def images(start, recs, first, seed, pmax):
    """Yield (label, disk, after): disk states for a power loss during or right
    after the operation whose records start at index first."""
    recs = [r for r in recs if r[0] in W.RNAME]
    rng = Rng(seed)
    n = len(recs)
    want = {}
    want.setdefault(n, []).append('none')
    if pmax > 1:
        want.setdefault(n, []).append('prefix')
    ren = [i + 1 for i in range(first, n) if recs[i][0] == W.R_RENAME]
    for i in ren[:2]:
        want.setdefault(i, []).append('late')
    for _ in range(max(0, pmax - 2)):
        k = first + rng(max(1, n - first))
        want.setdefault(k, []).append(MODES[rng(len(MODES))])
    m = Model(start)
    for i in range(n + 1):
        for mode in want.get(i, ()):
            disk, k = m.image(rng, mode)
            yield '%s:%d:%d' % (mode, i - first, k), disk, i == n
        if i < n:
            m.step(recs[i])
