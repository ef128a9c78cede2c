# What the file system looks like after every prefix of the recorded operations, and what could be left of it after a power loss
OPEN, WRITE, TRUNC, RENAME, UNLINK, LINK, FSYNC, CHMOD, CLOSE, SYMLINK, FAULT, NET = range(1, 13)
O_TRUNC, O_APPEND = 0o1000, 0o2000

class Inode:
    def __init__(self, data=b"", mode=0, initial=False):
        self.data = bytearray(data)
        self.synced = bytes(data)
        self.pending = []          # (offset, bytes) or ("t", length) since the last fsync
        self.mode = mode
        self.initial = initial     # was there before this update
        self.touched = False       # has been modified although it was there before

class FS:
    def __init__(self, files):
        """files: path -> (content, mode)"""
        self.names = {p: Inode(d, m, True) for p, (d, m) in files.items()}
        self.fds = {}
        self.durable = dict(self.names)   # names as of the last fsync
        self.lastsync = 0
        self.n = 0
        self.history = [dict(self.names)]
    def _target(self, r):
        if r.fd >= 0: return self.fds.get((r.who, r.fd))
        return self.names.get(r.p1)
    def apply(self, r):
        """Applies one record; returns whether anything might have changed"""
        self.n += 1
        op = r.op
        if op == OPEN:
            ino = self.names.get(r.p1)
            if ino is None:
                ino = self.names[r.p1] = Inode(mode=(r.b >> 1) & 0o7777)
            self.fds[r.who, r.fd] = ino
            if r.a & O_TRUNC and ino.data:
                self._trunc(ino, 0)
        elif op == WRITE:
            ino = self._target(r)
            if ino is None: return False
            if len(ino.data) < r.a: ino.data.extend(bytes(r.a - len(ino.data)))
            ino.data[r.a:r.a + len(r.p1)] = r.p1
            ino.pending.append((r.a, r.p1))
            if ino.initial: ino.touched = True
        elif op == TRUNC:
            ino = self._target(r)
            if ino is None: return False
            if len(ino.data) != r.a: self._trunc(ino, r.a)
        elif op == RENAME:
            if r.p1 in self.names:
                if r.a & 2 and r.p2 in self.names:
                    self.names[r.p1], self.names[r.p2] = self.names[r.p2], self.names[r.p1]
                else:
                    self.names[r.p2] = self.names.pop(r.p1)
        elif op == UNLINK:
            self.names.pop(r.p1, None)
        elif op == LINK:
            if r.p1 in self.names: self.names[r.p2] = self.names[r.p1]
        elif op == SYMLINK:
            pass
        elif op == FSYNC:
            for ino in ([self._target(r)] if r.fd >= 0 else list(self.names.values())):
                if ino is not None:
                    ino.synced = bytes(ino.data)
                    ino.pending = []
            self.lastsync = self.n
        elif op == CHMOD:
            ino = self._target(r)
            if ino is not None: ino.mode = r.a & 0o7777
        elif op == CLOSE:
            self.fds.pop((r.who, r.fd), None)
            return False
        else:
            return False
        self.history.append(dict(self.names))
        return True
    def _trunc(self, ino, n):
        if n < len(ino.data): del ino.data[n:]
        else: ino.data.extend(bytes(n - len(ino.data)))
        ino.pending.append(("t", n))
        if ino.initial: ino.touched = True

def after_power_loss(files, records, rng):
    """One state that could be found after the power failed somewhere in between: path -> (content, mode)"""
    upto = rng.randint(0, len(records))
    fs = FS(files)
    names_at = [dict(fs.names)]
    sync_at = 0
    for i, r in enumerate(records[:upto]):
        fs.apply(r)
        names_at.append(dict(fs.names))
        if r.op == FSYNC: sync_at = i + 1
    m = rng.choice([upto, sync_at, rng.randint(sync_at, upto)])
    out = {}
    for p, ino in names_at[m].items():
        d = bytearray(ino.synced)
        mode = rng.randint(0, 3)
        for w in ino.pending:
            keep = mode == 0 or (mode >= 2 and rng.random() < 0.5)
            if not keep: continue
            if w[0] == "t":
                if w[1] < len(d): del d[w[1]:]
                else: d.extend(bytes(w[1] - len(d)))
                continue
            off, b = w
            if mode == 3 and len(b) > 1 and rng.random() < 0.3: b = b[:rng.randint(1, len(b) - 1)]
            if len(d) < off: d.extend(bytes(off - len(d)))
            d[off:off + len(b)] = b
        out[p] = (bytes(d), ino.mode)
    return out, upto
