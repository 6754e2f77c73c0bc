"""Shared pieces of the harnesses."""
import numpy as np


class NoLog:
    def __getattr__(self, n):
        return lambda *a, **k: None


class _Stop(BaseException):
    pass


class Ranks:
    """Runs a function on several MPI ranks, without MPI.

    f(rank, comm) is executed for each rank until the first collective call;
    the contributions are combined and all ranks are executed again with that
    result, and so on.  A rank that finishes while others wait, or ranks that
    wait in different collectives, are a mismatch."""

    def __init__(self, size):
        self.size = size
        self.mismatch = None

    def run(self, f):
        done = []          # combined results of earlier collectives
        while True:
            pend, rets = [], []
            for r in range(self.size):
                c = Comm(self.size, r, done)
                try:
                    rets.append(f(r, c))
                    pend.append(None)
                except _Stop:
                    rets.append(None)
                    pend.append(c.pending)
            if all(p is None for p in pend):
                return rets
            kinds = {p[0] if p else 'end' for p in pend}
            if len(kinds) != 1:
                self.mismatch = kinds
                return rets
            k = kinds.pop()
            vals = [p[1] for p in pend]
            if k == 'sum':
                tot = vals[0]
                for v in vals[1:]:
                    tot = tot + v
                done.append((k, tot))
            elif k == 'gather':
                done.append((k, vals))
            elif k == 'bcast':
                root = pend[0][2]
                done.append((k, vals[root]))
            elif k == 'barrier':
                done.append((k, None))


class Comm:
    def __init__(self, size, rank, done):
        self.size, self.rank, self.done = size, rank, done
        self.n = 0
        self.pending = None

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def _col(self, kind, val, root=None):
        if self.n < len(self.done):
            k, v = self.done[self.n]
            self.n += 1
            if k != kind:
                raise RuntimeError('collective mismatch')
            return v
        self.pending = (kind, val, root)
        raise _Stop()

    def Allreduce(self, a, b, op=None):
        buf = b[0] if isinstance(b, (list, tuple)) else b
        tot = self._col('sum', buf.copy())
        buf[...] = tot

    def bcast(self, x, root=0):
        return self._col('bcast', x, root)

    def allgather(self, x):
        return list(self._col('gather', x))

    def gather(self, x, root=0):
        v = list(self._col('gather', x))
        return v if self.rank == root else None

    def barrier(self):
        self._col('barrier', None)

    Barrier = barrier


def mkstats(cx, npts, sr=1., start_lag=0., **kw):
    CorrStats = cx.mod('seismic.correlate.stats').CorrStats
    h = dict(sampling_rate=sr, npts=npts, start_lag=start_lag)
    h.update(kw)
    return CorrStats(h)


def where(cx, cond, a, b):
    """elementwise ite on plain lists"""
    return [cx.ite(c, x, y) for c, x, y in zip(cond, a, b)]


def seq_sum(xs):
    s = 0.
    for x in xs:
        s = s + x
    return s


class patched:
    """replaces names of a module for a while"""

    def __init__(self, mod, **kw):
        self.mod, self.kw, self.old = mod, kw, {}

    def __enter__(self):
        for k, v in self.kw.items():
            self.old[k] = getattr(self.mod, k, patched)
            setattr(self.mod, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is patched:      # there was none
                delattr(self.mod, k)
            else:
                setattr(self.mod, k, v)
