"""Runs proof tasks in separate processes, most expensive first."""
import heapq
import multiprocessing as mp
import os
import signal
import time
from multiprocessing.connection import wait

CTX = mp.get_context('fork')


class OutOfTime(BaseException):
    pass


def _child(conn, fn, args, limit):
    def h(*a):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t = time.time()
    try:
        r = fn(*args)
    except OutOfTime:
        r = {'failed': 'time limit', 'secs': time.time() - t}
    except MemoryError:
        r = {'failed': 'memory', 'secs': time.time() - t}
    except BaseException as e:   # noqa
        import traceback
        r = {'failed': 'crash: ' + repr(e) + ' ' + traceback.format_exc()[-800:], 'secs': time.time() - t}
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


class Pool:
    """run(task) -> callbacks; tasks may be added while running."""

    def __init__(self, procs=None):
        self.procs = procs or min(8, os.cpu_count() or 1)
        self.queue = []
        self.n = 0
        self.live = {}

    def add(self, key, fn, args, limit, cost):
        self.n += 1
        heapq.heappush(self.queue, (-cost, self.n, key, fn, args, limit))

    def drop(self, pred):
        """Forget queued and running tasks whose key satisfies pred."""
        self.queue = [q for q in self.queue if not pred(q[2])]
        heapq.heapify(self.queue)
        for c in list(self.live):
            if pred(self.live[c][0]):
                self._kill(c)

    def _kill(self, c):
        key, p, end = self.live.pop(c)
        p.kill()
        p.join()
        c.close()

    def busy(self):
        return bool(self.queue or self.live)

    def stop(self):
        self.queue = []
        for c in list(self.live):
            self._kill(c)

    def step(self, deadline):
        """Yield finished (key, result) pairs, waiting for at least one or a timeout."""
        while self.queue and len(self.live) < self.procs:
            _, _, key, fn, args, limit = heapq.heappop(self.queue)
            limit = max(1.0, min(limit, deadline - time.time()))
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=_child, args=(b, fn, args, limit), daemon=True)
            p.start()
            b.close()
            self.live[a] = (key, p, time.time() + limit + 10)
        out = []
        for c in wait(list(self.live), timeout=1.0):
            key, p, end = self.live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = {'failed': 'process ended', 'secs': 0}
            c.close()
            p.join(5)
            out.append((key, r))
        now = time.time()
        for c in list(self.live):
            if now > self.live[c][2]:
                key = self.live[c][0]
                self._kill(c)
                out.append((key, {'failed': 'time limit', 'secs': 0}))
        return out
