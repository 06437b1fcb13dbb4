"""A controlled scheduler for two threads running s2wav code.

Scheduling points are the source lines of s2wav (sys.settrace 'line' events of frames whose code lives under the
package); everything a line calls outside s2wav runs atomically.  A schedule is a list of switch points
[(thread, index of that thread's scheduling point)]; exactly one thread runs at a time.
"""
import os
import sys
import threading


class Run:
    def __init__(self, root, bodies, switches, block_timeout=2.0):
        self.root = root
        self.bodies = bodies
        self.switches = {}
        for tid, k in switches:
            self.switches.setdefault(tid, []).append(k)
        self.n = len(bodies)
        self.count = [0] * self.n
        self.trace = [[] for _ in bodies]
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.cv = threading.Condition()
        self.turn = 0
        self.free = False  # set when the running thread blocks on a lock: scheduling is given up for the rest
        self.timeout = block_timeout
        self.used = 0

    # -- hand-over
    def _switch(self, tid, finished=False):
        with self.cv:
            if finished:
                self.done[tid] = True
            other = 1 - tid if self.n == 2 else tid
            if self.n == 2 and not self.done[other]:
                self.turn = other
                self.cv.notify_all()
                if not finished:
                    self._wait(tid)

    def _wait(self, tid):
        """Called with cv held: wait for the turn.  If the other thread makes no progress it is blocked on a
        resource we hold, so run on."""
        while self.turn != tid and not self.free:
            before = list(self.count)
            if not self.cv.wait(self.timeout) and before == self.count and self.turn != tid and self.started_other(tid):
                self.free = True
                self.cv.notify_all()

    def started_other(self, tid):
        return True

    def _local(self, tid, key_count):
        sw = self.switches.get(tid, [])

        def local(frame, event, arg):
            if event == "line":
                k = self.count[tid]
                self.count[tid] = k + 1
                if self.record:
                    self.trace[tid].append((frame.f_code.co_filename, frame.f_lineno))
                if sw and k == sw[0] and not self.free:
                    sw.pop(0)
                    self.used += 1
                    self._switch(tid)
            return local

        return local

    def _thread(self, tid):
        root = self.root
        local = self._local(tid, None)

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None

        with self.cv:
            while self.turn != tid and not self.free:
                self.cv.wait()
        try:
            sys.settrace(glob)
            try:
                self.result[tid] = self.bodies[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            self.error[tid] = e
        self._switch(tid, True)

    def go(self, record=False, limit=120):
        self.record = record
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(limit)
            if t.is_alive():
                raise TimeoutError("deadlock: a thread did not finish")
        return self.result, self.error


def points(trace, full=False):
    """Indices of the scheduling points to preempt at: first, second and last execution of every source line."""
    occ = {}
    for i, k in enumerate(trace):
        occ.setdefault(k, []).append(i)
    out = set()
    for v in occ.values():
        out.update(v[:1] if not full else v[:2] + v[-1:])
    return sorted(out)
