"""Requesters running at the same time: the solver picks where one is preempted by the other."""
from symx.ctx import mod  # noqa
from symx.sched import Deadlock, S


class Race:
    """Runs functions in threads; at up to `switches` points (lines of these files, effects on the disk) the other one goes on."""

    def __init__(self, cx, files, fns, switches, bound=5000, functions=None, part=(0, 1)):
        self.cx, self.files, self.fns, self.switches, self.bound = cx, files, fns, switches, bound
        self.functions = functions
        self.part = part  # of the points of the first switch, to share the work between jobs
        self.count = 0
        self.done = 0
        self.at = None
        self.hist = []

    def want(self, k, key):
        """Is this the point of the k-th switch?"""
        cx = self.cx
        if not cx.symbolic:
            return list(key) == cx.inputs.get("at%d" % k)
        if self.at is None or self.at[0] != k:
            self.at = (k, cx.int("k%d" % k, self.count, self.bound))
        if self.at[1] == self.count:
            cx.note("at%d" % k, list(key))
            return True
        return False

    def decide(self, n, key):
        if n not in self.ids or self.done >= self.switches:
            return None
        self.count += 1
        if self.cx.symbolic and self.done == 0 and self.count % self.part[1] != self.part[0]:
            return None
        if self.want(self.done, (n,) + tuple(key)):
            self.done += 1
            others = [t for t in self.ids if t != n and S.threads[t].alive]
            self.hist.append((n, key, others))
            self.favourite = others[0] if others else n
            return self.favourite
        return None

    def run(self):
        """-> list of (result, exception)"""
        before = len(S.threads)
        self.ids = list(range(before, before + len(self.fns)))
        self.favourite = self.ids[0]

        def first(order):
            # workers of the code under test, then the one that is to run, then the others
            def rank(n):
                if n == 0:
                    return 3
                if n not in self.ids:
                    return 0
                return 1 if n == self.favourite else 2

            return sorted(order, key=rank)

        S.first = first
        S.files = tuple(self.files)
        S.functions = self.functions
        S.preempt = self.decide
        ts = [S.spawn(f) for f in self.fns]
        try:
            S.block(lambda: not any(t.alive for t in ts))
        finally:
            S.preempt = None
            S.first = None
            S.functions = None
        return [(t.result, t.exc) for t in ts]
