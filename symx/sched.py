"""A scheduler for the threads of the code under test.

Threads are real, but only the one holding the baton runs; it is handed on when the running
thread blocks, ends, or reaches a preemption point chosen by the harness. The same scheduler serves
the symbolic runs (where the choices are symbolic variables) and the replays on the real code.
"""
import _thread
import os
import sys
import threading
import time

REAL = {"sleep": time.sleep}


class Abort(BaseException):
    """The run is over: unwinds a thread."""


class Deadlock(Exception):
    """No thread can run."""


class T:
    def __init__(self, n):
        self.n = n
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.gone = _thread.allocate_lock()
        self.pred = None
        self.alive = True
        self.aborted = False
        self.pending = None
        self.exc = None
        self.result = None
        self.lines = {}


class Sched:
    def __init__(self):
        self.threads = [T(0)]
        self.cur = self.threads[0]
        self.preempt = None
        self.files = ()
        self.functions = None
        self.sleeps = 0
        self._stmts = {}
        self.first = None

    @property
    def main(self):
        return self.threads[0]

    # ---------------------------------------------------------------- baton
    def runnable(self, t):
        return t.alive and (t.pred is None or t.pred())

    def pick(self, after, other=False):
        n = len(self.threads)
        order = [(after.n + k) % n for k in range(1, n + 1)]
        if self.first is not None:
            order = self.first(order)
        for k in order:
            if self.runnable(self.threads[k]) and not (other and k == after.n):
                return self.threads[k]
        return None

    def hand(self, me, to):
        """Give the baton to another thread and wait to get it back."""
        if to is me:
            return
        self.cur = to
        to.sem.release()
        me.sem.acquire()
        self.resumed(me)

    def resumed(self, me):
        if me.aborted:
            raise Abort()
        if me.pending is not None:
            e, me.pending = me.pending, None
            raise e

    def block(self, pred):
        me = self.cur
        if me.aborted:
            raise Abort()
        if pred():
            return
        me.pred = pred
        to = self.pick(me)
        if to is None:
            if me is self.main:
                me.pred = None
                raise Deadlock("no thread can run: %s" % [repr(t.exc) for t in self.threads if t.exc])
            self.main.pending = Deadlock("no thread can run: %s" % [repr(t.exc) for t in self.threads if t.exc])
            to = self.main
        try:
            self.hand(me, to)
        finally:
            me.pred = None

    def yield_(self):
        """Let another thread run, if there is one that can."""
        me = self.cur
        to = self.pick(me, other=True)
        if to is not None:
            self.hand(me, to)
            return True
        return False

    def sleep(self, secs=0):
        self.sleeps += 1
        if self.sleeps > 2000:
            raise Deadlock("threads only sleep")
        if self.cur.aborted:
            raise Abort()
        self.yield_()

    # -------------------------------------------------------------- threads
    def spawn(self, fn, name=None):
        t = T(len(self.threads))
        self.threads.append(t)
        t.gone.acquire()
        _thread.start_new_thread(self._boot, (t, fn))
        return t

    def _boot(self, t, fn):
        t.sem.acquire()
        to = None
        try:
            if not t.aborted:
                self.tracing()
                t.result = fn()
        except Abort:
            pass
        except Exception as e:
            if getattr(e, "symx_control", False) or type(e).__name__ in ("Violated",):
                self.main.pending = e
                to = self.main
            else:
                t.exc = e
        except BaseException as e:
            self.main.pending = e
            to = self.main
        finally:
            sys.settrace(None)
        t.alive = False
        if t.aborted:
            t.gone.release()
            return
        if to is None:
            to = self.pick(t)
        if to is None:
            self.main.pending = Deadlock("no thread can run: %s" % [repr(t.exc) for t in self.threads if t.exc])
            to = self.main
        self.cur = to
        t.gone.release()
        to.sem.release()

    def reset(self):
        """End all other threads (called by the main thread)."""
        self.preempt = None
        self.first = None
        sys.settrace(None)
        for t in self.threads[1:]:
            if t.alive:
                t.aborted = True
                self.cur = t
                t.sem.release()
                t.gone.acquire()
        self.threads = [T(0)]
        self.cur = self.threads[0]
        self.sleeps = 0

    # ----------------------------------------------------------- preemption
    def tracing(self):
        if self.preempt is not None:
            sys.settrace(self._global_trace)

    def start_preempting(self, files, decide):
        """decide(thread number, line key) -> thread number to switch to, or None, at each line of these files."""
        self.files = tuple(files)
        self.preempt = decide
        sys.settrace(self._global_trace)

    def stop_preempting(self):
        self.preempt = None
        sys.settrace(None)

    def statements(self, path):
        """The first lines of the statements of a file: the same with and without instrumentation."""
        if path not in self._stmts:
            import ast

            with open(path) as f:
                tree = ast.parse(f.read())
            self._stmts[path] = {n.lineno for n in ast.walk(tree) if isinstance(n, ast.stmt)}
        return self._stmts[path]

    def _global_trace(self, frame, event, arg):
        co = frame.f_code
        if self.preempt is None or not co.co_filename.endswith(self.files) or co.co_name.startswith("<"):
            return None
        if self.functions is not None and co.co_name not in self.functions:
            return None
        last = [None]
        stmts = self.statements(co.co_filename)

        def local(frame, event, arg):
            if event == "line" and self.preempt is not None and frame.f_lineno != last[0] and frame.f_lineno in stmts:
                last[0] = frame.f_lineno
                self.point(os.path.basename(co.co_filename), co.co_name, frame.f_lineno)
            return local

        return local

    def point(self, *key):
        me = self.cur
        if me.aborted:
            raise Abort()
        k = me.lines[key] = me.lines.get(key, 0) + 1
        n = self.preempt(me.n, key + (k,))
        if n is not None and n is not False:
            if n is True:
                self.yield_()
            elif self.runnable(self.threads[n]):
                self.hand(me, self.threads[n])


S = Sched()


class Lock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = S.cur
        if self.owner is me and self.reentrant:
            self.count += 1
            return True
        if self.owner is not None and not self.owner.alive and self.owner not in S.threads:
            self.owner = None  # left over from a run that was cut
        if self.owner is not None:
            if not blocking:
                return False
            S.block(lambda: self.owner is None)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner is not S.cur):
            if S.cur.aborted:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is S.cur

    def _at_fork_reinit(self):
        self.owner = None


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        if self.lock.owner is not S.cur:
            raise RuntimeError("cannot wait on un-acquired lock")
        w = [False]
        self.waiters.append(w)
        n = self.lock.count
        self.lock.count = 0
        self.lock.owner = None
        try:
            if timeout is None:
                S.block(lambda: w[0] and self.lock.owner is None)
            elif not w[0]:
                # the time may be over whenever nothing else can run
                S.block(lambda: self.lock.owner is None) if not S.yield_() else None
        finally:
            if not S.cur.aborted:
                if self.lock.owner is not None:
                    S.block(lambda: self.lock.owner is None)
                self.lock.owner = S.cur
                self.lock.count = n
            if w in self.waiters:
                self.waiters.remove(w)
        return w[0]

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout) and timeout is not None:
                return pred()
        return True

    def notify(self, n=1):
        if self.lock.owner is not S.cur:
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self.t = None

    def start(self):
        if self.t is not None:
            raise RuntimeError("threads can only be started once")
        self.t = S.spawn(self.run)

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self.t is not None and self.t.alive

    def join(self, timeout=None):
        if self.t.alive:
            S.block(lambda: not self.t.alive)


class Current:
    daemon = True

    def __init__(self, n):
        self.name = "MainThread" if n == 0 else "Thread-%d" % n
        self.ident = n

    def is_alive(self):
        return S.threads[self.ident].alive if self.ident < len(S.threads) else False


def current_thread():
    return Current(S.cur.n)


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    threading.Condition = Condition
    threading.Thread = Thread
    threading.current_thread = current_thread
    threading._DummyThread = current_thread  # for those who imported the real current_thread
    time.sleep = S.sleep
