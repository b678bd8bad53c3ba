"""A disk cache in a scratch directory, used through cache_file, with items whose content and size are known.

A complete file starts with its tag and ends with "!"; its size is symbolic (in the replays the file really has that size).
"""
import os
import tempfile
import time
import weakref

from symx.ctx import mod
from symx.disk import D, Crash, kill, point

END = "!"


class Fault(Exception):
    """What a failing creator raises."""


def forget_temporaries():
    """The names of temporary directories are the same on every path: what a path has left to the garbage collector must not delete those of the next."""
    for f in list(weakref.finalize._registry):
        p = f.peek()
        if p and getattr(p[1], "__func__", None) is tempfile.TemporaryDirectory._cleanup.__func__:
            f.detach()


class World:
    def __init__(self, cx, policy="user", name="cache", **conf):
        self.cx = cx
        self.root = os.path.realpath(cx.dir())
        self.dir = os.path.join(self.root, name)
        os.makedirs(self.dir)
        D.reset()
        D.root = self.root
        D.on = True
        cx.on_exit(D.reset)
        cx.on_exit(forget_temporaries)
        self.made = []  # tags of the items whose creation was started
        self.conf = {"cache-policy": policy, "user-cache-directory": self.dir, "maximum-cache-size": None, "maximum-cache-disk-usage": None}
        self.conf.update({k.replace("_", "-"): v for k, v in conf.items()})

    # ---------------------------------------------------------------- process
    def start(self):
        mod("utils.config")
        config = mod().config
        config.autosave = False
        config.set(dict(self.conf))
        self.caching = mod("utils.caching")
        self.cache = mod().cache

    def set(self, **kw):
        kw = {k.replace("_", "-"): v for k, v in kw.items()}
        self.conf.update(kw)
        mod().config.set(kw)

    def crash(self):
        """Whatever was running is gone; a new process starts on what is on the disk."""
        kill()
        self.start()

    # ------------------------------------------------------------------ items
    def put(self, path, tag, size, points=True):
        """A file of this size with the content of this tag, written in two parts."""
        with open(path, "w") as f:
            f.write(tag)
        if self.cx.symbolic:
            D.sizes[os.path.realpath(path)] = size
        if points:
            point("half of " + tag)
        with open(path, "w") as f:
            if self.cx.symbolic:
                f.write(tag + END)
            else:
                f.write(tag + "." * (size - len(tag) - 1) + END)

    def creator(self, tag, size, fail=None, kind="file", data=None):
        """fail: None, 'start', 'half' or 'done' (all written, then an error)"""

        def create(target, args):
            self.made.append(tag)
            point("start " + tag)
            if fail == "start":
                raise Fault(tag)
            if kind == "dir":
                os.mkdir(target)
                self.put(os.path.join(target, "a"), tag, size[0])
                if fail == "half":
                    raise Fault(tag)
                os.mkdir(os.path.join(target, "sub"))
                self.put(os.path.join(target, "sub", "b"), tag, size[1])
            elif fail == "half":
                with open(target, "w") as f:
                    f.write(tag)
                raise Fault(tag)
            else:
                self.put(target, tag, size)
            point("done " + tag)
            if fail == "done":
                raise Fault(tag)
            return data

        return create

    def get(self, owner, args, tag, size, fail=None, kind="file", data=None, **kw):
        return self.caching.cache_file(owner, self.creator(tag, size, fail, kind, data), args, **kw)

    @staticmethod
    def read(path):
        """The tag of a complete file; anything else is None."""
        try:
            with open(path) as f:
                s = f.read()
        except OSError:
            return None
        return s[: -len(END)].rstrip(".") if s.endswith(END) else None

    @classmethod
    def content(cls, path, kind="file"):
        if kind == "dir":
            a, b = cls.read(os.path.join(path, "a")), cls.read(os.path.join(path, "sub", "b"))
            return a if a == b else None
        return cls.read(path)

    def age(self, path, secs=1000):
        t = (D.now if self.cx.symbolic else int(time.time())) - secs
        if self.cx.symbolic and type(secs) is not int:
            D.mtimes[os.path.realpath(path)] = t
        else:
            os.utime(path, (t, t))

    def sync(self):
        """Wait for what the manager has been asked to do."""
        self.cache.size()

    def files(self):
        return sorted(x for x in os.listdir(self.dir) if not x.startswith("cache-2.db"))
