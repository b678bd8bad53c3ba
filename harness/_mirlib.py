"""A recording stand-in for the MIR library, as far as building matrices needs it."""
import sys
import types


class Mir:
    def __init__(self, cx, cache, work=None):
        self.jobs = []
        rec = self
        m = types.ModuleType("mir")

        class Job:
            def __init__(self):
                self.opts = []
                rec.jobs.append(self)

            def set(self, k, v):
                self.opts.append((k, v))
                return self

            def get(self, k):
                v = [x for n, x in self.opts if n == k]
                return v[-1] if v else None

            def execute(self, i, o):
                self.input, self.output = i, o
                if work:
                    work(self)

        class GridSpecInput:
            def __init__(self, spec):
                self.spec = spec

        class GriddefInput:
            def __init__(self, path):
                self.path = path

        class EmptyOutput:
            pass

        m.Job, m.GridSpecInput, m.GriddefInput, m.EmptyOutput = Job, GridSpecInput, GriddefInput, EmptyOutput
        m.cache = lambda: cache
        self.module = m
        old = sys.modules.get("mir")
        sys.modules["mir"] = m

        def undo():
            if old is None:
                sys.modules.pop("mir", None)
            else:
                sys.modules["mir"] = old

        cx.on_exit(undo)
