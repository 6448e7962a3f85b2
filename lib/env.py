"""Records what the implementation does: one JSON line before and one after
each operation, so that an operation that never returns is visible too."""
import json
import sys
import traceback


class Stop(Exception):
    """The operation failed to return a result: the session ends here."""


def jb(b):
    return list(b)


class Env:
    def __init__(self, out, ctx):
        self.out = out
        self.ctx = ctx          # paths of built libraries, scratch directory, ...
        self.cache = {}

    def emit(self, d):
        self.out.write(json.dumps(d, separators=(",", ":"), default=int))
        self.out.write("\n")

    def flush(self):
        self.out.flush()

    def call(self, op, a, fn, need=True):
        """Run fn(); its dict of results is the event's r."""
        self.emit({"b": op, "a": a})
        self.out.flush()
        try:
            r = fn()
            x = ""
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as ex:          # the implementation raised
            r, x = {}, "exc:" + type(ex).__name__
            self.last_tb = traceback.format_exc(limit=-3)
        self.emit({"e": 1, "r": r, "x": x})
        if x and need:
            self.out.flush()
            raise Stop(x)
        return r


def serve(run, sessions, out, ctx):
    env = Env(out, ctx)
    for i, s in sessions:
        env.emit({"s": i})
        try:
            run(env, s)
        except Stop:
            pass
        except Exception as ex:
            env.emit({"b": "harness", "a": {}})
            env.emit({"e": 1, "r": {}, "x": "exc:" + type(ex).__name__,
                      "tb": traceback.format_exc()})
        env.emit({"f": i})
    out.flush()
