"""python worker.py PROP SESSIONS OUT CTX: run sessions against the real code."""
import importlib
import json
import os
import resource
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]


def main():
    prop, sess, outp, ctxp = sys.argv[1:5]
    ctx = json.load(open(ctxp))
    if ctx.get("pythonref"):
        sys.path[:0] = [os.path.join(here, "shim"), ctx["pythonref"]]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not ctx.get("no_as_limit"):
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    mod = importlib.import_module("props." + prop.lower())
    sessions = [(i, s) for i, s in json.load(open(sess))]
    with open(outp, "a") as out:
        from env import serve
        # what the code under test prints is not ours
        sys.stdout.flush()
        dn = os.open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 1)
        serve(mod.run, sessions, out, ctx)


main()
