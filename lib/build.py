"""Builds what a check needs from /repo's working tree, into the check's scratch directory."""
import glob
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(REPO, "falcon/nistfalcon/src")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])
    return p.stdout


def clib(scratch, name, defs=(), extra=(), with_katrng=False, cflags=("-O2",)):
    d = os.path.join(scratch, "obj." + name)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(SRC, "*.c")))
    if not with_katrng:
        srcs = [s for s in srcs if os.path.basename(s) != "katrng.c"]
    srcs += list(extra)

    def one(s):
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        sh(["gcc", "-c", "-w", "-fPIC", "-g", "-DALGNAME=falcon512int", "-I", SRC] + list(cflags) + list(defs) +
           ["-o", o, s])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    so = os.path.join(scratch, "lib%s.so" % name)
    sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,--wrap=falcon_inner_i_shake256_extract",
        "-o", so] + objs + ["-lm"])
    return so


def solidity(ctx, scratch, paths):
    """The contracts, compiled to Python."""
    import sys
    sys.setrecursionlimit(20000)
    from sol import gen
    try:
        code = gen.build(REPO, paths)
        compile(code, "contracts", "exec")
    except Exception as ex:
        raise BuildError("the contracts do not compile: %s: %s" % (type(ex).__name__, ex))
    ctx["sol"] = os.path.join(scratch, "contracts.py")
    open(ctx["sol"], "w").write(code)


def build(needs, scratch):
    ctx = {"repo": REPO}
    hx = os.path.join(HERE, "c", "hx.c")
    sz = os.path.join(HERE, "c", "sizes.c")
    if "c" in needs:
        ctx["c"] = clib(scratch, "std", extra=[hx, sz])
    if "cfp" in needs:
        ctx["cfp"] = clib(scratch, "fp", extra=[hx, sz, os.path.join(HERE, "c", "fprx.c")])
    if "ceth" in needs:
        ctx["ceth"] = clib(scratch, "eth", defs=["-DETHFALCON"], extra=[hx, sz])
    if "kat" in needs:
        so = os.path.join(scratch, "libkat.so")
        sh(["gcc", "-shared", "-w", "-fPIC", "-O2", "-I", SRC, "-o", so, os.path.join(SRC, "katrng.c"),
            os.path.join(HERE, "c", "katsizes.c")])
        ctx["kat"] = so
    if "py" in needs:
        # a copy: the code under test must not leave anything behind in /repo
        dst = os.path.join(scratch, "pythonref")
        shutil.copytree(os.path.join(REPO, "pythonref"), dst,
                        ignore=shutil.ignore_patterns("__pycache__", "*.rsp", "*.req", "myenv"))
        ctx["pythonref"] = dst
    if "sol" in needs:
        solidity(ctx, scratch, [p for p in sorted(glob.glob(os.path.join(REPO, "src", "*.sol")))
                                if os.path.basename(p) not in ("ZKNOX_PythonSigner.sol", "ZKNOX_display.sol")])
    if "solrec" in needs:
        solidity(ctx, scratch, sorted(glob.glob(os.path.join(REPO, "external", "*.sol"))))
    if "go" in needs:
        import gobuild
        ctx["no_as_limit"] = True          # the sanitizer reserves address space
        ctx["go"] = gobuild.build(scratch, REPO, HERE, sh, BuildError)
    return ctx
