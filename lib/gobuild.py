"""Builds the Go binding, the precompile and their driver, with the address sanitizer."""
import glob
import os
import shutil
from concurrent.futures import ThreadPoolExecutor


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def build(scratch, repo, here, sh, BuildError):
    d = os.path.join(scratch, "go")
    g = os.path.join(here, "go")
    shutil.copytree(os.path.join(repo, "falcon"), os.path.join(d, "falcon"),
                    ignore=shutil.ignore_patterns("*.a", "*.o", "*.rsp", "*.req", "*.js"))
    env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", CGO_ENABLED="1",
               GOCACHE=os.path.join(d, "cache"), GOPATH=os.path.join(d, "path"), HOME=d, GOWORK="off",
               GOTELEMETRY="off")
    src = os.path.join(d, "falcon", "nistfalcon", "src")
    os.makedirs(os.path.join(d, "obj"))

    def one(c):
        o = os.path.join(d, "obj", os.path.basename(c)[:-2] + ".o")
        fl = ["-fsanitize=address", "-fno-omit-frame-pointer", "-finstrument-functions"]
        if os.path.basename(c) != "katrng.c":
            fl = fl[:2]
        if os.path.dirname(c) != src:
            fl = []
        sh(["gcc", "-c", "-w", "-O1", "-g", "-fPIC", "-DALGNAME=falcon512int"] + fl + ["-o", o, c])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(glob.glob(os.path.join(src, "*.c"))) + [os.path.join(g, "lockstep.c")]))
    lib = os.path.join(d, "falcon", "nistfalcon", "build")
    os.makedirs(lib, exist_ok=True)
    sh(["ar", "rcs", os.path.join(lib, "libfalcon.a")] + objs)
    eth = "github.com/ethereum/go-ethereum"
    write(os.path.join(d, "eth", "go.mod"), "module %s\n\ngo 1.24.2\n" % eth)
    for p, q in (("abi", "accounts/abi"), ("common", "common")):
        shutil.copytree(os.path.join(g, p), os.path.join(d, "eth", q))
    shutil.copytree(os.path.join(g, "hx"), os.path.join(d, "hx"))
    shutil.copytree(os.path.join(g, "extract"), os.path.join(d, "extract"))
    write(os.path.join(d, "extract", "go.mod"), "module extract\n\ngo 1.24.2\n")
    write(os.path.join(d, "hx", "go.mod"), """module hx

go 1.24.2

require (
	github.com/ZKNoxHQ/ETHFALCON/falcon v0.0.0
	%s v0.0.0
)

replace github.com/ZKNoxHQ/ETHFALCON/falcon => ../falcon

replace %s => ../eth
""" % (eth, eth))
    sh(["go", "build", "-o", "x", "."], cwd=os.path.join(d, "extract"), env=env)
    pre = sh([os.path.join(d, "extract", "x"), os.path.join(repo, "geth", "contracts.go")])
    write(os.path.join(d, "hx", "pre", "pre.go"), pre)
    sh(["go", "build", "-asan", "-o", os.path.join(d, "driver"), "."], cwd=os.path.join(d, "hx"), env=env)
    shutil.rmtree(os.path.join(d, "cache"), ignore_errors=True)
    return os.path.join(d, "driver")
