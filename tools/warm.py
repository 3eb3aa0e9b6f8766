import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import TABLE
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for a, b in (("go.mod", "h.mod"), ("go.sum", "h.sum")):
        shutil.copy(os.path.join(V, "harness", a), os.path.join(d, b))
    env["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(d, "h.mod")
    todo = sorted({(r["pkg"], bool(r.get("race")), bool(r.get("cgo"))) for t in TABLE.values() for r in t["runs"]})
    bad = 0
    for i, (pkg, race, cgo) in enumerate(todo):
        e = dict(env, CGO_ENABLED="1" if race or cgo else "0")
        r = subprocess.run(["go", "test", "-vet=off", "-c", "-o", os.path.join(d, "t%d" % i)] + (["-race"] if race else []) + ["./" + pkg],
                           cwd=os.path.join(V, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            bad = 1
            print("building %s: %s" % (pkg, r.stdout[-3000:]))
    sys.exit(bad)
finally:
    shutil.rmtree(d, ignore_errors=True)
