#!/usr/bin/env python3
"""The bug-planting laboratory.

  seed.py try ID...       make the change in a scratch clone, build, run the stable tests, run the demonstration on
                          both trees, run the checks of its properties; report
  seed.py keep ID...      as try, and write /verif/seeded/ID when it compiles, passes the tests and is demonstrated
  seed.py refresh         rewrite every kept patch against /repo's HEAD
Changes are described in tools/seeds/muts*.py, demonstrations in tools/seeds/ID.cpp. Environment: NOCHECK=1 skips the
checks, VDIR=directory the checks are run from (default /verif).
"""
from concurrent.futures import ThreadPoolExecutor
import fcntl, glob, importlib.util, json, os, shutil, subprocess, sys, time
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
LAB = "/tmp/lab"
A, B = LAB + "/clean", LAB + "/mut" + os.environ.get("LANE", "")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def load():
    r = {}
    for f in sorted(glob.glob(H + "/seeds/muts*.py")):
        s = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for x in m.M:
            r[x["id"]] = x
    return r


def build(d):
    return sh(f"cd {d} && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DENABLE_EXAMPLES=ON && ninja -C _build dbus-asio tests/all dbus-test")


def ensure():
    os.makedirs(LAB, exist_ok=True)
    lock = open(LAB + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    for d in (A, B):
        if not os.path.isdir(d):
            sh(f"git clone -q /repo {d}")
        sh(f"cd {d} && git checkout -q -- . && git pull -q")
    r = build(A)
    if r.returncode:
        sys.exit("clean build failed\n" + r.stdout[-2000:])


def edit(m):
    sh(f"cd {B} && git checkout -q -- .")
    for f, old, new in m["edits"]:
        p = f"{B}/src/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            raise Exception(f"{m['id']}: {f}: {s.count(old)} occurrences of: {old[:70]}")
        open(p, "w").write(s.replace(old, new))
    return subprocess.run(f"cd {B} && git diff", shell=True, stdout=subprocess.PIPE, text=True).stdout


def tests():
    R = B + "/_build/vp-reports"
    sh(f"rm -rf {B}/_build/vp-reports; mkdir -p {R}; cd {B} && python3 /opt/vp/run_catch.py {B}/_build {R}; python3 /opt/vp/results.py {B}/_build/o.json junit:{R}/*.xml lines:{R}/lines.txt")
    o = json.load(open(B + "/_build/o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    st = set(b.get("passed") or b.get("stable") or b.get("tests"))
    return sorted(st - set(o["passed"]))


def lay(m, d):
    """the folder of a planted bug, without patch and meta.json"""
    os.makedirs(d, exist_ok=True)
    shutil.copy(H + "/seeds/fakebus.h", d)
    shutil.copy(f"{H}/seeds/{m['id']}.cpp", d + "/demo.cpp")
    shutil.copy(H + ("/seeds/demo-tsan.sh" if m.get("tsan") else "/seeds/demo.sh"), d + "/demo.sh")


def demo(m, repo, k):
    d = f"{LAB}/demo-{m['id']}-{k}"
    lay(m, d)
    r = sh(f"cd {repo} && timeout 300 bash {d}/demo.sh")
    shutil.rmtree(d)
    return r


def one(m, keep):
    i = m["id"]
    try:
        diff = edit(m)
    except Exception as e:
        return print("EDIT", e, flush=True)
    r = build(B)
    if r.returncode:
        return print(i, "BUILD FAILED", r.stdout[-1500:], flush=True)
    t = tests()
    if t:
        return print(i, "TESTS FAIL", t[:5], flush=True)
    ok = os.path.exists(f"{H}/seeds/{i}.cpp")
    if ok:
        n = int(os.environ.get("TIMES", "3"))
        with ThreadPoolExecutor(4) as ex:
            c = [ex.submit(demo, m, A, k) for k in range(n)]
            b = [ex.submit(demo, m, B, n + k) for k in range(n)]
            c, b = [x.result() for x in c], [x.result() for x in b]
        ok = all(x.returncode == 0 for x in c) and all(x.returncode in (1, 66) or x.returncode > 127 for x in b)
        print(i, "demo clean", [x.returncode for x in c], "patched", [x.returncode for x in b], ([x.stdout for x in c if x.returncode] or [b[0].stdout.strip().splitlines()[-1] if b[0].stdout.strip() else ""])[0][-400:], flush=True)
    else:
        print(i, "no demonstration", flush=True)
    if not os.environ.get("NOCHECK"):
        for p in (m["prop"],) + tuple(m["also"]):
            t0 = time.time()
            r = sh(f"python3 check.py check {p}", cwd=os.environ.get("VDIR", V), env=dict(os.environ, SIM_REPO=B))
            l = r.stdout.splitlines()
            k = [n for n, x in enumerate(l) if "VIOLATION" in x]
            print(i, p, "rc", r.returncode, f"{time.time()-t0:.0f}s", " | ".join(l[k[0]:k[0] + 3] if k else l[-2:])[:330], flush=True)
    if ok and keep:
        d = f"{V}/seeded/{i}"
        lay(m, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["what"]}, open(d + "/meta.json", "w"), indent=1)
        print(i, "kept", flush=True)


def main():
    M = load()
    cmd, sel = sys.argv[1], sys.argv[2:]
    ensure()
    if cmd == "refresh":
        for i in sorted(os.listdir(V + "/seeded")):
            open(f"{V}/seeded/{i}/patch.diff", "w").write(edit(M[i]))
            lay(M[i], f"{V}/seeded/{i}")
        return
    lanes = int(os.environ.get("LANES", "1"))
    if lanes > 1:
        me = [subprocess.Popen([sys.executable, __file__, cmd] + sel[k::lanes], env=dict(os.environ, LANES="1", LANE=str(k))) for k in range(lanes)]
        for x in me:
            x.wait()
        return
    for i in sel:
        one(M[i], cmd == "keep")
    sh(f"cd {B} && git checkout -q -- .")


main()
