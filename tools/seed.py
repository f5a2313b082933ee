"""seed.py make ID PROP FILE OLD NEW NEEDS BREAKS < demo.py : write /verif/seeded/ID
   seed.py verify [ID ...] : each seeded bug in its own scratch copy: applies, demo 0 -> nonzero, stable tests still pass
   seed.py check [ID ...]  : run the property's check against each seeded bug (scratch copy of the source)"""
import sys, os, json, subprocess, shutil, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
S = "/verif/seeded"
def scratch():
    d = tempfile.mkdtemp(prefix="seed"); shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__")); return d
def make(id, prop, f, old, new, needs, breaks):
    demo = sys.stdin.read(); path = f"src/hera_pspec/{f}"; s = open("/repo/" + path).read()
    assert s.count(old) == 1, (s.count(old), old)
    d = scratch(); open(f"{d}/repo/{path}", "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=d + "/repo", capture_output=True, text=True).stdout; shutil.rmtree(d)
    os.makedirs(f"{S}/{id}", exist_ok=True)
    open(f"{S}/{id}/patch.diff", "w").write(diff); open(f"{S}/{id}/demo.py", "w").write(demo)
    open(f"{S}/{id}/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds on this input, nonzero when it is broken\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\nexec env PYTHONPATH="$PWD/src" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{S}/{id}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{S}/{id}/meta.json", "w"), indent=1)
def demo(d, id): return subprocess.run(["bash", f"{S}/{id}/demo.sh"], cwd=d + "/repo", capture_output=True, text=True, timeout=300)
def verify(id, tests=True):
    d = scratch()
    try:
        a = demo(d, id); 
        if a.returncode: return id, "demo fails on the unchanged tree", a.stderr[-500:]
        r = subprocess.run(["git", "apply", f"{S}/{id}/patch.diff"], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode: return id, "patch does not apply", r.stderr
        b = demo(d, id)
        if b.returncode == 0: return id, "demo passes with the patch", ""
        if tests:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", JAX_PLATFORMS="cpu", PYTHONPATH=d + "/repo/src", HOME="/root", MPLCONFIGDIR="/opt/vp/cache/mpl")
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--no-cov", "--timeout=300", "--tb=line", "--disable-warnings", "--continue-on-collection-errors", f"--basetemp={d}/tmp", "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml"], cwd=d + "/repo", env=env, capture_output=True)
            subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", f"junit:{d}/j.xml"], capture_output=True)
            got = set(json.load(open(d + "/o.json"))["passed"]); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            if want - got: return id, f"{len(want - got)} stable tests fail", sorted(want - got)[:5]
        return id, "ok", (b.stderr.strip().splitlines() or [""])[-1][:160]
    finally: shutil.rmtree(d)
def check(id):
    d = scratch()
    try:
        subprocess.run(["git", "apply", f"{S}/{id}/patch.diff"], cwd=d + "/repo", check=True); pid = json.load(open(f"{S}/{id}/meta.json"))["property"]
        r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", pid], env={**os.environ, "HERA_PSPEC_SRC": d + "/repo/src"}, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return id, pid, r.returncode, v[:1], [l[:160] for l in r.stdout.splitlines()[:2]]
    finally: shutil.rmtree(d)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(*sys.argv[2:]); print(verify(sys.argv[2], tests=False))
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(S))
        if sys.argv[1] == "verify":
            with ThreadPoolExecutor(4) as ex:
                for r in ex.map(lambda i: verify(i, "--notests" not in sys.argv), ids): print(*r, flush=True)
        else:
            for i in ids: print(*check(i), flush=True)
