"""mut.py PID FILE OLD NEW [PID FILE OLD NEW ...]: run a check against a scratch copy with one deliberate break"""
import sys, os, shutil, subprocess, tempfile
a = sys.argv[1:]
extra = [x for x in a if x.startswith("--")]; a = [x for x in a if not x.startswith("--")]
for i in range(0, len(a), 4):
    pid, f, old, new = a[i:i + 4]
    d = tempfile.mkdtemp(prefix="mut")
    shutil.copytree(os.environ.get("MUT_SRC", "/repo/src"), d + "/src", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/src/hera_pspec/{f}"; s = open(p).read()
    assert s.count(old) >= 1, (old, "not found"); s = s.replace(old, new, 1); open(p, "w").write(s)
    r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", pid] + extra, env={**os.environ, "HERA_PSPEC_SRC": d + "/src"}, capture_output=True, text=True)
    out = r.stdout.strip().splitlines()
    print(f"== {pid} {old.strip()[:60]!r} -> {new.strip()[:60]!r}: rc={r.returncode}", "KILLED" if r.returncode == 1 else "SURVIVED")
    for l in out[:3 if r.returncode == 1 else 1] + out[-1:]: print("   ", l[:220])
    if r.returncode not in (0, 1): print(r.stderr[-800:])
    shutil.rmtree(d)
