#!/usr/bin/env python
"""check.py <PID> [--replay FILE]: decide one property on /repo's current tree.

exit 0: every obligation accepted and every run-time contract held; exit 1 + VIOLATION line otherwise."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)      # same iteration order on every run
import time, json, pickle, signal, traceback, importlib, io, contextlib, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "agg"); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
REPLAYS = os.path.join(HERE, "evidence", "replays")
def log(*a): print(*a, flush=True)

def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"): continue
            d = json.loads(l)
            if d.get("property") == pid and d.get("status") == "known": out.append(d)
    return out

# ------------------------------------------------------------------ isolated jobs
def run_jobs(jobs, nproc, deadline):
    """jobs: [(key, fn, limit_s)] -> {key: (status, value)}; each in a forked process"""
    import select
    pend = list(jobs); live = {}; out = {}
    while pend or live:
        while pend and len(live) < nproc:
            key, fn, lim = pend.pop(0)
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); os.setsid()
                try:
                    with open(os.devnull, "w") as dn:
                        os.dup2(dn.fileno(), 1); os.dup2(dn.fileno(), 2)
                    res = ("ok", fn())
                except BaseException as ex:
                    res = ("crash", f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-2000:]}")
                try: data = pickle.dumps(res)
                except Exception as ex: data = pickle.dumps(("crash", f"unpicklable result: {ex}"))
                with os.fdopen(w, "wb") as f: f.write(data)
                os._exit(0)
            os.close(w); live[r] = [key, pid, min(time.time() + lim, deadline), b""]
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            b = os.read(r, 1 << 20)
            if b: live[r][3] += b
            else:
                key, pid, _, data = live.pop(r); os.close(r); os.waitpid(pid, 0)
                try: out[key] = pickle.loads(data)
                except Exception: out[key] = ("crash", "process died without a result")
        now = time.time()
        for r in list(live):
            key, pid, dl, _ = live[r]
            if now > dl:
                try: os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError: pass
                os.waitpid(pid, 0); os.close(r); live.pop(r); out[key] = ("timeout", "time limit")
    return out

def do_proof(pr, scale=1.0):
    from dv import proof as P
    from dv.engine import ENGINE as E
    E.scale = scale
    def one(fn, bounded):
        r = P.run(pr.name, fn, bounded=bounded, budget=pr.budget * scale, timeout=pr.timeout)
        from dv.engine import ENGINE as E
        return dict(name=pr.name, ok=bool(r.ok), error=r.error, secs=r.secs, paths=r.paths, bounded=bounded, functions=sorted(r.functions), contracts=sorted(r.contracts),
                    solver=E.solver_time, obs=[(o.name, o.status, o.backend, round(o.secs, 3), o.detail) for o in r.obligations])
    r = one(pr.fn, pr.bounded)
    if r["error"] and r["error"][0] == "unsupported" and pr.fallback:
        r2 = one(pr.fallback[1], pr.fallback[0])
        r2["fell_back"] = r["error"][1]
        return r2
    return r

def run_case(prop, c, seed, i):
    from contracts.base import Violation, Skip, case_rng
    import numpy as np
    rng = case_rng(prop.pid, c.name, seed, i)
    np.random.seed(rng.getrandbits(31))
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return ("ok", c.fn(rng))
    except Skip: return ("skip", None)
    except Violation as v: return ("bad", (v.tag, v.msg))
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "hera_pspec" in f.filename), "harness")
        return ("bad", (f"exception:{where}", f"{type(ex).__name__}: {str(ex)[:400]} raised on an input that satisfies the precondition\n" + traceback.format_exc()[-1200:]))
def do_cases(prop, c, seed, lo, hi, tmax):
    t0 = time.time(); n = 0; skip = 0; bad = []; samples = []; distinct = set(); tags = {}
    for i in range(lo, hi):
        if time.time() - t0 > tmax and n: break
        st, v = run_case(prop, c, seed, i)
        if st == "skip": skip += 1; continue
        n += 1
        if st == "bad":
            tags[v[0]] = tags.get(v[0], 0) + 1
            if tags[v[0]] == 1: bad.append((i, v[0], v[1]))
            if len(tags) > 4: break
        elif v is not None:
            distinct.add(str(v))
            if len(samples) < 2: samples.append(f"{c.name}[{i}]: {str(v)[:200]}")
        else: distinct.add(i)
    return dict(n=n, skip=skip, bad=bad, samples=samples, distinct=len(distinct))

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in sys.argv: tier = "thorough"
    t0 = time.time()
    src = os.environ.get("HERA_PSPEC_SRC", "/repo/src")
    sys.path.insert(1, src)
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        import z3, sympy                                        # noqa: F401  (before fork)
        try: import hera_pspec
        except Exception as ex: hera_pspec = None; ierr = ex
    os.makedirs(REPLAYS, exist_ok=True)
    if hera_pspec is None:
        path = f"{REPLAYS}/{pid}.json"; json.dump({"property": pid, "error": repr(ierr)}, open(path, "w"))
        log("import of hera_pspec fails:", repr(ierr)); log(f"VIOLATION property={pid} replay={path} no-failing-input-found"); return 1
    assert os.path.realpath(hera_pspec.__file__).startswith(os.path.realpath(src)), hera_pspec.__file__
    with contextlib.redirect_stdout(io.StringIO()):
        mod = importlib.import_module(f"contracts.{pid.lower()}")
    prop = mod.PROP
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if d.get("kind") == "obligation": log(json.dumps(d, indent=1)); return 1
        c = next(c for c in prop.cases if c.name == d["case"])
        log(run_case(prop, c, d["seed"], d["index"])); return 1
    thorough = tier == "thorough"
    deadline = t0 + (3000 if thorough else 780)
    jobs = []
    if "--noproof" not in sys.argv:
        for pr in prop.proofs:
            jobs.append((("proof", pr.name), (lambda pr=pr: do_proof(pr)), pr.budget * 2 + 60))
    if "--nocase" not in sys.argv:
        for c in prop.cases:
            total = c.thorough if thorough else c.quick
            chunks = max(1, min(8 if thorough else 3, total // 8))
            step = (total + chunks - 1) // chunks
            for j in range(chunks):
                lo, hi = j * step, min(total, (j + 1) * step)
                tm = 600 if thorough else 40
                jobs.append((("case", c.name, j), (lambda c=c, lo=lo, hi=hi, tm=tm: do_cases(prop, c, seed, lo, hi, tm)), tm * 2 + 60))
    res = run_jobs(jobs, 8, deadline)
    # a proof that did not go through is attempted once more with longer solver limits (a loaded machine must not raise an alarm), unless a failing input already decides
    if not any(k[0] == "case" and (st[0] != "ok" or st[1]["bad"]) for k, st in res.items()):
        again = [pr for pr in prop.proofs if (st := res.get(("proof", pr.name))) is not None and (st[0] != "ok" or not st[1]["ok"])]
        lim = min(deadline, time.time() + 330)
        if again:
            for k, st in run_jobs([(("proof", pr.name), (lambda pr=pr: do_proof(pr, 3.0)), 300) for pr in again], 4, lim).items():
                if st[0] == "ok": res[k] = st
    known = known_findings(pid); seen_known = set()
    viol = []       # (line, replayobj)
    obs = []; funcs = set(); contracts = set(); solver = 0.0; backends = {}; bounded = []; failed = []; notes = []
    for pr in prop.proofs:
        st = res.get(("proof", pr.name))
        if st is None: continue
        if st[0] != "ok":
            failed.append((pr.name, "generation", st[0], "engine", st[1])); continue
        r = st[1]; funcs |= set(r["functions"]); contracts |= set(r["contracts"]); solver += r["solver"]
        if r.get("fell_back"): notes.append(f"{pr.name}: unbounded tier not translatable ({r['fell_back'][:200]}); decided at the stated bound only")
        if r["error"]: failed.append((pr.name, "generation", r["error"][0], "engine", r["error"][1]))
        elif not r["obs"]: failed.append((pr.name, "generation", "vacuous", "engine", "no obligation was generated"))
        for o in r["obs"]:
            if r["bounded"]: bounded.append((o[0], r["bounded"], o[1]))
            else: obs.append(o)
            backends[o[2]] = backends.get(o[2], 0) + 1
            if o[1] != "proved": failed.append((pr.name, o[0], o[1], o[2], o[4]))
    evals = dist = skipped = 0; samples = []; percase = {}; bad = []
    for k, st in res.items():
        if k[0] != "case": continue
        if st[0] != "ok":
            if st[0] == "timeout": bad.append((k[1], -1, "hang", "the real code (or harness) did not return within the limit")); continue
            bad.append((k[1], -1, "crash", st[1])); continue
        r = st[1]; evals += r["n"]; dist += r["distinct"]; skipped += r["skip"]; samples += r["samples"][:1]
        percase[k[1]] = percase.get(k[1], 0) + r["n"]
        for b in r["bad"]: bad.append((k[1],) + b)
    for c in prop.cases:
        if "--nocase" not in sys.argv and percase.get(c.name, 0) == 0 and not any(b[0] == c.name for b in bad): bad.append((c.name, -1, "vacuous", "no input of this case could be built"))
    newbad = []
    for name, i, tag, msg in bad:
        k = next((d for d in known if d["tag"] == tag), None)
        if k is not None:
            if tag not in seen_known: log(f"KNOWN-FINDING: property={pid} {k['what']}")
            seen_known.add(tag)
        else: newbad.append((name, i, tag, msg))
    newfailed = []
    for f in failed:
        k = next((d for d in known if d.get("obligation") and f[1].split('#')[0] == d["obligation"]), None)
        if k is not None:
            if k["obligation"] not in seen_known: log(f"KNOWN-FINDING: property={pid} {k['what']}")
            seen_known.add(k["obligation"])
        else: newfailed.append(f)
    rc = 0
    if newbad:
        rc = 1
        name, i, tag, msg = newbad[0]
        path = f"{REPLAYS}/{pid}.json"
        json.dump({"property": pid, "kind": "input", "case": name, "seed": seed, "index": i, "tag": tag, "message": msg, "failed_obligations": [[str(x)[:800] for x in f] for f in newfailed],
                   "how": f"/opt/venv/bin/python /verif/check.py {pid} --replay {path}"}, open(path, "w"), indent=1)
        for b in newbad[:6]: log(f"contract violated: case {b[0]}[{b[1]}] {b[2]}: {b[3][:1500]}")
        for f in newfailed[:8]: log(f"obligation failed: {f[1]} ({f[2]}, {f[3]}): {str(f[4])[:500]}")
        log(f"VIOLATION property={pid} replay={path}")
    elif newfailed:
        rc = 1
        path = f"{REPLAYS}/{pid}.json"
        json.dump({"property": pid, "kind": "obligation", "failed_obligations": [[str(x)[:4000] for x in f] for f in newfailed]}, open(path, "w"), indent=1)
        for f in newfailed[:12]: log(f"obligation failed: {f[0]}/{f[1]} ({f[2]}, {f[3]}): {str(f[4])[:800]}")
        log(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    from contracts import trusted
    proved = [o for o in obs if o[1] == "proved"]
    level = "proof" if getattr(mod, "LEVEL", None) == "proof" and obs else getattr(mod, "LEVEL", "other")
    cov = dict(obligations=len(obs), discharged=len(proved), checker_cmd=f"/opt/venv/bin/python /verif/check.py {pid}", trusted_base=trusted.BASE + list(getattr(mod, "TRUSTED", [])),
               functions_under_contract=sorted(funcs), callee_contracts_used=sorted(contracts), backends=backends, solver_seconds=round(solver, 2),
               obligation_list=[[o[0], o[1], o[2], o[3]] for o in obs],
               bounded_obligations=len(bounded), bounded_discharged=sum(1 for b in bounded if b[2] == "proved"), bounded_bounds=sorted({b[1] for b in bounded}),
               evaluations=evals, distinct_nontrivial=dist, skipped=skipped, per_case=percase,
               rule="run-time contract cases on the real code (bounded, not counted as proved): " + "; ".join(f"{c.name}: {c.rule}" for c in prop.cases),
               samples=samples[:8] or [str(o[:3]) for o in obs[:3]], notes=notes,
               explanation=getattr(mod, "EXPLAIN", "") or "obligations generated from the current source by /verif/dv and discharged by z3/sympy/cvc5; the parts named bounded are contract checks with the stated bound")
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=level, coverage=cov, assumptions=list(prop.assumptions) + list(trusted.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(newbad) + len(newfailed))
    with open(f"{HERE}/evidence/{pid}.json", "w") as f: json.dump(ev, f, indent=1)
    log(f"{pid} {tier}: {len(proved)}/{len(obs)} obligations proved, {cov['bounded_discharged']}/{len(bounded)} bounded, {evals} contract evaluations, {len(newbad)} bad inputs, {len(newfailed)} failed obligations, {time.time()-t0:.1f}s")
    return rc

if __name__ == "__main__":
    pid_ = sys.argv[1] if len(sys.argv) > 1 else "?"
    try: rc = main()
    except Exception as ex:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
