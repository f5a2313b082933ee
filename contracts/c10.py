from .base import *
PROP = Prop("C10", "deductive verification (VCs generated from the source, z3) with run-time contract cases against the definition",
            ["exact window functions (UVWindow) and folded spectra (which are refused) are not covered", "weights of one average lie within ten orders of magnitude (the code inverts their sums with a pseudo-inverse)", "a mode on the edge of a bin belongs to the bin below it; bins do not overlap", "errors above 1e20 count as 1e20, as the code states"])
LEVEL = "other"
NOTE = "Run-time contract cases compare every spherically averaged value, error, covariance, window, time and LST of random objects with the definition computed mode by mode (its own bins, rows and block weights). Bounded obligations: two baseline-pairs, two times, three delays and three bins at fixed wavenumbers, with symbolic spectra, errors, integrations and samples, under a contract of pinv on (proved) diagonal matrices: every bin is the weighted mean of exactly the modes inside, with errors in quadrature, and every time keeps its own."
import copy, warnings
import numpy as np
from hera_pspec import grouping, conversions
from .build import build, same, snapshot, diff
# ------------------------------------------------------------------ deductive proofs
def pseudo_inverse(M):
    """contract of np.linalg.pinv on diagonal matrices (proved to be diagonal where it is used): reciprocals, 0 for 0"""
    from .sym import E, z3, zi, as_int, A, mk, arrays
    from dv.core import to_real
    M = A(M); sh = M.shape_; n = int(as_int(sh[-1]) if not isinstance(sh[-1], int) else sh[-1]); lead = sh[:-2]; import itertools
    for L in itertools.product(*[range(int(x)) for x in lead]):
        for i in range(n):
            for j in range(n):
                if i != j: E.prove_eq("diagonal_weights", M.at(*L, i, j), 0.0)
    def cell(ix):
        v = M.at(*ix); d = v.e if hasattr(v, "e") else z3.RealVal(v); d = z3.ToReal(d) if d.sort() == z3.IntSort() else d
        return mk('f', z3.If(z3.And(ix[-1] == ix[-2] if not isinstance(ix[-1] == ix[-2], bool) else z3.BoolVal(ix[-1] == ix[-2]), d != 0), 1 / d, z3.RealVal(0)))
    return arrays.new(tuple(sh), 'f', cell)
def binned(how, seed):
    """every bin of every time and polarization: the weighted mean, and errors in quadrature, of exactly the modes inside, for any values and weights"""
    def h():
        from .sym import E, interp, call, z3, zi, as_int, A, mk, sarr
        from .base import case_rng
        rng = case_rng("C10", "proof", 1, seed); u = build(rng, nspw=1, nblp=2, ntimes=2, npol=1, nfreqs=3, ndlys=3, order=("time", "blp", "random")[seed % 3], stats=["P_N"]); N = u.Nbltpairs; d = u.__dict__; ref = copy.copy(d)
        D, S, I, n = sarr("data", (N, 3, 1), 'c'), sarr("err", (N, 3, 1)), sarr("int", (N, 1)), sarr("nsample", (N, 1)); d["data_array"] = interp.created({0: D}); d["stats_array"] = interp.created({"P_N": interp.created({0: S})}); d["integration_array"] = interp.created({0: I}); d["nsample_array"] = interp.created({0: n}); d["wgt_array"] = interp.created({0: sarr("wgt", (N, 3, 2, 1))})
        z = u.cosmo.f2z(u.freq_array.mean()); sep = {int(b): np.linalg.norm(v) for b, v in zip(u.bl_array, u.bl_vecs)}; kp = u.dly_array * u.cosmo.tau_to_kpara(z); blps = list(dict.fromkeys(u.blpair_array.tolist()))
        k = {b: np.hypot((sep[b // 10**6] + sep[b % 10**6]) / 2 * u.cosmo.bl_to_kperp(z), kp) for b in blps}; allk = np.sort(np.concatenate(list(k.values()))); e = [allk[0] * .9, (allk[1] + allk[2]) / 2, (allk[3] + allk[4]) / 2]; kb = np.array([(e[0] + e[1]) / 2, (e[1] + e[2]) / 2, allk[-1] * 2]); wd = np.array([e[1] - e[0], e[2] - e[1], .01])
        interp.CONTRACTS[np.linalg.pinv] = pseudo_inverse
        for f in ("f2z", "tau_to_kpara", "bl_to_kperp"): interp.CONTRACTS[getattr(conversions.Cosmo_Conversions, f)] = getattr(conversions.Cosmo_Conversions, f)      # C01 and C02 are about these
        off = {r for r in range(N) if how == "uniform" and rng.coin(.3)}
        for r in range(N):
            for i in range(3): E.assume(S.at(r, i, 0).e >= 1); E.assume(S.at(r, i, 0).e <= 1000)
            E.assume(I.at(r, 0).e == 0 if r in off else I.at(r, 0).e >= 1); E.assume(n.at(r, 0).e >= 1)
        o = interp.created(u); v = call(grouping.spherical_average, o, kb, wd, run_check=False, **({"error_weights": "P_N"} if how == "errors" else {}))
        times = sorted(set(zip(ref["time_1_array"].tolist(), ref["time_2_array"].tolist()))); rows = {(b, t): i for i, (b, t) in enumerate(zip(ref["blpair_array"].tolist(), zip(ref["time_1_array"].tolist(), ref["time_2_array"].tolist())))}
        E.prove("times", [(float(A(v.time_1_array).at(i)), float(A(v.time_2_array).at(i))) for i in range(len(times))] == times)
        out, err = A(interp.getitem_any(v.data_array, 0)), A(interp.getitem_any(interp.getitem_any(v.stats_array, "P_N"), 0)); E.prove("shape", [int(x) for x in out.shape_] == [2, 3, 1] and [int(x) for x in err.shape_] == [2, 3, 1])
        for it, t in enumerate(times):
            for q in range(3):
                m = [(rows[b, t], i) for b in blps for i in range(3) if kb[q] - wd[q] / 2 < k[b][i] <= kb[q] + wd[q] / 2 and rows[b, t] not in off]; w = lambda r, i: 1 / (S.at(r, i, 0) * S.at(r, i, 0)) if how == "errors" else 1.0
                got, e = out.at(it, q, 0), err.at(it, q, 0)
                if not m: E.prove_eq(f"empty.{it}.{q}", got, 0.0); E.prove_eq(f"no_error.{it}.{q}", e, 1e40); continue
                W = sum(w(*x) for x in m); E.prove_eq(f"mean.{it}.{q}", got * W, sum(w(*x) * D.at(*x, 0) for x in m))
                if how == "uniform": E.prove_eq(f"error.{it}.{q}", e * e * W * W, sum(w(*x) * w(*x) * S.at(*x, 0) * S.at(*x, 0) for x in m))
    h.__name__ = f"binned_{how}_{seed}"; return h
for _h in ("uniform", "errors"):
    for _s in range(3): PROP.proof(budget=60, bounded="2 baseline-pairs, 2 times, 3 delays, 3 bins at fixed wavenumbers; any values")(binned(_h, _s))

# ------------------------------------------------------------------ run-time contract cases
def bins_of(rng, u):
    """any ascending bins over the range of wavenumbers: adjacent or with gaps, some beyond every mode"""
    z = u.cosmo.f2z(u.freq_array.mean()); top = np.hypot(np.abs(u.dly_array).max() * u.cosmo.tau_to_kpara(z), 120 * u.cosmo.bl_to_kperp(z)); n = rng.randrange(1, 7); g = rng.np()
    e = np.sort(g.uniform(0 if rng.coin() else -.05 * top, 1.1 * top, 2 * n)) if rng.coin() else np.repeat(np.linspace(0, 1.05 * top, n + 1), 2)[1:-1]
    lo, hi = e[::2], e[1::2]; return (lo + hi) / 2, hi - lo
def average(u, kb, wd, weights=None, cov=False, kt=None):
    """the definition: per window, time and polarization the weighted mean of the modes inside each bin"""
    rows = {}; out = {}; blps = list(dict.fromkeys(u.blpair_array.tolist()))
    for i, (b, t) in enumerate(zip(u.blpair_array.tolist(), zip(u.time_1_array.tolist(), u.time_2_array.tolist()))): rows[b, t] = i
    times = sorted({t for _, t in rows}); sep = {int(b): np.linalg.norm(v) for b, v in zip(u.bl_array, u.bl_vecs)}; lo, hi = kb - wd / 2, kb + wd / 2
    if kt is None: tl, th = lo, hi
    else: w = np.diff(kt).mean(); tl, th = kt - w / 2, kt + w / 2
    inside = lambda k, lo, hi: np.array([(lo < x) & (x <= hi) for x in k]).astype(float)
    for s in range(u.Nspws):
        F = u.freq_array[u.spw_freq_array == s]; D = u.dly_array[u.spw_dly_array == s]; z = u.cosmo.f2z(F.mean()); n = u.data_array[s].shape[1]
        Df = np.fft.fftshift(np.fft.fftfreq(len(F), np.median(np.diff(F)))); kp = D * u.cosmo.tau_to_kpara(z); kpf = Df * u.cosmo.tau_to_kpara(z)
        for it, t in enumerate(times):
            for p in range(u.Npols):
                d, W, B, WF, C, S = [], [], [], [], [], {}
                for b in blps:
                    i = rows[b, t]; kperp = (sep[b // 10**6] + sep[b % 10**6]) / 2 * u.cosmo.bl_to_kperp(z); B.append(inside(np.hypot(kperp, kp), lo, hi)); d.append(u.data_array[s][i, :, p])
                    if cov: w = np.linalg.inv(u.cov_array_real[s][i, :, :, p])
                    elif weights: w = np.diag(1 / u.stats_array[weights][s][i, :, p].real**2)
                    else: w = np.eye(n) * float(u.integration_array[s][i, p] * u.nsample_array[s][i, p] != 0)
                    W.append(w)
                    if hasattr(u, "window_function_array"): WF.append(u.window_function_array[s][i, :, :, p] @ inside(np.hypot(kperp, kpf), tl, th))
                    if hasattr(u, "cov_array_real"): C.append(u.cov_array_real[s][i, :, :, p])
                    for st in getattr(u, "stats_array", {}): S.setdefault(st, []).append(u.stats_array[st][s][i, :, p].real)
                blk = lambda L: np.block([[L[i] if i == j else np.zeros((n, n)) for j in range(len(L))] for i in range(len(L))]); E, A = blk(W), np.vstack(B); tot = np.diag(A.T @ E @ A); used = tot > 1e-20 * max(tot.max(), 1e-300); H = np.zeros_like(A)
                A1 = A[:, used]; H[:, used] = E @ A1 @ np.linalg.inv(A1.T @ E @ A1) if used.any() else 0; r = dict(data=H.T @ np.concatenate(d))
                if WF: r["window"] = H.T @ np.vstack(WF)
                if C: r["cov"] = H.T @ blk(C) @ H
                for st in S: e = np.sqrt((H.T**2) @ np.minimum(np.concatenate(S[st])**2, 1e40)); r["stats", st] = np.where(used, e, 1e40)
                out[s, it, p] = r
    return out, times
@PROP.case(quick=200, thorough=5000)
def spherical(rng):
    """spherical_average of any object (windows, pairs, times, row orders, weights, bins) against the definition"""
    stats = [x for x in ("P_N", "err") if rng.coin(.5)]; cov = rng.coin(.4); wf = rng.coin(.5); nf = [rng.choice([4, 5, 7]) for _ in range(3)]
    u = build(rng, stats=stats, cov=cov, wf=wf, nfreqs=nf, ndlys=nf if wf or rng.coin() else None, zero_int=rng.choice([0, .2]), crossed=rng.coin(.1), lst0=rng.choice([None, 6.279]))
    for s in range(u.Nspws):
        if cov: m = u.cov_array_real[s]; u.cov_array_real[s] = np.einsum("tikp,tjkp->tijp", m, m) + np.eye(m.shape[1])[None, :, :, None]
        for st in stats: u.stats_array[st][s] *= rng.np().choice([1, 1, 1e3], u.stats_array[st][s].shape)
        for st in stats:
            if rng.coin(.3): u.stats_array[st][s][rng.np().random(u.stats_array[st][s].shape) < .3] = rng.choice([1e40, np.inf])
    with warnings.catch_warnings(): 
        warnings.simplefilter("ignore")
        kb, wd = bins_of(rng, u); by_cov = cov and rng.coin(); ew = rng.choice(stats) if stats and rng.coin(.6) and not by_cov else None; kt = np.linspace(0, kb.max() * 1.5 + .1, rng.randrange(2, 6)) if wf and rng.coin(.4) else None; h = u.cosmo.h; little = rng.coin(.7)
        kw = dict(weight_by_cov=by_cov, error_weights=ew, little_h=little); f = 1 if little else h
        if kt is not None: kw["kbins_theory"] = kt * f
        before = snapshot(u); A = {}; v = grouping.spherical_average(u, kb * f, wd * f, A=A, **kw); require(not diff(before, snapshot(u)), "input", "the input was changed")
        want, times = average(u, kb, wd, ew, by_cov, kt)
    say = lambda: f"{u.Nspws} windows, {u.Nblpairs} pairs, {len(times)} times, bins {kb.round(4)} wide {wd.round(4)}, {kw}"
    require(list(zip(v.time_1_array.tolist(), v.time_2_array.tolist())) == times, "times", lambda: f"times are {list(zip(v.time_1_array, v.time_2_array))}, not {times} ({say()})"); lst = {t: x for t, x in zip(zip(u.time_1_array.tolist(), u.time_2_array.tolist()), zip(u.time_avg_array, u.lst_avg_array, u.lst_1_array, u.lst_2_array))}
    require(all(lst[t] == x for t, x in zip(times, zip(v.time_avg_array, v.lst_avg_array, v.lst_1_array, v.lst_2_array))), "lsts", lambda: f"average times or LSTs are not those of the rows ({say()})"); require(v.Nbltpairs == len(times) == len(v.blpair_array) and v.Nblpairs == 1, "rows", "not one row for each time")
    close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-9 * (1e-30 + np.max(np.abs(b)[np.abs(b) < 1e39], initial=0)))
    for (s, t, p), r in want.items():
        got = dict(data=v.data_array[s][t, ..., p])
        if wf: got["window"] = v.window_function_array[s][t, ..., p]
        if cov: got["cov"] = v.cov_array_real[s][t, ..., p]
        for st in stats: got["stats", st] = v.stats_array[st][s][t, ..., p]
        for k in r: require(close(got[k], r[k]), k if isinstance(k, str) else "error", lambda: f"window {s} time {t} polarization {p}: {k} is {got[k]}, not {r[k]} ({say()})")
        k = v.get_kparas(s); require(np.allclose(k, kb), "bins", lambda: f"bins are {k}, not {kb}")
    return ("cov" if by_cov else ew or "uniform") + " wf" * wf
@PROP.case(quick=60, thorough=2000)
def upfront(rng):
    """averaging over baseline-pair groups or times first is averaging the averaged object"""
    u = build(rng, stats=["P_N"], cov=rng.coin(.3), wf=False, nblp=rng.choice([2, 3, 4])); blps = list(dict.fromkeys(u.blpair_array.tolist())); rng.shuffle(blps); c = rng.randrange(1, len(blps) + 1); groups = [blps[:c]] + ([blps[c:]] if blps[c:] else []); kw = {}
    if rng.coin(.7): kw["blpair_groups"] = groups
    if rng.coin(.6) or not kw: kw["time_avg"] = True
    if rng.coin(.5): kw["error_weights"] = "P_N"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); kb, wd = bins_of(rng, u); a = grouping.spherical_average(u, kb, wd, **copy.deepcopy(kw)); m = u.average_spectra(inplace=False, **copy.deepcopy(kw)); b = grouping.spherical_average(m, kb, wd, error_weights=kw.get("error_weights"))
    d = diff(snapshot(a), snapshot(b), rtol=1e-9, atol=1e-12); require(not d, "upfront", lambda: f"{d} differ when {kw} is averaged first: {[(getattr(a, k), getattr(b, k)) for k in d][:1]}"); return "+".join(sorted(kw))
