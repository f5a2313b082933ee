from .base import *
PROP = Prop("C07", "deductive verification (VCs generated from the source, z3) with bounded run-time contract cases",
            ["the rows of a key are those C03 describes", "values are mathematical reals in the proofs", "the members of a group have the same number of times, in the same order, unless times are averaged"])
LEVEL = "proof"
NOTE = "average_spectra proved against its contract for groups of one or two baseline-pairs and one or two times, with any delays, channels, polarization contents, weights and errors (numbers of pairs and times bounded: the body loops over Python lists of them; the weighted mean of more members was beyond the solver, so larger groups, both averages at once and the circular LST mean are run-time cases)."
import copy, warnings
import numpy as np
from hera_pspec import grouping, uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff, same, rows_of, ALIGNED
# ------------------------------------------------------------------ deductive proofs
def average(ta, groups, weights, norm=True, errors=False, cov=False, wf=False, exact=False, npol=1, T=2):
    """pairs 0.. of `groups` (groups: None = each its own), group weights symbolic where weights is True; any delays, channels and contents"""
    def h():
        from .sym import E, interp, raises, call, z3, zi, as_int, A, mk, sreal, dim, blank, nd, Family, SArr
        from dv.core import to_real; zr = lambda x: to_real(x).e if hasattr(to_real(x), "e") else to_real(x)
        from dv import npmodel
        PAIR = [101102101103, 101102102103, 102103102104]; D, F, K, L = dim("Nd"), dim("Nf"), dim("Nkperp"), dim("Nkpara"); used = PAIR[:1 + max(k for g in groups for k in g)]; u = blank(); d = u.__dict__; n = len(used); N = n * T
        f = {k: Family(k, n, sh, kind, pos=pos) for k, sh, kind, pos in (("data", lambda s: (T, D, npol), 'c', False), ("nsmp", lambda s: (T, npol), 'f', True), ("ints", lambda s: (T, npol), 'f', True), ("wgts", lambda s: (T, F, 2, npol), 'f', False), ("e", lambda s: (T, D, npol), 'f', True), ("x", lambda s: (T, D, npol), 'f', True), ("covr", lambda s: (T, D, D, npol), 'f', False), ("covi", lambda s: (T, D, D, npol), 'f', False), ("wf", (lambda s: (T, D, K, L, npol)) if exact else (lambda s: (T, D, D, npol)), 'f', False))}
        P = [1515, 1414][:npol]; idx = lambda key: (used.index(key[1]), P.index(key[2]))
        def get(name):
            def c(self, key, *a, **k): b, p = idx(key); v = f[name].view(b); return interp.call_method(v, "__getitem__", p) if False else v[..., p] if False else npmodel_take(v, p)
            return c
        from dv.arrays import getitem as _gi
        def npmodel_take(v, p): return _gi(v, (Ellipsis, p))
        for m, name in (("get_data", "data"), ("get_nsamples", "nsmp"), ("get_integrations", "ints"), ("get_wgts", "wgts"), ("get_window_function", "wf")): interp.CONTRACTS[getattr(UVPSpec, m)] = get(name)
        interp.CONTRACTS[UVPSpec.get_cov] = lambda self, key, component="real", omit_flags=False: get("covr" if component == "real" else "covi")(self, key)
        interp.CONTRACTS[UVPSpec.get_stats] = lambda self, stat, key, omit_flags=False: get(stat)(self, key)
        rowlist = [used[k] for t in range(T) for k in range(n)]
        d.update(Nspws=1, Npols=npol, folded=False, exact_windows=exact, polpair_array=np.array(P), blpair_array=np.array(rowlist), bl_array=np.array(sorted({b for x in used for b in uu._blpair_to_bls(x)})), labels=np.array(["a"]), label_1_array=np.zeros((1, N, npol), int), label_2_array=np.zeros((1, N, npol), int))
        d["bl_vecs"] = np.array([[b * 1., 0., 1.] for b in d["bl_array"].tolist()])
        for k, a in enumerate(ALIGNED[:6]): d[a] = 10. * k + np.arange(N) / 100
        if errors: d["stats_array"] = {"e": None, "x": None}
        if cov: d["cov_array_real"] = d["cov_array_imag"] = None
        if wf: d["window_function_array"] = None
        if exact: d["window_function_kperp"], d["window_function_kpara"] = {0: np.zeros((2, npol))}, {0: np.ones((3, npol))}
        interp.CONTRACTS[UVPSpec.check] = lambda self, just_meta=False: None
        from hera_pspec import utils
        interp.CONTRACTS[utils.get_bl_lens_angs] = lambda *a, **k: (None, None); interp.CONTRACTS[UVPSpec.get_blpair_blvecs] = lambda self, **k: [None] * n; interp.CONTRACTS[UVPSpec.get_blpair_seps] = lambda self: np.zeros(N); interp.CONTRACTS[UVPSpec.get_blpairs] = lambda self: [uu._blpair_to_antnums(b) for b in used]; interp.CONTRACTS[UVPSpec.antnums_to_blpair] = lambda self, b: uu._antnums_to_blpair(b)
        interp.CONTRACTS[UVPSpec.blpair_to_indices] = lambda self, b: np.array([i for i, x in enumerate(rowlist) if x == int(b)])
        W = [[sreal(f"w{i}{j}") for j, _ in enumerate(g)] for i, g in enumerate(groups)] if weights else None
        for g in W or ():
            for x in g: E.assume(x.e > 0)
        gs = [[used[k] for k in g] for g in groups]; kw = dict(error_weights="e", error_field=["x"]) if errors else {}
        r, ex = raises(grouping.average_spectra, u, blpair_groups=gs, blpair_weights=W, time_avg=ta, normalize_weights=norm, inplace=True, **kw)
        if ex is not None: raise ex
        e, g_, c, l = (E.fresh('i', x) for x in "egcl"); [E.assume(z3.And(x >= 0, x < m)) for x, m in ((e, D), (g_, K if exact else D), (c, F), (l, L))]
        sig = lambda k, tt, ee, p: f["e"].old(k, tt, ee, p)
        def wt(k, tt, ee, p): return 1.0 / (sig(k, tt, ee, p) * sig(k, tt, ee, p)) if errors else (lambda i, s: i * i * s)(f["ints"].old(k, tt, p), f["nsmp"].old(k, tt, p))
        G = [list(g) for g in groups] + [[k] for k in range(n) if not any(k in g for g in groups)]; Gw = (W or [[1.0] * len(g) for g in groups]) + [[1.0] for _ in G[len(groups):]]; row = 0
        for gi, (g, gw) in enumerate(zip(G, Gw)):
            if norm: tot = sum(gw[1:], gw[0]); gw = [x * float(len(g)) / tot for x in gw]
            for t in range(1 if ta else T):
                for p in range(npol):
                    M = [(m, k, tt) for m, k in zip(gw, g) for tt in (range(T) if ta else [t])]; add = lambda xs: sum(xs[1:], xs[0]); w = lambda k, tt, ee: wt(k, tt, ee, p)
                    den = lambda ee: add([m * w(k, tt, ee) for m, k, tt in M]); mean = lambda val, ee: add([m * w(k, tt, ee) * val(k, tt) for m, k, tt in M]) / den(ee); tag = f"group{gi}.{t}.{p}."; o = row; mark = len(E.pc); lo, hi = (lambda x: zr(x) >= z3.Q(1, 10**30)), (lambda x: zr(x) <= 10**30)
                    for ee in (e, 0) + ((g_,) if cov else ()):      # weights and errors within 1e-30..1e30: neither zero nor without bound
                        for x in [den(ee)] + [w(k, tt, ee) for _, k, tt in M] + ([add([w(k, tt, ee) for tt in range(T)]) for k in g] if ta else []) + ([y for _, k, tt in M for st in "ex" for y in (f[st].old(k, tt, ee, p), f[st].old(k, tt, ee, p) * f[st].old(k, tt, ee, p))] if errors else []): E.assume(lo(x)); E.assume(hi(x))
                    at = lambda arr, *ix: A(arr[0]).at(*ix)
                    E.prove_eq(tag + "data", at(d["data_array"], o, e, p), mean(lambda k, tt: f["data"].old(k, tt, e, p), e))
                    E.prove_eq(tag + "samples", at(d["nsample_array"], o, p), add([m * f["nsmp"].old(k, tt, p) for m, k, tt in M])); E.prove_eq(tag + "integration", at(d["integration_array"], o, p), mean(lambda k, tt: f["ints"].old(k, tt, p), 0)); E.prove_eq(tag + "weights", at(d["wgt_array"], o, c, 0, p), mean(lambda k, tt: f["wgts"].old(k, tt, c, 0, p), 0))
                    if cov: E.prove_eq(tag + "covariance", at(d["cov_array_real"], o, e, g_, p), add([m * f["covr"].old(k, tt, e, g_, p) * w(k, tt, e) * w(k, tt, g_) for m, k, tt in M]) / (den(e) * den(g_))); E.prove_eq(tag + "covariance_imag", at(d["cov_array_imag"], o, e, g_, p), add([m * f["covi"].old(k, tt, e, g_, p) * w(k, tt, e) * w(k, tt, g_) for m, k, tt in M]) / (den(e) * den(g_)))
                    if wf: E.prove_eq(tag + "window_function", at(d["window_function_array"], o, e, g_, *((l,) if exact else ()), p), mean(lambda k, tt: f["wf"].old(k, tt, e, g_, *((l,) if exact else ()), p), e))
                    if errors:
                        for st in "ex": x = at(d["stats_array"][st], o, e, p); E.prove_eq(tag + "error_squared_" + st, x * x, add([m * f[st].old(k, tt, e, p) * f[st].old(k, tt, e, p) * w(k, tt, e) * w(k, tt, e) for m, k, tt in M]) / (den(e) * den(e)))
                    del E.pc[mark:]
                row += 1
        E.prove("rows", np.asarray(d["blpair_array"]).tolist() == [used[g[0]] for g in G for _ in range(1 if ta else T)]); E.prove("counts", d["Nbltpairs"] == row and d["Nblpairs"] == len({g[0] for g in G}))
    h.__name__ = "average" + ("_times" if ta else "") + "_" + "_".join("".join(map(str, g)) for g in groups) + "_weighted" * weights + "_as_given" * (not norm) + "_errors" * errors + "_cov" * cov + "_wf" * wf + "_exact" * exact + f"_{npol}_{T}"
    return h

def over_times(errors=False, cov=False, wf=False, exact=False):
    """one baseline-pair averaged over any number of times: the weighted mean over all of them"""
    def h():
        from .sym import E, interp, raises, call, z3, zi, as_int, A, mk, sreal, sarr, dim, blank, nd, Family, SArr
        from dv.core import to_real; from dv.arrays import getitem as _gi; from dv import npmodel; from hera_pspec import utils
        zr = lambda x: to_real(x).e if hasattr(to_real(x), "e") else to_real(x)
        PAIR = 101102101103; T, D, F, K, L = (dim(x, 1) for x in ("Nt", "Nd", "Nf", "Nkperp", "Nkpara")); u = blank(); d = u.__dict__; P = [1515]; nt = nd(T)
        f = {k: Family(k, 1, sh, kind, pos=pos) for k, sh, kind, pos in (("data", lambda s: (T, D, 1), 'c', False), ("nsmp", lambda s: (T, 1), 'f', True), ("ints", lambda s: (T, 1), 'f', True), ("wgts", lambda s: (T, F, 2, 1), 'f', False), ("e", lambda s: (T, D, 1), 'f', True), ("x", lambda s: (T, D, 1), 'f', True), ("covr", lambda s: (T, D, D, 1), 'f', False), ("covi", lambda s: (T, D, D, 1), 'f', False), ("wf", (lambda s: (T, D, K, L, 1)) if exact else (lambda s: (T, D, D, 1)), 'f', False))}
        get = lambda name: (lambda self, key, *a, **k: _gi(f[name].view(0), (Ellipsis, 0)))
        for m, name in (("get_data", "data"), ("get_nsamples", "nsmp"), ("get_integrations", "ints"), ("get_wgts", "wgts"), ("get_window_function", "wf")): interp.CONTRACTS[getattr(UVPSpec, m)] = get(name)
        interp.CONTRACTS[UVPSpec.get_cov] = lambda self, key, component="real", omit_flags=False: get("covr" if component == "real" else "covi")(self, key)
        interp.CONTRACTS[UVPSpec.get_stats] = lambda self, stat, key, omit_flags=False: get(stat)(self, key)
        d.update(Nspws=1, Npols=1, folded=False, exact_windows=exact, polpair_array=np.array(P), blpair_array=npmodel.new((nt,), 'i', lambda ix: PAIR), bl_array=np.array(uu._blpair_to_bls(PAIR)), labels=np.array(["a"]))
        d["bl_vecs"] = np.array([[b * 1., 0., 1.] for b in d["bl_array"].tolist()])
        for a in ALIGNED[:6]: d[a] = sarr(a, (nt,))
        if errors: d["stats_array"] = {"e": None, "x": None}
        if cov: d["cov_array_real"] = d["cov_array_imag"] = None
        if wf: d["window_function_array"] = None
        if exact: d["window_function_kperp"], d["window_function_kpara"] = {0: np.zeros((2, 1))}, {0: np.ones((3, 1))}
        interp.CONTRACTS[set] = lambda x: {PAIR} if isinstance(x, SArr) else {0} if isinstance(x, list) and isinstance(x[0], tuple) else set(x)
        interp.CONTRACTS[UVPSpec.check] = lambda self, just_meta=False: None; interp.CONTRACTS[utils.get_bl_lens_angs] = lambda *a, **k: (None, None); interp.CONTRACTS[UVPSpec.get_blpair_blvecs] = lambda self, **k: [None]; interp.CONTRACTS[UVPSpec.get_blpairs] = lambda self: [uu._blpair_to_antnums(PAIR)]; interp.CONTRACTS[UVPSpec.antnums_to_blpair] = lambda self, b: uu._antnums_to_blpair(b)
        interp.CONTRACTS[UVPSpec.blpair_to_indices] = lambda self, b: npmodel.new((nt,), 'i', lambda ix: mk('i', zi(as_int(ix[0]))))
        u0 = {a: d[a] for a in ALIGNED[:6]}; circ = []; interp.CONTRACTS[utils.circular_average] = lambda x: (circ.append(x), mk('f', z3.Real(f"circ{len(circ)}")))[1]
        call(grouping.average_spectra, u, blpair_groups=[[PAIR]], time_avg=True, inplace=True, **(dict(error_weights="e", error_field=["x"]) if errors else {}))
        e, g, c, l = (E.fresh('i', x) for x in "egcl"); [E.assume(z3.And(x >= 0, x < m)) for x, m in ((e, D), (g, K if exact else D), (c, F), (l, L))]
        wt = lambda t, ee: 1.0 / (f["e"].old(0, t, ee, 0) * f["e"].old(0, t, ee, 0)) if errors else (lambda i, s: i * i * s)(f["ints"].old(0, t, 0), f["nsmp"].old(0, t, 0))
        at = lambda arr, *ix: A(arr[0]).at(*ix); S = lambda fn, k='f': E.sum(T, fn, k); ok = lambda x: (E.assume(zr(x) >= z3.Q(1, 10**30)), E.assume(zr(x) <= 10**30))
        den = {}
        for n, x in dict(e=e, g=g, z=0).items():
            if n != "g" or cov: den[n] = S(lambda t: wt(t, x)); ok(den[n])
        mean = lambda val, n, x, k='f': S(lambda t: val(t) * wt(t, x), k) / den[n]
        if not (cov or wf):
            E.prove_eq("data", at(d["data_array"], 0, e, 0), mean(lambda t: f["data"].old(0, t, e, 0), "e", e, 'c'))
            E.prove_eq("samples", at(d["nsample_array"], 0, 0), S(lambda t: f["nsmp"].old(0, t, 0)))
            E.prove_eq("integration", at(d["integration_array"], 0, 0), mean(lambda t: f["ints"].old(0, t, 0), "z", 0)); E.prove_eq("weights", at(d["wgt_array"], 0, c, 0, 0), mean(lambda t: f["wgts"].old(0, t, c, 0, 0), "z", 0))
        if cov:
            for k, n in (("covr", "real"), ("covi", "imag")): E.prove_eq("covariance_" + n, at(d["cov_array_" + n], 0, e, g, 0), S(lambda t: f[k].old(0, t, e, g, 0) * wt(t, e) * wt(t, g)) / den["e"] / den["g"])
        if wf: ix = (g, l) if exact else (g,); E.prove_eq("window_function", at(d["window_function_array"], 0, e, *ix, 0), mean(lambda t: f["wf"].old(0, t, e, *ix, 0), "e", e))
        if cov or wf: return
        for a in ("time_1_array", "time_2_array", "time_avg_array"): E.prove_eq(a, A(d[a]).at(0), S(lambda t: A(u0[a]).at(t)) / mk('i', T))
        E.prove("rows", np.asarray(d["blpair_array"]).tolist() == [PAIR] and d["Nbltpairs"] == 1 and len(circ) == 3)
        for n, (x, a) in enumerate(zip(circ, ("lst_1_array", "lst_2_array", "lst_avg_array"))): t = E.fresh('i', 't'); E.assume(t >= 0); E.assume(t < T); E.prove_eq(a + "_averaged", A(x).at(t), A(u0[a]).at(t)); E.prove_eq(a, A(d[a]).at(0), mk('f', z3.Real(f"circ{n + 1}")))
    h.__name__ = "over_any_times" + "_errors" * errors + "_cov" * cov + "_wf" * wf + "_exact" * exact
    return h
for _k in ({}, dict(cov=True), dict(wf=True), dict(wf=True, exact=True)): PROP.proof(budget=200)(over_times(**_k))
B = "1-2 pairs of 1-2 times, 1-2 polarizations; any delays, channels, contents and positive group weights"
for _a, _k in [((False, [[0, 1]], True), {}), ((False, [[0, 1]], True), dict(norm=False, T=1)), ((False, [[1, 0]], False), dict(errors=True, T=1)), ((False, [[1, 0]], False), dict(cov=True, T=1)), ((False, [[1, 0]], False), dict(wf=True, T=1)), ((False, [[1, 0]], False), dict(wf=True, exact=True, T=1)), ((False, [[1], [0]], False), dict(npol=2)),
               ((True, [[0]], False), {}), ((True, [[0]], False), dict(errors=True)), ((True, [[0]], False), dict(cov=True)), ((True, [[0]], False), dict(wf=True)), ((True, [[0]], False), dict(wf=True, exact=True)), ((False, [[1]], False), dict(T=1))]: PROP.proof(budget=150, bounded=B)(average(*_a, **_k))
# ------------------------------------------------------------------ run-time contract cases
def circ(x): return float(np.angle(np.mean(np.exp(1j * np.asarray(x)))) % (2 * np.pi))
def rows(u, b): return np.where(u.blpair_array == b)[0]
def sound(rng, time_avg, **kw):
    exact = rng.coin(.2); st = rng.choice([(), ("P_N",), ("P_N", "x")])
    u = bld(rng, nblp=rng.choice([1, 2, 3, 4, 5]), stats=st, cov=rng.coin(.4), wf=exact or rng.coin(.4), exact=exact, order=None if time_avg else rng.choice(["time", "blp"]), ragged=time_avg and rng.coin(.5), zero_int=rng.choice([0, 0, .3]), npol=rng.choice([1, 2]), nspw=rng.choice([1, 2]), **kw)
    k = 10.0 ** rng.choice([0, 0, -6, 5])
    for s in getattr(u, "stats_array", {}):
        for a in u.stats_array[s].values():
            a *= k
            if rng.coin(.2): a[np.asarray(rng.np().uniform(size=a.shape)) < .15] = np.inf
    if rng.coin(.2) and not exact: u.fold_spectra()
    return u
def positive(u, s): n = int(np.sum(u.spw_dly_array == s)); return slice(-(n - n // 2 - 1), None) if u.folded else slice(None)
@PROP.case(quick=150, thorough=4000)
def averages(rng):
    """averages over groups (given as integers or antenna pairs, of any sizes, some pairs in no group or two) with whole, fractional and zero group weights, normalised or not, with and without time averaging, by integration or by error; folded or not; exact window functions, covariance, statistics of any scale"""
    ta = rng.coin(.5); u = sound(rng, ta); pre = snapshot(u); pairs = list(dict.fromkeys(u.blpair_array.tolist())); grouped = rng.coin(.8); names = list(getattr(u, "stats_array", {})); ew = rng.choice(names + [None]) if names else None; ef = rng.choice([None, names, names[:1]]) if names else None
    if ef and len(ef) == 1 and rng.coin(.5): ef = ef[0]
    gs = ws = None; norm = rng.coin(.7)
    if grouped:
        sh = list(pairs); rng.shuffle(sh); gs = []
        while sh and (not gs or rng.coin(.8)): n = rng.randrange(1, len(sh) + 1); gs.append(sh[:n]); sh = sh[n:]
        if rng.coin(.2): gs.append([rng.choice(pairs) for _ in range(rng.randrange(1, 4))])
        if not ta: gs = [[b for b in g if len(rows(u, b)) == len(rows(u, g[0]))] for g in gs]
        if rng.coin(.7):
            ws = [[rng.choice([1, 2, 3, 1.5, .25, .4, 0]) for _ in g] for g in gs]
            for w in ws:
                if not sum(w): w[rng.randrange(len(w))] = rng.choice([1, .5])
    arg = None if gs is None else [[uu._blpair_to_antnums(b) if hasattr(uu, "_blpair_to_antnums") else u.blpair_to_antnums(b) for b in g] for g in gs] if rng.coin(.4) else copy.deepcopy(gs)
    arg0, ws0, inplace = copy.deepcopy(arg), copy.deepcopy(ws), rng.coin(.3); v = copy.deepcopy(u)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore"); r = grouping.average_spectra(v, blpair_groups=arg, time_avg=ta, blpair_weights=ws, error_field=ef, error_weights=ew, normalize_weights=norm, inplace=inplace) if not norm or rng.coin(.5) else UVPSpec.average_spectra(v, blpair_groups=arg, time_avg=ta, blpair_weights=ws, error_field=ef, error_weights=ew, inplace=inplace)
    r = v if inplace else r; require(inplace or not diff(pre, snapshot(v)), "original", "the original was changed"); require((arg, ws) == (arg0, ws0), "arguments", "the groups or weights given were changed")
    G = [[b] for b in pairs] if gs is None else copy.deepcopy(gs); W = [[1.0] * len(g) for g in G] if ws is None else [list(map(float, w)) for w in ws]; W = [[x * len(w) / sum(w) for x in w] if norm else w for w in W]
    left = [b for b in pairs if gs is not None and not any(b in g for g in gs)]; n0 = sum(1 if ta else len(rows(u, g[0])) for g in G); got = [int(x) for x in r.blpair_array]; tail = list(dict.fromkeys(got[n0:]))
    require(sorted(tail) == sorted(left) or (u.exact_windows and not tail), "left_over", lambda: f"pairs in no group are {left}, the result has {tail} after the groups"); G += [[b] for b in tail]; W += [[1.0] for _ in tail]; keep = ([ef] if isinstance(ef, str) else list(ef or [])) + ([ew] if ew else []); keep = list(dict.fromkeys(keep))
    require(sorted(getattr(r, "stats_array", {})) == sorted(keep), "stat_names", lambda: f"asked for errors {keep}, got {sorted(getattr(r, 'stats_array', {}))}"); at = 0; how = f"groups {gs}, weights {ws} ({'normalised' if norm else 'as given'}), times {'averaged' if ta else 'kept'}, error weights {ew}, folded {u.folded}, exact windows {u.exact_windows}"
    for g, gw in zip(G, W):
        I = [rows(u, b) for b in g]; T = 1 if ta else len(I[0]); out = list(range(at, at + T)); at += T; require(out[-1] < len(got) and all(got[o] == g[0] for o in out), "rows", lambda: f"rows of group {g} are {[got[o] if o < len(got) else None for o in out]}")
        for t, o in enumerate(out):
            J = [(gw[k], i) for k in range(len(g)) for i in (I[k] if ta else I[k][t:t + 1]) if gw[k] > 0]
            for a in ALIGNED[:6]:
                x = getattr(u, a)[I[0]]; w = (circ(x) if a.startswith("lst") else x.mean()) if ta else x[t]; d = getattr(r, a)[o] - w; d = (d + np.pi) % (2 * np.pi) - np.pi if a.startswith("lst") else d; require(abs(d) < 1e-8, a, lambda: f"{a} of group {g} is {getattr(r, a)[o]}, its first pair has {w}")
            for s in range(u.Nspws):
                P = positive(u, s); nd = len(u.data_array[s][0, P, 0])
                for p in range(u.Npols):
                    name = lambda what: lambda: f"{what} of group {g} ({how}) in window {s}, time {t}, polarization {p}"
                    sg = lambda st, i: u.stats_array[st][s][i, P, p].real
                    w = [np.where(np.isfinite(sg(ew, i)), 1 / np.clip(sg(ew, i)**2, 1e-40, None), 0.0) if ew else np.full(nd, u.integration_array[s][i, p]**2 * u.nsample_array[s][i, p]) for _, i in J]
                    tot = sum(m * x for (m, _), x in zip(J, w)); den = np.where(tot > 0, tot, 1.0); mean = lambda f, z=0: sum(m * x.reshape(x.shape + (1,) * z) * f(i) for (m, i), x in zip(J, w)) / den.reshape(den.shape + (1,) * z)
                    ok = lambda x, y: np.allclose(x, y, rtol=1e-8, atol=1e-10 * (1 + np.max(np.abs(np.where(np.isfinite(y), y, 0)), initial=0)))
                    require(ok(r.data_array[s][o, P, p], mean(lambda i: u.data_array[s][i, P, p])), "data", name("average"))
                    require(ok(r.nsample_array[s][o, p], sum(m * u.nsample_array[s][i, p] for m, i in J)), "samples", name("sample count")); d0 = den[0]; first = lambda f: sum(m * x[0] * f(i) for (m, i), x in zip(J, w)) / d0
                    require(ok(r.integration_array[s][o, p], first(lambda i: u.integration_array[s][i, p])), "integration", name("integration")); require(ok(r.wgt_array[s][o, :, :, p], first(lambda i: u.wgt_array[s][i, :, :, p])), "weights", name("weights"))
                    for k in ("cov_array_real", "cov_array_imag"):
                        if hasattr(u, k): require(ok(getattr(r, k)[s][o][P, P, p], sum(m * np.outer(x, x) * getattr(u, k)[s][i][P, P, p] for (m, i), x in zip(J, w)) / np.outer(den, den)), k, name(k))
                    if hasattr(u, "window_function_array"): require(ok(r.window_function_array[s][o, P, ..., p], mean(lambda i: u.window_function_array[s][i, P, ..., p], 2 if u.exact_windows else 1)) if not u.folded else ok(r.window_function_array[s][o][P, P, p], mean(lambda i: u.window_function_array[s][i][P, P, p], 1)), "window_function", name("window function"))
                    for k in ("window_function_kperp", "window_function_kpara"):
                        if hasattr(u, k): require(same(getattr(r, k)[s][:, p], getattr(u, k)[s][:, p]), k, name(k))
                    for st in keep:
                        e = r.stats_array[st][s][o, P, p]; fin = [(m, x, np.where(np.isfinite(sg(st, i)), sg(st, i), 0.0), ~np.isfinite(sg(st, i)) & (x > 0)) for (m, i), x in zip(J, w)]; bad = np.any([b for *_, b in fin], 0) | (tot == 0) | np.all([x * y == 0 for _, x, y, _ in fin], 0)
                        want = np.sqrt(sum(m * x**2 * y**2 for m, x, y, _ in fin)) / den; good = ~bad; require(np.allclose(e[good].real, want[good], rtol=1e-8), "errors", lambda: name(st)() + f": {e[good].real}, expected {want[good]}"); require(np.all(~np.isfinite(e[bad].real) | (e[bad].real > 1e6 * np.max(np.where(good, want, 1e-30), initial=1e-30))), "unknown_errors", name(st + " where a member's error is infinite"))
                    for k, l in (("label_1_array", 0), ("label_2_array", 0)): require(str(r.labels[getattr(r, k)[s, o, p]]) == str(u.labels[getattr(u, k)[s, I[0][0 if ta else t], p]]), "labels", name(k))
    require(at == len(got) == r.Nbltpairs, "row_count", lambda: f"{len(got)} rows, {at} expected"); r.check()
    now = snapshot(r)
    for k in ("freq_array", "dly_array", "spw_freq_array", "spw_dly_array", "polpair_array", "scalar_array", "norm", "norm_units", "vis_units", "folded", "labels", "exact_windows", "OmegaP", "cosmo"): require(k not in pre or same(pre[k], now[k]), k, f"{k} changed"); 
    bl = sorted({x for g in G for x in uu._blpair_to_bls(g[0])}); require(r.bl_array.tolist() == bl and same(r.bl_vecs, u.bl_vecs[[u.bl_array.tolist().index(b) for b in bl]]), "baselines", lambda: f"baselines {r.bl_array.tolist()}, expected {bl}"); return f"groups of {[len(g) for g in G]}"
