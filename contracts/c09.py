from .base import *
PROP = Prop("C09", "deductive verification (VCs generated from the source, z3) with bounded run-time contract cases",
            ["select keeps exactly the requested rows, windows and polarizations, in stored order (C04)", "values are mathematical reals; 1/0 and NaN weights are covered by the run-time cases only",
             "times and LSTs are matched as stored (exactly), then selected within 1e-8 (C04)"])
LEVEL = "proof"
NOTE = "Deductive proof over the real select_common: for any number of rows and polarizations, the values handed to select on each axis are exactly those present in every object, other axes are left alone, and an error is raised only if an axis has nothing in common (windows: bounded numbers of windows, any ranges). subtract_uvp: for any rows in any stored order in either object, any delays, the difference, sample counts, integrations, statistics, covariance and window function under a label are the documented combination of the two values under that label (bounded numbers of windows, polarizations and baseline-pairs). Weights, folded objects, refusals and unchanged operands are covered by bounded run-time contract cases. Trusts the VC generator, the numpy contracts (argsort, unique, isin) and z3."
import copy, warnings
import numpy as np
from hera_pspec import uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff, same, rows_of
from .selection import selected
# ------------------------------------------------------------------ deductive proofs
AX = {"blpairs": ("blpair_array", 'i'), "times": ("time_avg_array", 'f'), "lsts": ("lst_avg_array", 'f'), "polpairs": ("polpair_array", 'i')}
def common(axes, nobj=2, inplace=False):
    def h():
        from .sym import E, interp, blank, dim, sarr, raises, call, z3, zi, as_int, A, mask_hint
        us = []; calls = []
        for n in range(nobj):
            u = blank(); us.append(u)
            for k, (a, kind) in AX.items(): u.__dict__[a] = sarr(f"{a}{n}", (dim(f"N_{k}{n}"),), kind)
        def select(self, spws=None, bls=None, only_pairs_in_bls=True, blpairs=None, times=None, lsts=None, polpairs=None, inplace=True, run_check=True):
            calls.append((self, dict(spws=spws, bls=bls, blpairs=blpairs, times=times, lsts=lsts, polpairs=polpairs), inplace)); return None if inplace else ("selected", len(calls) - 1)
        interp.CONTRACTS[UVPSpec.select] = select
        r, ex = raises(uu.select_common, list(us), **dict(dict(spws=False, blpairs=False, times=False, polpairs=False, lsts=False), **{k: True for k in axes}), inplace=inplace)
        val = lambda n, k, i: us[n].__dict__[AX[k][0]].at(i).e; size = lambda n, k: zi(us[n].__dict__[AX[k][0]].shape_[0])
        def together(k):
            ix = [E.fresh('i', f"{k}{n}") for n in range(nobj)]
            for n, i in enumerate(ix): E.assume(i >= 0); E.assume(i < size(n, k))
            return ix, z3.And([val(n, k, ix[n]) == val(0, k, ix[0]) for n in range(1, nobj)])
        def near(k, i):      # a hint: where the value at position i of the first object sits among its distinct values, and among the common ones
            c = zi(as_int(call(np.unique, us[0].__dict__[AX[k][0]], return_inverse=True)[1].at(i))); out = []
            for rec in E.memo.get('masks', []):
                if rec['depth'] != E.bdepth: continue
                v = z3.substitute(rec['v'], (rec['b'], c)); rk = rec['rank'](c); out.append(rk); E.pc.append(z3.Implies(z3.And(c >= 0, c < rec['n'], v), z3.And(rk >= 0, rk < rec['cnt'], rec['emb'](rk) == c)))
            return out
        if ex is not None:
            E.prove("error_type", isinstance(ex, ValueError)); E.prove("nothing_selected", not calls)
            hyp = [together(k) for k in axes]
            for _, e in hyp: E.assume(e)
            for k, (ix, _) in zip(axes, hyp): near(k, ix[0])
            E.prove("refused_only_if_an_axis_has_nothing_in_common", z3.BoolVal(False)); return
        E.prove("every_object_once", len(calls) == nobj and all(c[0] is u for c, u in zip(calls, us))); E.prove("in_place", all(c[2] is inplace for c in calls))
        E.prove("returned", r is None if inplace else list(r) == [("selected", n) for n in range(nobj)])
        for n, c in enumerate(calls):
            E.prove(f"{n}.other_axes_untouched", all(v is None for k, v in c[1].items() if k not in axes))
            for k in axes:
                a = A(c[1][k]); m = zi(a.shape_[0]); j = E.fresh('i', 'pick'); E.assume(j >= 0); E.assume(j < m); v = a.at(j).e; q = z3.Int("q!i")
                E.prove(f"{n}.{k}.nonempty", m >= 1)
                for o in range(nobj): E.prove(f"{n}.{k}.in_{o}", z3.Exists([q], z3.And(q >= 0, q < size(o, k), val(o, k, q) == v)))
                ix, eq = together(k); E.assume(eq)
                w = near(k, ix[0])
                E.prove(f"{n}.{k}.all_common", z3.Or([z3.And(rk >= 0, rk < m, a.at(rk).e == val(0, k, ix[0])) for rk in w]))
    h.__name__ = f"common_{'_'.join(axes)}_{nobj}{'_in_place' if inplace else ''}"
    return h
for _a in (("blpairs",), ("times",), ("lsts",), ("polpairs",)): PROP.proof(budget=300)(common(_a))
PROP.proof(budget=300)(common(("blpairs", "polpairs"), 3, True))
def windows(nwin):
    """objects with `nwin` windows each, of any ranges (distinct within an object)"""
    def h():
        from .sym import E, interp, blank, raises, z3, sreal, sint
        us, R, calls = [], [], []
        for n, m in enumerate(nwin):
            u = blank(); us.append(u); R.append([(sreal(f"lo{n}_{i}"), sreal(f"hi{n}_{i}"), sint(f"nf{n}_{i}"), sint(f"nd{n}_{i}")) for i in range(m)])
        eq = lambda a, b: z3.And([x.e == y.e for x, y in zip(a, b)])
        for r in R:
            for i in range(len(r)):
                for j in range(i): E.assume(z3.Not(eq(r[i], r[j])))
        interp.CONTRACTS[UVPSpec.get_spw_ranges] = lambda self, spws=None: list(R[[u is self for u in us].index(True)])
        def select(self, spws=None, bls=None, only_pairs_in_bls=True, blpairs=None, times=None, lsts=None, polpairs=None, inplace=True, run_check=True): calls.append((self, spws)); return ("selected", len(calls) - 1)
        interp.CONTRACTS[UVPSpec.select] = select
        r, ex = raises(uu.select_common, list(us), spws=True, blpairs=False, times=False, polpairs=False)
        shared = lambda i: z3.And([z3.Or([eq(R[0][i], x) for x in R[n]]) for n in range(1, len(us))])
        if ex is not None:
            E.prove("error_type", isinstance(ex, ValueError)); E.prove("refused_only_if_nothing_in_common", z3.Not(z3.Or([shared(i) for i in range(nwin[0])]))); return
        E.prove("every_object_once", len(calls) == len(us) and all(c[0] is u for c, u in zip(calls, us)) and list(r) == [("selected", n) for n in range(len(us))])
        S = [[int(x) for x in c[1]] for c in calls]; E.prove("some_window", len(S[0]) > 0 and all(len(s) == len(S[0]) for s in S))
        for i in range(nwin[0]): E.prove(f"kept_iff_common_{i}", shared(i) == z3.BoolVal(i in S[0]))
        for n in range(1, len(us)): E.prove(f"same_windows_{n}", z3.And([eq(R[0][a], R[n][b]) for a, b in zip(S[0], S[n])]))
    h.__name__ = "common_windows_" + "_".join(map(str, nwin))
    return h
for _w in ((1, 1), (2, 1), (2, 2), (2, 1, 1)): PROP.proof(budget=300, bounded=f"numbers of windows {_w}; any ranges")(windows(_w))
def subtract(perm=True, stats=True, cov=True, wf=True, nspw=2, npol=2, nblp=1):
    def h():
        from .sym import E, interp, raises, z3, zi, as_int, A, mk, sarr, dim, blank, nd, ifun, Family
        I = z3.IntSort(); us, fam, N = [], [], []; flip = lambda x: list(reversed(x)) if perm else list(x)
        P = [[1515, 1616][:npol], flip([1515, 1616][:npol])]; W = [[(0., 1., 2, 3), (4., 5., 6, 7)][:nspw], flip([(0., 1., 2, 3), (4., 5., 6, 7)][:nspw])]; ND, NF = ifun("Nd", 1), ifun("Nf", 1); nb = dim("N_of_blpair")
        for n in (0, 1):
            u = blank(); us.append(u); d = u.__dict__; m = dim(f"N{n}"); N.append(m); o = lambda s, n=n: s if n == 0 or not perm else nspw - 1 - zi(as_int(s))
            d.update(folded=False, cov_model="empirical", Nbltpairs=nd(m), Npols=npol, polpair_array=np.array(P[n]), blpair_array=sarr(f"blp{n}", (m,), 'i'), lst_avg_array=sarr(f"lst{n}", (m,)), time_avg_array=sarr(f"tavg{n}", (m,)))
            f = {k: Family(f"{k}{n}", nspw, sh, kind, pos=pos) for k, sh, kind, pos in (("data_array", lambda s, m=m, o=o: (m, ND(o(s)), npol), 'c', False), ("wgt_array", lambda s, m=m, o=o: (m, NF(o(s)), 2, npol), 'f', True), ("integration_array", lambda s, m=m: (m, npol), 'f', True), ("nsample_array", lambda s, m=m: (m, npol), 'f', True))}
            if cov:
                for k in ("cov_array_real", "cov_array_imag"): f[k] = Family(f"{k}{n}", nspw, lambda s, m=m, o=o: (m, ND(o(s)), ND(o(s)), npol))
            if wf: f["window_function_array"] = Family(f"wf{n}", nspw, lambda s, m=m, o=o: (m, ND(o(s)), ND(o(s)), npol))
            for k, v in f.items(): d[k] = interp.created({s: v.view(s) for s in range(nspw)})
            if stats: f["stat"] = Family(f"stat{n}", nspw, lambda s, m=m, o=o: (m, ND(o(s)), npol), 'c'); d["stats_array"] = interp.created({"P_N": interp.created({s: f["stat"].view(s) for s in range(nspw)})})
            fam.append(f); b, l = (lambda i, d=d: d["blpair_array"].at(i).e), (lambda i, d=d: d["lst_avg_array"].at(i).e); q, r = z3.Ints("q!i q!j")
            E.fact(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < m, r >= 0, r < m, b(q) == b(r), l(q) == l(r)), q == r), patterns=[z3.MultiPattern(l(q), l(r))]), key=f"labels{n}")
        q, w = z3.Int("q!i"), z3.Function("same_pair_in_second", I, I); b0, b1 = (us[n].__dict__["blpair_array"] for n in (0, 1))
        E.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N[0]), z3.And(w(q) >= 0, w(q) < N[1], b1.at(w(q)).e == b0.at(q).e)), patterns=[b0.at(q).e]), key="common pairs")
        X = [z3.Int(f"pair{k}") for k in range(nblp)]; E.assume(z3.And([x < y for x, y in zip(X, X[1:])] + [True]))
        for n in (0, 1): a = us[n].__dict__["blpair_array"]; E.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N[n]), z3.Or([a.at(q).e == x for x in X])), patterns=[a.at(q).e]), key=f"pairs{n}")
        for x in X: w = z3.Int(f"row_of_{x}"); E.assume(w >= 0); E.assume(w < N[0]); E.assume(us[0].__dict__["blpair_array"].at(w).e == x)
        interp.CONTRACTS[set] = lambda a: [mk('i', x) for x in X] if a is us[0].__dict__["blpair_array"] else (_ for _ in ()).throw(AssertionError("another set"))
        given = [blank(), blank()]
        for g in given: g.__dict__["folded"] = False
        def contract(uvp_list, spws=True, blpairs=True, times=True, polpairs=True, lsts=False, inplace=False, verbose=False):
            E.prove("matched_on", [x is g for x, g in zip(uvp_list, given)] == [True, True] and (spws, blpairs, polpairs, lsts, times, inplace) == (True, True, True, True, False, False)); return list(us)
        interp.CONTRACTS[uu.select_common] = contract
        interp.CONTRACTS[UVPSpec.get_spw_ranges] = lambda self, spws=None: list(W[0 if self is us[0] else 1])
        r, ex = raises(uu.subtract_uvp, *given, run_check=False)
        i, j, e, g, c = (E.fresh('i', x) for x in "i j e g c".split()); A1, A2 = us[0].__dict__, us[1].__dict__
        if ex is not None:
            E.prove("error_type", isinstance(ex, ValueError)); return
        E.prove("result", r is us[0]); E.assume(i >= 0); E.assume(i < N[0]); E.assume(j >= 0); E.assume(j < N[1])
        E.assume(z3.And(A1["blpair_array"].at(i).e == A2["blpair_array"].at(j).e, A1["lst_avg_array"].at(i).e == A2["lst_avg_array"].at(j).e))
        from dv import npmodel
        np_sqrt = lambda x: interp.call(np.sqrt, [x], {}) if False else npmodel.MODELS[np.sqrt](x)
        for s in range(nspw):
            s2 = W[1].index(W[0][s]); m, mf = ND(s), NF(s); mark = len(E.pc); E.assume(e >= 0); E.assume(e < m); E.assume(g >= 0); E.assume(g < m); E.assume(c >= 0); E.assume(c < mf)
            for p in range(npol):
                p2 = P[1].index(P[0][p]); new, old, two = (lambda k, *ix: fam[0][k].now(s, *ix)), (lambda k, *ix: fam[0][k].old(s, *ix)), (lambda k, *ix: fam[1][k].old(s2, *ix)); t = f"{s}.{p}."
                E.prove_eq(t + "data", new("data_array", i, e, p), old("data_array", i, e, p) - two("data_array", j, e, p2))
                for k in ("nsample_array", "integration_array") if nblp == 1 else (): E.prove_eq(t + k, new(k, i, p), np_sqrt(1.0 / (1.0 / old(k, i, p) ** 2 + 1.0 / two(k, j, p2) ** 2)))
                if stats: x, y = old("stat", i, e, p), two("stat", j, e, p2); E.prove_eq(t + "stats", new("stat", i, e, p), np_sqrt(x.real ** 2 + y.real ** 2) + 1j * np_sqrt(x.imag ** 2 + y.imag ** 2))
                for k in (("cov_array_real", "cov_array_imag") if cov else ()) + (("window_function_array",) if wf else ()): E.prove_eq(t + k, new(k, i, e, g, p), np_sqrt(old(k, i, e, g, p) ** 2 + two(k, j, e, g, p2) ** 2))
            del E.pc[mark:]
    h.__name__ = "subtract" + ("_reordered" if perm else "") + f"_{nspw}_{npol}_{nblp}" + ("_stats" if stats else "") + ("_cov" if cov else "") + ("_windows" if wf else "")
    return h
PROP.proof(budget=400, bounded="one window, polarization and baseline-pair; any rows, delays, channels")(subtract(False, True, True, True, 1, 1))
PROP.proof(budget=400, bounded="two windows, in the other order in the second object; any rows, delays, channels")(subtract(True, False, False, False, 2, 1))
PROP.proof(budget=400, bounded="two polarizations, in the other order in the second object; any rows, delays, channels")(subtract(True, False, False, False, 1, 2))
PROP.proof(budget=400, bounded="two baseline-pairs; any rows, delays, channels")(subtract(False, False, False, False, 1, 1, 2))
# ------------------------------------------------------------------ run-time contract cases
def reordered(rng, u, rows=True):
    """the same spectra stored in another order"""
    v = copy.deepcopy(u); o = list(range(v.Nbltpairs)); rng.shuffle(o); q = list(range(v.Npols)); rng.shuffle(q)
    for k in ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"): setattr(v, k, getattr(v, k)[o])
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array"):
        if hasattr(v, k): setattr(v, k, {s: a[o][..., q] for s, a in getattr(v, k).items()})
    if hasattr(v, "stats_array"): v.stats_array = {st: {s: a[o][..., q] for s, a in d.items()} for st, d in v.stats_array.items()}
    for k in ("window_function_kperp", "window_function_kpara"):
        if hasattr(v, k): setattr(v, k, {s: a[:, q] for s, a in getattr(v, k).items()})
    for k in ("label_1_array", "label_2_array"): setattr(v, k, getattr(v, k)[:, o][:, :, q])
    for k in ("OmegaP", "OmegaPP", "scalar_array"):
        if hasattr(v, k): setattr(v, k, getattr(v, k)[:, q])
    v.polpair_array = v.polpair_array[q]
    if rng.coin(.6): windows(v, rng.sample(list(range(v.Nspws)), v.Nspws))
    v.check(); return v
def windows(v, w):
    """the object's windows listed in the order w"""
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array", "window_function_kperp", "window_function_kpara"):
        if hasattr(v, k): d = getattr(v, k); setattr(v, k, {i: d[x] for i, x in enumerate(w)})
    if hasattr(v, "stats_array"): v.stats_array = {st: {i: d[x] for i, x in enumerate(w)} for st, d in v.stats_array.items()}
    for k in ("label_1_array", "label_2_array", "scalar_array"):
        if hasattr(v, k): setattr(v, k, getattr(v, k)[w])
    for k, o in (("freq_array", "spw_freq_array"), ("dly_array", "spw_dly_array")): setattr(v, k, np.concatenate([getattr(v, k)[getattr(v, o) == x] for x in w])); setattr(v, o, np.concatenate([np.full((getattr(v, o) == x).sum(), i) for i, x in enumerate(w)]))
def keys(u): return [(w, r, p) for w in u.get_spw_ranges() for r in zip(u.blpair_array.tolist(), u.lst_avg_array.tolist()) for p in u.polpair_array.tolist()]
def related(rng, n, **kw):
    """n objects drawn from one parent, each with some of its windows, pairs, times and polarizations, in any stored order"""
    par = bld(rng, nspw=rng.choice([1, 2, 3]), nblp=rng.choice([1, 2, 3, 4]), ntimes=rng.choice([1, 2, 3, 4]), npol=rng.choice([1, 2, 3]), beam=rng.coin(.8), **kw); out = []
    for _ in range(n):
        v = copy.deepcopy(par); g = rng.np(); sub = lambda x: rng.sample(x, rng.randrange(1, len(x) + 1)); sel = {}
        if rng.coin(.5): sel["spws"] = sorted(sub(list(range(v.Nspws))))
        if rng.coin(.5): sel["polpairs"] = sub(v.polpair_array.tolist())
        if rng.coin(.5): sel["blpairs"] = sub(sorted(set(v.blpair_array.tolist())))
        if rng.coin(.5): sel["times"] = sub(sorted(set(v.time_avg_array.tolist())))
        if sel:
            w = copy.deepcopy(v)
            try: v.select(**sel)
            except AssertionError: v = w          # nothing is left: keep all
        for k in ("data_array", "wgt_array", "integration_array", "nsample_array"):
            d = getattr(v, k)
            for s in d: d[s] = d[s] * g.uniform(.5, 2, d[s].shape)
        out.append(reordered(rng, v) if rng.coin(.6) else v)
    return out
@PROP.case(quick=100, thorough=3000)
def matching(rng):
    """2-3 objects sharing some windows, pairs, times or LSTs and polarizations, in different stored orders; every subset of the axes; copies and in-place"""
    us = related(rng, rng.choice([2, 2, 3]), stats=rng.choice([(), ("P_N",)]), cov=rng.coin(.3), wf=rng.coin(.3), ragged=rng.coin(.3)); pre = [snapshot(u) for u in us]
    kw = dict(spws=rng.coin(.7), blpairs=rng.coin(.7), polpairs=rng.coin(.7), times=rng.coin(.5)); kw["lsts"] = not kw["times"] and rng.coin(.5); inplace = rng.coin(.3)
    inter = lambda f: [x for x in f(us[0]) if all(x in f(u) for u in us)]
    W = inter(lambda u: u.get_spw_ranges()); sets = dict(blpairs=inter(lambda u: sorted(set(u.blpair_array.tolist()))), times=inter(lambda u: sorted(set(u.time_avg_array.tolist()))), lsts=inter(lambda u: sorted(set(u.lst_avg_array.tolist()))), polpairs=inter(lambda u: u.polpair_array.tolist()))
    empty = any(kw[k] and not v for k, v in list(sets.items()) + [("spws", W)])
    try: want = [selected(p, spws=[u.get_spw_ranges().index(w) for w in W] if kw["spws"] else None, **{k: v for k, v in sets.items() if kw[k]}) for u, p in zip(us, pre)] if not empty else None
    except LookupError: want = None
    try: r = uu.select_common(us, inplace=inplace, **kw)
    except Exception as ex:
        require(want is None, "refused", lambda: f"select_common({kw}) raised {type(ex).__name__}: {ex}, but {W, sets} are shared"); require(not empty or isinstance(ex, ValueError), "error", lambda: f"raised {type(ex).__name__} where nothing is shared"); return "nothing shared"
    require(want is not None, "accepted", lambda: f"select_common({kw}) did not raise although nothing is shared"); out = us if inplace else r; require(inplace or len(r) == len(us), "count", "one object per input")
    for n, (v, w) in enumerate(zip(out, want)):
        d = diff(w, snapshot(v)); require(not d, "selected", lambda: f"select_common({kw}) of {len(us)} objects: object {n} has {v.Nspws} windows, pairs {sorted(set(v.blpair_array.tolist()))}, polarizations {v.polpair_array.tolist()}; shared are {W, sets}; wrong {d}")
    require(inplace or all(not diff(p, snapshot(u)) for p, u in zip(pre, us)), "originals", "the originals were changed"); return str(kw)
def invquad(a, b):
    with np.errstate(divide="ignore"): return np.sqrt(1 / (1 / a**2 + 1 / b**2))
@PROP.case(quick=100, thorough=3000)
def differences(rng):
    """two objects with different windows, pairs, LSTs, polarizations and stored orders; folded or not; with and without statistics, covariance, window functions; some weights and sample counts zero"""
    a, b = related(rng, 2, stats=rng.choice([(), ("P_N",), ("P_N", "x")]), cov=rng.coin(.5), wf=rng.coin(.5), exact=rng.coin(.3))
    for u in (a, b):
        if rng.coin(.3):
            z = u.blpair_array == rng.choice(u.blpair_array.tolist())
            for s in u.wgt_array: u.wgt_array[s][z] = 0.0; u.nsample_array[s][z] = 0.0
    if rng.coin(.25) and not a.exact_windows: a.fold_spectra(); b.fold_spectra()
    if rng.coin(.05): b.folded = not a.folded
    pa, pb = snapshot(a), snapshot(b); la, lb = set(keys(a)), set(keys(b)); common_ = la & lb
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"): warnings.simplefilter("ignore"); r = uu.subtract_uvp(a, b)
    except Exception as ex:
        L = lambda u, x: sorted(l for y, l in zip(u.blpair_array.tolist(), u.lst_avg_array.tolist()) if y == x)
        lst = set(a.lst_avg_array.tolist()) & set(b.lst_avg_array.tolist()); blp = set(a.blpair_array.tolist()) & set(b.blpair_array.tolist())
        aligned = lst and all([l for l in L(a, x) if l in lst] == [l for l in L(b, x) if l in lst] for x in blp)
        require(not common_ or not aligned or a.folded != b.folded, "refused", lambda: f"subtract_uvp raised {type(ex).__name__}: {ex} for objects with {len(common_)} common spectra (folded: {a.folded})"); require(isinstance(ex, (ValueError, AssertionError)), "error", lambda: f"{type(ex).__name__}: {ex}"); return "refused"
    require(a.folded == b.folded, "mixed", "folded and unfolded spectra were subtracted"); require(not diff(pa, snapshot(a)) and not diff(pb, snapshot(b)), "operands", "the operands were changed")
    require(set(keys(r)) == common_ and len(keys(r)) == len(common_), "labels", lambda: f"difference has {len(keys(r))} spectra, {len(common_)} are common")
    pos = lambda u: {(w, (x, l), p): (i, j, k) for i, w in enumerate(u.get_spw_ranges()) for j, (x, l) in enumerate(zip(u.blpair_array.tolist(), u.lst_avg_array.tolist())) for k, p in enumerate(u.polpair_array.tolist())}
    A, B, R = pos(a), pos(b), pos(r)
    for key, (s, i, p) in R.items():
        (sa, ia, p1), (sb, ib, p2) = A[key], B[key]; name = lambda what: lambda: f"{what} of window {key[0]}, pair {key[1][0]}, LST {key[1][1]}, polarization {key[2]} (rows {ia} of the first, {ib} of the second)"
        ok = lambda x, y, nan=False: np.allclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=nan)
        require(ok(r.data_array[s][i, :, p], a.data_array[sa][ia, :, p1] - b.data_array[sb][ib, :, p2]), "data", name("difference"))
        for k in ("nsample_array", "integration_array"): require(ok(getattr(r, k)[s][i, p], invquad(getattr(a, k)[sa][ia, p1], getattr(b, k)[sb][ib, p2])), k, name(k))
        q = lambda t: (lambda x, y: invquad(a.wgt_array[x[0]][x[1], :, :, x[2]], b.wgt_array[y[0]][y[1], :, :, y[2]]))(A[t], B[t])
        top = max(q(t).max() for t in R if t[0] == key[0] and t[1][0] == key[1][0] and t[2] == key[2]); require(ok(r.wgt_array[s][i, :, :, p], q(key) / (top or 1.0)), "weights", name("weights"))
        for st in getattr(a, "stats_array", {}):
            x, y = a.stats_array[st][sa][ia, :, p1], b.stats_array[st][sb][ib, :, p2]; require(ok(r.stats_array[st][s][i, :, p], np.sqrt(x.real**2 + y.real**2) + 1j * np.sqrt(x.imag**2 + y.imag**2), True), "stats", name(st))
        for k in ("cov_array_real", "cov_array_imag", "window_function_array"):
            if hasattr(a, k): require(ok(getattr(r, k)[s][i, ..., p], np.sqrt(getattr(a, k)[sa][ia, ..., p1]**2 + getattr(b, k)[sb][ib, ..., p2]**2)), k, name(k))
    return f"{len(common_)} spectra"
