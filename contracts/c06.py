from .base import *
PROP = Prop("C06", "deductive verification (VCs generated from the source, z3) with bounded run-time contract cases",
            ["pieces are cut out with select, whose contract is C04", "values are mathematical reals in the proofs"])
LEVEL = "proof"
NOTE = "combine_uvpspec proved entry by entry for two or three objects of up to three windows, four rows and three polarizations with any delays, channels and contents (the numbers of labels are bounded, contents are not); recursive combination proved for any number of objects; get_uvp_overlap, which decides the axis, is exercised by the run-time cases."
import copy, warnings
import numpy as np
from hera_pspec import uvpspec, uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff, same, rows_of, PERROW, ALIGNED
from .c09 import reordered
# ------------------------------------------------------------------ deductive proofs
SPW = [(100., 110., "nf0", "nd0"), (120., 130., "nf1", "nd1"), (140., 150., "nf2", "nd2")]
ROWS = [(101102101103, 1.0, 1.5), (101102101103, 1.0, 2.5), (101103102103, 1.0, 1.5), (101103102103, 2.0, 2.5)]; POLS = [1515, 1414, 1415]
def combine(ax, windows, rows, pols, exact=False, cov=False, wf=False, stats=False):
    """objects whose windows, rows and polarizations are stored as given; any delays, channels and contents"""
    def h():
        from .sym import E, interp, raises, call, z3, zi, as_int, A, mk, sarr, dim, blank, nd, ifun, Family
        n = len(windows); ND, NF = ([dim(f"N{x}{w}") for w in range(3)] for x in "df"); K, L = dim("Nkperp"), dim("Nkpara")
        R = lambda w: (SPW[w][0], SPW[w][1], nd(NF[w]), nd(ND[w])); rng = [R(w) for w in range(3)]; us, fam = [], []
        for o in range(n):
            u = blank(); us.append(u); d = u.__dict__; W, T, P = windows[o], rows[o], pols[o]; S, N, M = len(W), len(T), len(P); pick = lambda x, W=W: (lambda s: x[W[0]] if len(W) == 1 else z3.If(zi(as_int(s)) == 0, x[W[0]], x[W[1]])); D, F = pick(ND), pick(NF)
            d.update(Nspws=S, Npols=M, Nbltpairs=N, folded=False, exact_windows=exact, cov_model="empirical", r_params="", history=f"h{o}", spw_array=np.arange(S), polpair_array=np.array([POLS[p] for p in P]),
                     blpair_array=np.array([ROWS[t][0] for t in T]), time_1_array=np.array([ROWS[t][1] for t in T]), time_2_array=np.array([ROWS[t][2] for t in T]), time_avg_array=np.array([10. + t for t in T]), lst_1_array=np.array([20. + t for t in T]), lst_2_array=np.array([30. + t for t in T]), lst_avg_array=np.array([40. + t for t in T]),
                     spw_freq_array=np.concatenate([[s] * 2 for s in range(S)]), spw_dly_array=np.concatenate([[s] * 3 for s in range(S)]), freq_array=np.concatenate([[SPW[w][0], SPW[w][0] + 1] for w in W]), dly_array=np.concatenate([[w, w + .1, w + .2] for w in W]),
                     labels=np.array(["b", "a"] if o % 2 else ["a", "c"]), label_1_array=np.array([[[(w + t + p) % 2 for p in P] for t in T] for w in W]), label_2_array=np.array([[[(w * t + p) % 2 for p in P] for t in T] for w in W]), bl_array=np.array(sorted({b for t in T for b in uu._blpair_to_bls(ROWS[t][0])})))
            d["bl_vecs"] = np.array([[b, 0., 1.] for b in d["bl_array"].tolist()])
            f = {k: Family(f"{k}{o}", S, sh, kind) for k, sh, kind in (("data_array", lambda s: (N, D(s), M), 'c'), ("wgt_array", lambda s: (N, F(s), 2, M), 'f'), ("integration_array", lambda s: (N, M), 'f'), ("nsample_array", lambda s: (N, M), 'f'))}
            if cov:
                for k in ("cov_array_real", "cov_array_imag"): f[k] = Family(f"{k}{o}", S, lambda s: (N, D(s), D(s), M))
            if wf: f["window_function_array"] = Family(f"wf{o}", S, lambda s: (N, D(s), K, L, M) if exact else (N, D(s), D(s), M))
            if wf and exact:
                for k, x in (("window_function_kperp", K), ("window_function_kpara", L)): f[k] = Family(f"{k}{o}", S, lambda s, x=x: (x, M))
            for k, v in f.items(): d[k] = interp.created({s: v.view(s) for s in range(S)})
            d["scalar_array"] = sarr(f"scalar{o}", (S, M)) if ax != "blpairts" else np.array([[w + p / 10 for p in P] for w in W]); d["OmegaP"], d["OmegaPP"] = (sarr(f"{k}{o}", (dim("Nbeam"), M)) for k in ("OmegaP", "OmegaPP"))
            if stats:
                f["x"] = Family(f"x{o}", S, lambda s: (N, D(s), M), 'c'); d["stats_array"] = interp.created({"x": interp.created({s: f["x"].view(s) for s in range(S)})})
                if o: d["stats_array"]["only"] = d["stats_array"]["x"]
            fam.append(f)
        every = lambda x: sorted({v for o in x for v in o}, reverse=True); aw, ar, ap = every(windows), every(rows), every(pols)
        interp.CONTRACTS[UVPSpec.get_spw_ranges] = lambda self, spws=None: [rng[w] for w in windows[[x is self for x in us].index(True)]]
        interp.CONTRACTS[uvpspec.get_uvp_overlap] = lambda uvps, just_meta=True, verbose=True: (uvps, ax, [rng[w] for w in aw], [ROWS[t] for t in ar], [POLS[p] for p in ap], {"norm": "I"})
        interp.CONTRACTS[sorted] = lambda x: sorted(x);      # labels and the edges of the windows are concrete
        interp.CONTRACTS[UVPSpec] = lambda: blank(); interp.CONTRACTS[UVPSpec.check] = lambda self, just_meta=False: None
        u = call(uvpspec.combine_uvpspec, list(us), verbose=False); d = u.__dict__; ok = lambda k, v: E.prove(k, v)
        W, T, P = sorted(aw), sorted(ar, key=lambda t: ROWS[t]), sorted(ap, key=lambda p: POLS[p])
        ok("polarizations", np.asarray(d["polpair_array"]).tolist() == [POLS[p] for p in P]); ok("counts", (d["Nspws"], d["Nbltpairs"], d["Npols"]) == (len(W), len(T), len(P)))
        for k, v in (("time_avg_array", 10.), ("lst_1_array", 20.), ("lst_2_array", 30.), ("lst_avg_array", 40.)): ok(k, np.asarray(d[k]).tolist() == [v + t for t in T])
        ok("rows", list(zip(*(np.asarray(d[k]).tolist() for k in ("blpair_array", "time_1_array", "time_2_array")))) == [ROWS[t] for t in T])
        ok("frequencies", [np.asarray(d["freq_array"])[np.asarray(d["spw_freq_array"]) == s].tolist() for s in range(len(W))] == [[SPW[w][0], SPW[w][0] + 1] for w in W]); ok("delays", [np.asarray(d["dly_array"])[np.asarray(d["spw_dly_array"]) == s].tolist() for s in range(len(W))] == [[w, w + .1, w + .2] for w in W])
        ok("baselines", (np.asarray(d["bl_array"]).tolist(), np.asarray(d["bl_vecs"])[:, 0].tolist()) == ((lambda b: (b, b))(sorted({b for x in us for b in x.bl_array.tolist()})))); ok("static", d["norm"] == "I" and (not (wf and exact) or bool(d["exact_windows"]) is True))
        e, g, c = (E.fresh('i', x) for x in "egc"); E.assume(e >= 0); E.assume(g >= 0); E.assume(c >= 0)
        for si, w in enumerate(W):
            mark = len(E.pc); E.assume(e < ND[w]); E.assume(g < (K if exact else ND[w])); E.assume(c < (L if exact else NF[w])) if not exact else None
            f0 = E.fresh('i', 'f'); E.assume(f0 >= 0); E.assume(f0 < NF[w]); l = E.fresh('i', 'l'); E.assume(l >= 0); E.assume(l < L)
            for pi, p in enumerate(P):
                for ti, t in enumerate(T):
                    o = next(x for x in range(n) if w in windows[x] and t in rows[x] and p in pols[x]); s, i, q = windows[o].index(w), rows[o].index(t), pols[o].index(p); tag = f"{w}.{t}.{p}."
                    at = lambda k, *ix: A(d[k][si]).at(*ix); old = lambda k, *ix: fam[o][k].old(s, *ix)
                    E.prove_eq(tag + "data", at("data_array", ti, e, pi), old("data_array", i, e, q))
                    for j in (0, 1): E.prove_eq(tag + f"weights{j}", at("wgt_array", ti, f0, j, pi), old("wgt_array", i, f0, j, q))
                    for k in ("integration_array", "nsample_array"): E.prove_eq(tag + k, at(k, ti, pi), old(k, i, q))
                    for k in ("cov_array_real", "cov_array_imag") if cov else (): E.prove_eq(tag + k, at(k, ti, e, g, pi), old(k, i, e, g, q))
                    if wf: E.prove_eq(tag + "window_function", at("window_function_array", ti, e, g, *((l,) if exact else ()), pi), old("window_function_array", i, e, g, *((l,) if exact else ()), q))
                    if stats: E.prove_eq(tag + "stats", A(d["stats_array"]["x"][si]).at(ti, e, pi), fam[o]["x"].old(s, i, e, q)); ok(tag + "stat_names", list(d["stats_array"]) == ["x"])
                    E.prove_eq(tag + "scalar", A(d["scalar_array"]).at(si, pi), A(us[o].__dict__["scalar_array"]).at(s, q))
                    for k in ("label_1_array", "label_2_array"): ok(tag + k, str(d["labels"][int(np.asarray(d[k])[si, ti, pi])]) == str(us[o].labels[getattr(us[o], k)[s, i, q]]))
                    b = E.fresh('i', 'b'); E.assume(b >= 0); E.assume(b < dim("Nbeam"))
                    for k in ("OmegaP", "OmegaPP"): E.prove_eq(tag + k, A(d[k]).at(b, pi), us[[p in x for x in pols].index(True)].__dict__[k].at(b, pols[[p in x for x in pols].index(True)].index(p)))
                    if wf and exact: E.prove_eq(tag + "kperp", A(d["window_function_kperp"][si]).at(g, pi), old("window_function_kperp", g, q)); E.prove_eq(tag + "kpara", A(d["window_function_kpara"][si]).at(l, pi), old("window_function_kpara", l, q))
            del E.pc[mark:]
    h.__name__ = f"combine_{ax}_{len(windows)}" + "_exact" * exact + "_cov" * cov + "_wf" * wf + "_stats" * stats
    return h
B = "2-3 objects of 1-2 windows, 1-3 rows, 1-2 polarizations, in different stored orders; any delays, channels and contents"
PROP.proof(budget=300, bounded=B)(combine("blpairts", [[1, 0], [0, 1]], [[2, 0], [1]], [[0, 1], [1, 0]], stats=True))
PROP.proof(budget=300, bounded=B)(combine("blpairts", [[0], [0], [0]], [[2], [1, 0], [3]], [[0], [0], [0]], cov=True, wf=True))
PROP.proof(budget=300, bounded=B)(combine("spw", [[1], [2, 0]], [[2, 0, 1], [0, 1, 2]], [[0, 1], [1, 0]], wf=True))
PROP.proof(budget=300, bounded=B)(combine("spw", [[1], [0]], [[2, 0], [0, 2]], [[0], [0]], exact=True, wf=True))
PROP.proof(budget=300, bounded=B)(combine("polpairs", [[1, 0], [0, 1]], [[1, 0], [0, 1]], [[0], [1]], cov=True, stats=True))
PROP.proof(budget=300, bounded=B)(combine("polpairs", [[1], [1]], [[1, 0], [0, 1]], [[2, 0], [1]], exact=True, wf=True))
@PROP.proof(budget=200)
def combine_recursive():
    """any number of objects: by induction on that number, all of them, once each and in order, reach the combination"""
    from .sym import E, interp, raises, z3, zi, as_int, A, dim, call, mk
    f = uvpspec.recursive_combine_uvpspec; N = dim("N"); xs = call(np.arange, mk('i', N)); body = interp.func_of(f)
    class Sum:
        def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    size = lambda v: zi(as_int(interp.call(len, [v], {}))) if not isinstance(v, list) else len(v)
    def span(x): return (x.lo, x.hi) if isinstance(x, Sum) else (zi(as_int(x)), zi(as_int(x)) + 1)
    def rec(uvps):
        m = size(uvps); E.prove("calls_itself_on_fewer", z3.And(zi(as_int(m)) >= 1, zi(as_int(m)) < N)); lo = zi(as_int(A(uvps).at(0))); j = E.fresh('i', 'j'); E.assume(j >= 0); E.assume(j < m); E.prove("a_run_of_the_list", zi(as_int(A(uvps).at(j))) == lo + j); return Sum(lo, lo + m)
    def two(uvps, merge_history=True, verbose=True):
        m = size(uvps); E.prove("combines_two", m == 2); a, b = (span(uvps[k]) if isinstance(uvps, list) else span(A(uvps).at(k)) for k in (0, 1)); E.prove("adjacent", a[1] == b[0]); return Sum(a[0], b[1])
    interp.CONTRACTS[f] = rec; interp.CONTRACTS[uvpspec.combine_uvpspec] = two
    try: r = interp.call_func(body, [xs], {})
    except ValueError: E.prove("refused_only_if_there_are_none", N <= 0); return
    lo, hi = span(r); E.prove("everything_in_order", z3.And(lo == 0, hi == N))
# ------------------------------------------------------------------ run-time contract cases
def content(u):
    """everything an object says, keyed by what it says it about"""
    c = {}; W = u.get_spw_ranges(); R = rows_of(u); P = u.polpair_array.tolist()
    for s, w in enumerate(W):
        c["window", w] = (u.freq_array[u.spw_freq_array == s], u.dly_array[u.spw_dly_array == s])
        for q, p in enumerate(P):
            c["scalar", w, p] = u.scalar_array[s, q]
            for k in ("window_function_kperp", "window_function_kpara"):
                if hasattr(u, k): c[k, w, p] = getattr(u, k)[s][:, q]
            for n, r in enumerate(R):
                for k in PERROW:
                    if hasattr(u, k): c[k, w, r, p] = getattr(u, k)[s][n, ..., q]
                for st in getattr(u, "stats_array", {}): c["stats", st, w, r, p] = u.stats_array[st][s][n, :, q]
                for k in ("label_1_array", "label_2_array"): c[k, w, r, p] = str(u.labels[getattr(u, k)[s, n, q]])
    for n, r in enumerate(R):
        for k in ALIGNED: c[k, r] = getattr(u, k)[n]
    for b, v in zip(u.bl_array.tolist(), u.bl_vecs): c["bl_vec", b] = v
    for q, p in enumerate(P):
        for k in ("OmegaP", "OmegaPP"):
            if hasattr(u, k): c[k, p] = getattr(u, k)[:, q]
    return c
def compare(want, got, where):
    miss = sorted(map(str, set(want) - set(got))); extra = sorted(map(str, set(got) - set(want)))
    require(not miss, "missing", lambda: f"{where}: {len(miss)} entries missing, e.g. {miss[:3]}"); require(not extra, "extra", lambda: f"{where}: {len(extra)} entries that no piece has, e.g. {extra[:3]}")
    bad = [k for k in want if (not all(same(x, y) for x, y in zip(want[k], got[k])) if isinstance(want[k], tuple) else not same(want[k], got[k]))]
    require(not bad, "values", lambda: f"{where}: {len(bad)} entries changed, e.g. {bad[:3]}")
def windows_reordered(u, o):
    """the same spectra with the spectral windows stored in order o"""
    v = copy.deepcopy(u)
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array", "window_function_kperp", "window_function_kpara"):
        if hasattr(v, k): setattr(v, k, {n: getattr(u, k)[s] for n, s in enumerate(o)})
    if hasattr(v, "stats_array"): v.stats_array = {st: {n: d[s] for n, s in enumerate(o)} for st, d in u.stats_array.items()}
    for k in ("label_1_array", "label_2_array", "scalar_array"): setattr(v, k, getattr(u, k)[list(o)])
    for k, i in (("freq_array", "spw_freq_array"), ("dly_array", "spw_dly_array")):
        setattr(v, k, np.concatenate([getattr(u, k)[getattr(u, i) == s] for s in o])); setattr(v, i, np.concatenate([np.full(int(np.sum(getattr(u, i) == s)), n, np.uint16) for n, s in enumerate(o)]))
    v.check(); return v
def parts(rng, xs, n):
    """xs cut into n nonempty parts"""
    xs = list(xs); rng.shuffle(xs); cut = sorted(rng.sample(range(1, len(xs)), n - 1)); return [xs[a:b] for a, b in zip([0] + cut, cut + [len(xs)])]
def row_select(u, rows):
    v = copy.deepcopy(u); o = [n for n, r in enumerate(rows_of(u)) if r in rows]
    for k in ALIGNED: setattr(v, k, getattr(v, k)[o])
    for k in PERROW:
        if hasattr(v, k): setattr(v, k, {s: a[o] for s, a in getattr(v, k).items()})
    if hasattr(v, "stats_array"): v.stats_array = {st: {s: a[o] for s, a in d.items()} for st, d in v.stats_array.items()}
    for k in ("label_1_array", "label_2_array"): setattr(v, k, getattr(v, k)[:, o])
    bls = sorted({x for b in set(v.blpair_array.tolist()) for x in uu._blpair_to_bls(b)}); i = [v.bl_array.tolist().index(b) for b in bls]; v.bl_array, v.bl_vecs = v.bl_array[i], v.bl_vecs[i]
    v.Nbltpairs, v.Nbls, v.Nblpairs = len(o), len(bls), len(set(v.blpair_array.tolist())); v.Ntpairs = len({(b, c) for a, b, c in rows_of(v)}); v.Ntimes = len(np.unique(np.hstack([v.time_1_array, v.time_2_array]))); v.check(); return v
def whole(rng, **kw):
    u = bld(rng, stats=rng.choice([(), (), ("P_N",), ("P_N", "x")]), cov=rng.coin(.3), wf=rng.coin(.4), exact=rng.coin(.4), beam=rng.coin(.7), cosmo=rng.coin(.8), ragged=rng.coin(.4), crossed=rng.coin(.2), **kw)


    u.channel_width = np.full(9, 97656.25)
    if rng.coin(.25) and not u.exact_windows: u.fold_spectra()
    return u
def pieces(rng, u, ax, n):
    if ax == "spw": out = [u.select(spws=sorted(p), inplace=False) for p in parts(rng, range(u.Nspws), n)]
    elif ax == "polpairs": out = [u.select(polpairs=p, inplace=False) for p in parts(rng, u.polpair_array.tolist(), n)]
    else: out = [row_select(u, p) for p in parts(rng, rows_of(u), n)]
    out = [reordered(rng, v) if rng.coin(.6) else v for v in out]
    if rng.coin(.4): out = [windows_reordered(v, rng.sample(range(v.Nspws), v.Nspws)) for v in out]
    return out
@PROP.case(quick=150, thorough=4000)
def partitions(rng):
    """spectra cut into 2-4 pieces along windows, rows or polarizations, each piece stored in its own order of rows, polarizations and windows; folded or not; exact window functions, statistics, covariance; different time pairs with equal first time"""
    u = whole(rng); ax = rng.choice(["spw", "blpairts", "polpairs"]); size = dict(spw=u.Nspws, blpairts=u.Nbltpairs, polpairs=u.Npols)[ax]
    if size < 2: return "nothing to cut"
    n = min(size, rng.choice([2, 2, 3, 4])); ps = pieces(rng, u, ax, n); pre = [snapshot(p) for p in ps]; rec = rng.coin(.3)
    if ax == "blpairts" and len({tuple(p.polpair_array) for p in ps}) + len({tuple(p.get_spw_ranges()) for p in ps}) > 2 and False: pass
    want = content(u)
    try: r = uvpspec.recursive_combine_uvpspec(ps) if rec else uvpspec.combine_uvpspec(ps, verbose=False)
    except Exception as ex: require(False, "refused", f"combining {n} pieces of one object along {ax} raised {type(ex).__name__}: {ex} (exact windows {u.exact_windows}, folded {u.folded})")
    require(all(not diff(p, snapshot(q)) for p, q in zip(pre, ps)), "originals", "a piece was changed"); r.check()
    compare(want, content(r), f"{n} pieces along {ax}" + (", combined recursively" if rec else ""))
    for k in ("Nspws", "Npols", "Nbltpairs", "Nblpairs", "Nbls", "Ntpairs", "Nspwfreqs", "Nspwdlys", "Nfreqs", "Ndlys", "folded", "exact_windows", "norm", "norm_units", "vis_units", "weighting", "taper", "r_params", "channel_width", "telescope_location", "beam_freqs", "cosmo"):
        require(hasattr(u, k) == hasattr(r, k) and (not hasattr(u, k) or same(np.sort(getattr(u, k)) if k == "channel_width" else getattr(u, k), np.sort(getattr(r, k)) if k == "channel_width" else getattr(r, k))), k, lambda: f"{k} of {n} pieces along {ax} is {getattr(r, k, None)}, of the whole {getattr(u, k, None)}")
    o = list(ps); rng.shuffle(o)
    try: r2 = uvpspec.combine_uvpspec(o, verbose=False)
    except Exception as ex: require(False, "order", f"combining the pieces in another order raised {type(ex).__name__}: {ex}")
    d = diff({k: v for k, v in snapshot(r).items()}, snapshot(r2)); require(not [k for k in d if k not in ()], "order", lambda: f"the order of the {n} pieces along {ax} changed {d}"); return f"{ax} {n}"
@PROP.case(quick=80, thorough=2000)
def not_combinable(rng):
    """objects that overlap, partly overlap, differ along two axes, disagree in metadata, or carry optional arrays in some pieces only"""
    u = whole(rng, nspw=2, npol=2, nblp=rng.choice([2, 3]), ntimes=rng.choice([1, 2, 3]), order="blp"); R = rows_of(u); k = rng.randrange(1, len(R)); a, b = row_select(u, R[:k]), row_select(u, R[k:]); bad = True; why = rng.choice(["same", "rows overlap", "windows overlap", "two axes", "meta", "scalar", "beam", "optional", "stats", "labels"])
    if why == "same": b = reordered(rng, a)
    elif why == "rows overlap": b = row_select(u, R[k - 1:])
    elif why == "windows overlap": a, b = u, u.select(spws=[rng.randrange(2)], inplace=False)
    elif why == "two axes": a.select(spws=[0]); b.select(spws=[1])
    elif why == "meta":
        m = rng.choice(["norm", "taper", "vis_units", "norm_units", "weighting"]); setattr(b, m, "other"); why += " " + m
    elif why == "scalar": b.scalar_array = b.scalar_array * (1 + (np.arange(4).reshape(2, 2) == rng.randrange(4)))
    elif why == "beam":
        if not hasattr(b, "OmegaP"): return "no beam"
        m = rng.choice(["OmegaP", "OmegaPP"]); setattr(b, m, getattr(b, m) * [1, 1.5])
    else: bad = False
    if why == "optional":
        for m in ("cov_array_real", "cov_array_imag", "stats_array") if not a.exact_windows else ():
            if hasattr(a, m): delattr(rng.choice([a, b]) if m != "cov_array_imag" else (a if not hasattr(a, "cov_array_real") else b), m)
    if why == "stats" and hasattr(a, "stats_array"): a.stats_array["only"] = copy.deepcopy(a.stats_array["P_N"])
    if why == "labels": b.labels = np.array(["d0", "d1"])
    ps = [a, b]; rng.shuffle(ps); pre = [snapshot(p) for p in ps]; rec = rng.coin(.5)
    try: r = uvpspec.recursive_combine_uvpspec(ps) if rec else uvpspec.combine_uvpspec(ps, verbose=False)
    except (AssertionError, ValueError) as ex: require(bad, "refused", lambda: f"{why}: raised {type(ex).__name__}: {ex}"); r = None
    require(r is None or not bad, "accepted", lambda: f"objects that cannot be combined ({why}) were combined"); require(all(not diff(p, snapshot(q)) for p, q in zip(pre, ps)), "originals", "an operand was changed")
    if r is None: return why
    want = {**content(a), **content(b)}; both = lambda m: all(hasattr(x, m) for x in (a, b)); st = set.intersection(*(set(getattr(x, "stats_array", {})) for x in (a, b)))
    want = {key: v for key, v in want.items() if not (key[0].startswith("cov_array") and not both("cov_array_real")) and not (key[0] == "stats" and key[1] not in st)}
    compare(want, content(r), why); return why
