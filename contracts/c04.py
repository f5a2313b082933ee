from .base import *
PROP = Prop("C04", "deductive verification (VCs generated from the source, modular callee contracts, z3) with bounded run-time contract cases",
            ["polarization-pairs stored in an object are distinct", "window indices stored are 0..Nspws-1"])
LEVEL = "proof"
NOTE = "Unbounded proof (any number of windows, rows, delays, polarizations): selecting by average time, LST, baseline-pairs, baselines, baselines and pairs together, and polarization-pairs keeps exactly the matching rows and polarizations in stored order in every array, or refuses when nothing matches; slices with a step included. Row look-up by baselines is proved for integer and tuple forms (real arithmetic). Window selection is proved for 4 choices out of 3 windows with everything inside the windows symbolic, and rows together with polarizations for one uneven choice of 3 of 4 polarizations (both labelled bounded). Copies, string/tuple forms, weighting parameters and combinations of arguments are covered by bounded run-time contract cases. Trusts the VC generator, its numpy model and z3."
import copy
import numpy as np
from hera_pspec import uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff
from .selection import selected, random_selection
# ------------------------------------------------------------------ deductive proofs
def full(spws=None, pols=None, folded=False):
    """symbolic object: any number of windows (or `spws`), rows, delays, frequencies, polarizations"""
    from .sym import dim, sarr, Family, E, mk, z3, nd, interp, zi
    from .c03 import setup
    u, f, (S, N, P, NF, ND), nd_, nf_ = setup(folded, S=spws, P=pols); d = u.__dict__
    d['spw_array'] = call_arange(S)
    for k in ("time_1_array", "time_2_array", "lst_1_array", "lst_2_array", "lst_avg_array"): d[k] = sarr(k, (N,))
    nb, nq = dim("Nbls"), dim("Nbeam")
    d.update(bl_array=sarr("bl", (nb,), 'i'), bl_vecs=sarr("blvec", (nb, 3)), Nbls=nd(nb), Nfreqs=mk('i', z3.Int("Nfreqs")), Ndlys=mk('i', z3.Int("Ndlys")), Ntimes=mk('i', z3.Int("Ntimes")), Ntpairs=mk('i', z3.Int("Ntpairs")), Nblpairs=mk('i', z3.Int("Nblpairs")))
    d.update(scalar_array=sarr("scalar", (S, P)), OmegaP=sarr("OmegaP", (nq, P)), OmegaPP=sarr("OmegaPP", (nq, P)), beam_freqs=sarr("beamf", (nq,)), r_params="", label_1_array=sarr("lab1", (S, N, P), 'i'), label_2_array=sarr("lab2", (S, N, P), 'i'))
    interp.CONTRACTS[UVPSpec.get_all_keys] = lambda self: []      # only used to prune weighting parameters (C23); there are none here
    return u, f, (S, N, P, NF, ND, nb, nq), nd_, nf_
def call_arange(S):
    from .sym import call
    return call(np.arange, S) if isinstance(S, int) else call(np.arange, __import__("dv.core", fromlist=["mk"]).mk('i', S))
def check_rows(u, f, dims, nd_, nf_, old, rows, pols, pred_row, pred_pol):
    """rows / pols: ghost arrays carried through the code that hold the original positions"""
    from .sym import E, z3, zi, as_int, A, idx, mk
    from .c03 import index_contract
    S, N, P, NF, ND, nb, nq = dims
    m = zi(rows.shape_[0]); p = zi(pols.shape_[0])
    if pred_row is not None: index_contract("rows", rows, pred_row, N)
    else: E.prove("all_rows", m == N)
    if pred_pol is not None: index_contract("pols", pols, pred_pol, P)
    else: E.prove("all_pols", p == P)
    E.prove("count_rows", zi(as_int(u.Nbltpairs)) == m); E.prove("count_pols", zi(as_int(u.Npols)) == p)
    i, q, s, e, g, h = (z3.Int(x) for x in "i q s e g h".split()); E.assume(i >= 0, i < m, q >= 0, q < p, s >= 0, s < S)
    R, Q = zi(as_int(rows.at(i))), zi(as_int(pols.at(q))); E.prove("row_position", z3.And(R >= 0, R < N)) ; E.prove("pol_position", z3.And(Q >= 0, Q < P))
    if pred_row is None: E.prove("rows_in_order", R == i)
    if pred_pol is None: E.prove("pols_in_order", Q == q)
    for k in ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"):
        a = A(u.__dict__[k]); E.prove(f"{k}_count", zi(a.shape_[0]) == m); E.prove_eq(k, a.at(i), old[k].at(R))
    a = A(u.polpair_array); E.prove("polpair_count", zi(a.shape_[0]) == p); E.prove_eq("polpair_array", a.at(q), old["polpair_array"].at(Q))
    a = A(u.scalar_array); E.prove("scalar_shape", z3.And(zi(a.shape_[0]) == S, zi(a.shape_[1]) == p)); E.prove_eq("scalar_array", a.at(s, q), old["scalar_array"].at(s, Q))
    for k in ("label_1_array", "label_2_array"):
        a = A(u.__dict__[k]); E.prove(f"{k}_shape", z3.And(zi(a.shape_[0]) == S, zi(a.shape_[1]) == m, zi(a.shape_[2]) == p)); E.prove_eq(k, a.at(s, i, q), old[k].at(s, R, Q))
    E.assume(g >= 0, g < nq)
    for k in ("OmegaP", "OmegaPP"):
        a = A(u.__dict__[k]); E.prove(f"{k}_shape", z3.And(zi(a.shape_[0]) == nq, zi(a.shape_[1]) == p)); E.prove_eq(k, a.at(g, q), old[k].at(g, Q))
    from .sym import interp
    sk = mk('i', s); n, nf = nd_(s), nf_(s); E.assume(e >= 0, e < n, h >= 0, h < n); c = z3.Int("c"); E.assume(c >= 0, c < nf)
    def chk(nm, a, shape, ix, want):
        a = A(a); E.prove(f"{nm}_rank", a.ndim == len(shape))
        for t, (x, y) in enumerate(zip(a.shape_, shape)): E.prove(f"{nm}_dim{t}", zi(x) == zi(y))
        E.prove_eq(nm, a.at(*ix), want)
    get = lambda k: interp.getitem_any(u.__dict__[k], sk)
    chk("data", get("data_array"), (m, n, p), (i, e, q), f["data_array"].old(s, R, e, Q))
    for w in (0, 1): chk(f"weights{w}", get("wgt_array"), (m, nf, 2, p), (i, c, w, q), f["wgt_array"].old(s, R, c, w, Q))
    chk("integrations", get("integration_array"), (m, p), (i, q), f["integration_array"].old(s, R, Q)); chk("samples", get("nsample_array"), (m, p), (i, q), f["nsample_array"].old(s, R, Q))
    for k in ("cov_array_real", "cov_array_imag", "window_function_array"): chk(k, get(k), (m, n, n, p), (i, e, h, q), f[k].old(s, R, e, h, Q))
    chk("stats", interp.getitem_any(u.__dict__["stats_array"]["P_N"], sk), (m, n, p), (i, e, q), f["stat"].old(s, R, e, Q)); E.prove("stat_names", list(u.__dict__["stats_array"]) == ["P_N"])
OLDK = ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array", "polpair_array", "scalar_array", "label_1_array", "label_2_array", "OmegaP", "OmegaPP", "freq_array", "dly_array", "spw_freq_array", "spw_dly_array", "bl_array", "bl_vecs")
def rows_proof(what, pol, uneven=False):
    """uneven: polarizations 0, 1 and 3 of four, which no slice can express (the two-step selection)"""
    def h():
        from .sym import E, raises, sreal, sint, z3, mk, arrays, sarr, rv, interp, to_real, zi, as_int
        u, f, dims, nd_, nf_ = full(pols=4 if uneven else None); S, N, P = dims[:3]
        if uneven: u.__dict__['polpair_array'] = arrays.from_np(np.array([1515, 1616, 1717, 1818]))
        # ghost positions travel through arrays whose own values the selection never looks at
        gr, gp = ("time_2_array", "OmegaPP") if what != "lsts" else ("lst_2_array", "scalar_array")
        u.__dict__[gr] = arrays.new((N,), 'i', lambda ix: mk('i', ix[0] if not isinstance(ix[0], int) else z3.IntVal(ix[0])))
        sh = u.__dict__[gp].shape_; u.__dict__[gp] = arrays.new(sh, 'i', lambda ix: mk('i', ix[1] if not isinstance(ix[1], int) else z3.IntVal(ix[1])))
        old = {k: u.__dict__[k] for k in OLDK}; kw = {}; pred = predp = None; E.assume(z3.Int("Ntpairs") >= 0)
        blp = lambda j: old["blpair_array"].at(j).e
        if what == "times":
            t = sreal("t"); E.assume(t.e >= 2.4e6, t.e <= 2.6e6); kw["times"] = [t]; x = lambda j: to_real(old["time_avg_array"].at(j)) - t.e; pred = lambda j: z3.And(x(j) <= rv(1e-8) + rv(1e-16) * t.e, -x(j) <= rv(1e-8) + rv(1e-16) * t.e)
        if what == "lsts":
            t = sreal("t"); E.assume(t.e >= 0, t.e <= 7); kw["lsts"] = [t]; x = lambda j: to_real(old["lst_avg_array"].at(j)) - t.e; pred = lambda j: z3.And(x(j) <= rv(1e-8) + rv(1e-16) * t.e, -x(j) <= rv(1e-8) + rv(1e-16) * t.e)
        if what == "blpairs": b, b2 = sint("b"), sint("b2"); kw["blpairs"] = [b, b2]; pred = lambda j: z3.Or(blp(j) == b.e, blp(j) == b2.e)
        if what in ("bls", "bls_and_blpairs"):
            B = z3.Function("in_bls", z3.IntSort(), z3.BoolSort()); only = E.branch(z3.Bool("only")); want = [(3, 4)]
            def contract(uvp, bls, only_pairs_in_bls=False):
                E.prove("baselines_passed_on", uvp is u and bls is want and only_pairs_in_bls is only); return arrays.new((N,), 'b', lambda ix: mk('b', B(ix[0] if not isinstance(ix[0], int) else z3.IntVal(ix[0]))))
            interp.CONTRACTS[uu._get_blpairs_from_bls] = contract; kw["bls"] = want; kw["only_pairs_in_bls"] = only; pred = lambda j: B(j)
            if what == "bls_and_blpairs": b = sint("b"); kw["blpairs"] = [b]; pred = lambda j: z3.Or(B(j), blp(j) == b.e)
        if uneven: kw["polpairs"] = [1818, 1515, 1616]; predp = lambda j: z3.Or(*[zi(as_int(old["polpair_array"].at(as_int(j)))) == x for x in kw["polpairs"]])
        elif pol: kw["polpairs"] = [sint(f"p{k}") for k in range(pol)]; predp = lambda j: z3.Or(*[old["polpair_array"].at(j).e == z3.Int(f"p{k}") for k in range(pol)])
        r, ex = raises(u.select, run_check=False, **kw)
        if ex is not None:
            E.prove("error_type", isinstance(ex, (AssertionError, IndexError))); j, w = z3.Ints("jj ww"); E.pc += [j >= 0, j < N, w >= 0, w < P]
            E.prove("raised_only_if_absent", z3.Not(z3.And(pred(j) if pred else True, predp(w) if predp else True))); return
        E.prove("returns_nothing", r is None)
        rows = u.__dict__[gr]; pols = u.__dict__[gp]; g0 = pols; pols = arrays.getitem(arrays.to_arr(g0), (0, slice(None)))
        check_rows(u, f, dims, nd_, nf_, old, rows, pols, pred, predp)
        for k in ("freq_array", "dly_array", "spw_freq_array", "spw_dly_array"): E.prove(f"{k}_kept", u.__dict__[k] is old[k])
    h.__name__ = ("uneven_" if uneven else "") + "select_" + (what or "") + ("_and_" if pol and what else "") + (f"{pol}_pol" if pol else "")
    return h
PROOFS = (("times", 0), ("lsts", 0), ("blpairs", 0), ("bls", 0), ("bls_and_blpairs", 0), (None, 1), (None, 2), ("lsts", 3, True))
for _a in PROOFS: PROP.proof(budget=400., bounded="one choice of 3 of 4 polarizations; any number of rows, windows, delays" if len(_a) > 2 else None)(rows_proof(*_a))
def windows_proof(sel, S=3, folded=False):
    """concrete choices of windows; everything inside the windows (rows, delays, frequencies, labels of every channel) symbolic"""
    def h():
        from .sym import E, raises, z3, mk, arrays, interp, zi, as_int, A
        from .c03 import index_contract
        u, f, dims, nd_, nf_ = full(S, folded=folded); _, N, P, NF, ND, nb, nq = dims; K = sorted(set(sel))
        for k in ("freq_array", "dly_array"): u.__dict__[k] = arrays.new((NF if k == "freq_array" else ND,), 'i', lambda ix: mk('i', zi(ix[0])))      # positions travel along
        old = {k: u.__dict__[k] for k in OLDK}
        r, ex = raises(u.select, spws=list(sel), run_check=False)
        if ex is not None:
            E.prove("error_type", isinstance(ex, AssertionError)); w = [z3.Int(f"w{i}") for i in range(len(K))]; v = [z3.Int(f"v{i}") for i in range(len(K))]
            for i, k in enumerate(K): E.pc += [w[i] >= 0, w[i] < NF, v[i] >= 0, v[i] < ND]
            E.prove("raised_only_if_absent", z3.Not(z3.And(*[z3.And(zi(as_int(old["spw_freq_array"].at(w[i]))) == k, zi(as_int(old["spw_dly_array"].at(v[i]))) == k) for i, k in enumerate(K)]))); return
        d = u.__dict__; n = len(K); sa = A(u.spw_array); E.prove("windows_counted", u.Nspws == n and sa.shape_ == (n,)); E.prove("windows_renumbered", all(int(sa.at(i)) == i for i in range(n)))
        for arr, pos, size, cnt in (("spw_freq_array", "freq_array", NF, "Nspwfreqs"), ("spw_dly_array", "dly_array", ND, "Nspwdlys")):
            o = lambda j: zi(as_int(old[arr].at(j))); index_contract(arr, d[pos], lambda j: z3.Or(*[o(j) == k for k in K]), size)
            a, b = A(d[arr]), A(d[pos]); E.prove(f"{arr}_counted", z3.And(zi(as_int(d[cnt])) == zi(a.shape_[0]), zi(a.shape_[0]) == zi(b.shape_[0])))
            j = z3.Int("j" + arr); E.pc += [j >= 0, j < zi(a.shape_[0])]
            E.prove(f"{arr}_relabelled", z3.And(*[z3.Implies(o(zi(as_int(b.at(j)))) == k, zi(as_int(a.at(j))) == i) for i, k in enumerate(K)])); del E.pc[-2:]
        i, q, e, h, c, g = z3.Ints("i q e h c g"); E.assume(i >= 0, i < N, q >= 0, q < P, g >= 0, g < nq)
        for w, k in enumerate(K):
            E.prove_eq(f"scalar_array{w}", A(d["scalar_array"]).at(w, q), old["scalar_array"].at(k, q))
            for l in ("label_1_array", "label_2_array"): E.prove_eq(f"{l}{w}", A(d[l]).at(w, i, q), old[l].at(k, i, q))
            m, mf = nd_(k), nf_(k); mark = len(E.pc); E.pc += [zi(m) >= 3, e >= 0, e < m, h >= 0, h < m, c >= 0, c < mf]
            get = lambda nm, w=w: d[nm][w]
            E.prove_eq(f"data{w}", A(get("data_array")).at(i, e, q), f["data_array"].old(k, i, e, q)); E.prove(f"data_shape{w}", z3.And(zi(A(get("data_array")).shape_[1]) == m, zi(A(get("data_array")).shape_[0]) == N, zi(A(get("data_array")).shape_[2]) == P))
            for z in (0, 1): E.prove_eq(f"weights{w}_{z}", A(get("wgt_array")).at(i, c, z, q), f["wgt_array"].old(k, i, c, z, q))
            for nm in ("integration_array", "nsample_array"): E.prove_eq(f"{nm}{w}", A(get(nm)).at(i, q), f[nm].old(k, i, q))
            for nm in ("cov_array_real", "cov_array_imag", "window_function_array"): E.prove_eq(f"{nm}{w}", A(get(nm)).at(i, e, h, q), f[nm].old(k, i, e, h, q))
            E.prove_eq(f"stats{w}", A(d["stats_array"]["P_N"][w]).at(i, e, q), f["stat"].old(k, i, e, q)); del E.pc[mark:]
        for nm in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array"): E.prove(f"{nm}_keys", sorted(d[nm]) == list(range(n)))
        E.prove("stats_keys", sorted(d["stats_array"]["P_N"]) == list(range(n)))
        for nm in ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array", "polpair_array"): E.prove(f"{nm}_kept", d[nm] is old[nm])
    h.__name__ = "select_windows_" + "_".join(map(str, sel)) + ("_folded" if folded else "")
    return h
for _s in ([1], [2, 0], [0, 1, 2], [2, 2]): PROP.proof(bounded="3 windows, choices of windows enumerated")(windows_proof(_s))
for _s in ([1], [2, 0]): PROP.proof(bounded="3 windows, choices of windows enumerated")(windows_proof(_s, folded=True))
def baseline_rows(form, only):
    def h():
        from .sym import E, sint, z3, mk, arrays, dim, blank, nd, interp, call, to_bool, zi, as_int, A
        u = blank(); N = dim("Nblts"); u.__dict__['Nbltpairs'] = nd(N)
        b1, b2 = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ("first_bl", "second_bl"))
        j = z3.Int("j"); q = z3.Int("q!bl")
        for f in (b1, b2): E.fact(z3.ForAll([q], z3.And(f(q) >= 100100, f(q) <= 999999), patterns=[f(q)]))
        u.__dict__['blpair_array'] = arrays.new((N,), 'i', lambda ix: mk('i', b1(zi(ix[0])) * 1000000 + b2(zi(ix[0]))))
        B = [z3.Int("B0"), z3.Int("B1")]; conv = {}
        def antnums_to_bl(a):
            conv[a] = B[len(conv)]; return mk('i', conv[a])
        u.__dict__['antnums_to_bl'] = antnums_to_bl
        if form == "list": bls = [mk('i', x) for x in B]
        elif form == "int": bls = mk('i', B[0]); B = B[:1]
        elif form == "tuple": bls = (3, 4); B = B[:1]
        else: bls = [(3, 4), (7, 2)]
        if form in ("tuple", "tuples"): interp.CONTRACTS[UVPSpec.antnums_to_bl] = lambda self, a: antnums_to_bl(a); del u.__dict__['antnums_to_bl']
        r = A(call(uu._get_blpairs_from_bls, u, bls, only_pairs_in_bls=only)); E.prove("length", zi(r.shape_[0]) == N)
        if "tuple" in form: E.prove("tuples_converted", list(conv) == ([(3, 4)] if form == "tuple" else [(3, 4), (7, 2)]))
        E.assume(j >= 0, j < N); one, two = (z3.Or(*[f(j) == x for x in B]) for f in (b1, b2))
        E.prove("row", to_bool(r.at(j)) == (z3.And(one, two) if only else z3.Or(one, two)))
    h.__name__ = f"rows_of_baselines_{form}_{'both' if only else 'either'}"
    return h
for _f in ("list", "int", "tuple", "tuples"):
    for _o in (False, True): PROP.proof()(baseline_rows(_f, _o))
# ------------------------------------------------------------------ run-time contract cases (real arrays)
def brief(kw): return {k: (v if not isinstance(v, np.ndarray) else v.tolist()) for k, v in kw.items()}
@PROP.case(quick=200, thorough=4000)
def selections(rng):
    """any combination of the selection arguments in every accepted form; every array and count against the definition; copy and in-place; one or two selections in a row"""
    u = bld(rng, ragged=rng.coin(.3), stats=rng.choice([(), ("P_N",), ("P_N", "P_SN")]), cov=rng.coin(.5), wf=rng.coin(.6), exact=rng.coin(.3), beam=rng.coin(.8), nblp=rng.randrange(1, 6), crossed=rng.coin(.1))
    if rng.coin(.2) and not u.exact_windows: u.fold_spectra()
    for step in range(rng.choice([1, 1, 2])):
        kw = random_selection(rng, u)
        if rng.coin(.08): kw["times"] = [1.0]; kw.pop("lsts", None)
        if rng.coin(.05): kw["polpairs"] = [1111]
        pre = snapshot(u); k0 = repr(kw); inplace = rng.coin()
        try: want = selected(pre, **kw)
        except LookupError as e: want = None
        try: r = u.select(inplace=inplace, **kw)
        except Exception as ex:
            require(want is None, "refused", lambda: f"select({brief(kw)}) raised {type(ex).__name__}: {ex}"); return "nothing matches"
        require(want is not None, "accepted", lambda: f"select({brief(kw)}) matched nothing but did not raise")
        v = u if inplace else r; d = diff(want, snapshot(v)); require(repr(kw) == k0, "arguments", "the arguments were changed")
        require(not d, "selected", lambda: f"select({brief(kw)}) of {u.Nspws} windows, {len(pre['blpair_array'])} rows, pols {pre['polpair_array'].tolist()}: wrong {d}; e.g. {d[0]}: got {str(snapshot(v).get(d[0]))[:150]} expected {str(want.get(d[0]))[:150]}")
        require(inplace or not diff(pre, snapshot(u)), "original_kept", lambda: f"select(inplace=False, {brief(kw)}) changed the original: {diff(pre, snapshot(u))}")
        if not inplace:      # no shared memory: changing the copy leaves the original
            for a in (v.data_array, v.wgt_array, v.integration_array, v.nsample_array):
                for s in a: a[s] *= 3.0
            v.time_1_array += 1.0; v.scalar_array *= 2; v.freq_array += 1.0; require(not diff(pre, snapshot(u)), "shared", "the copy shares memory with the original")
            return f"copy {sorted(kw)}"
        u = v
    return f"in place {sorted(kw)}"
