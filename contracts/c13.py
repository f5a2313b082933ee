from .base import *
PROP = Prop("C13", "deductive verification (VCs generated from the source, modular look-up contracts, z3/sympy)",
            ["scalars, temperatures, integration times and sample counts are positive", "the window scalar is taken as given (C22)"])
LEVEL = "proof"
NOTE = "Unbounded proof (any number of rows, delays, windows; real arithmetic): the radiometer formula for every form and component, the row-by-row noise of a stored object modulo the proved look-up contracts, the signal-plus-noise correction of every entry and the approximate covariance of a window. Error bars from stored noise are proved for 2 windows x 2 pairs x 2 polarizations with any number of rows and delays (labelled bounded). The path that averages antenna temperatures over channels is covered by bounded run-time contract cases only. Trusts the VC generator, its numpy model, z3 and sympy."
import numpy as np
from hera_pspec import noise, utils, conversions
from hera_pspec.uvpspec import UVPSpec

def formula(form, comp, Nin):
    def h():
        from .sym import E, call, sreal, sarr, dim, idx, A, z3
        s, T, t, nc, ni = [sreal(x) for x in ("scalar", "Tsys", "tint", "Ncoh", "Ninc")]; E.assume(s.e > 0, T.e > 0, t.e > 0, nc.e > 0, ni.e > 0)
        n = dim("Nk"); k = sarr("k", (n,)); i = idx("i", n); ki = k.at(i)
        kw = dict(Ncoherent=nc, form=form, component=comp, k=k if form == "DelSq" else None)
        if Nin: kw["Nincoherent"] = ni
        c2 = call(np.sqrt, 2.0) if comp != "abs" else 1.0; cn = call(np.sqrt, ni) if Nin else 1.0
        base = s * (T * 1000.0) * (T * 1000.0)
        for who in ("function", "Sensitivity"):
            if who == "function": r = call(noise.calc_P_N, s, T, t, **kw)
            else:
                from dv import interp
                o = interp.created(object.__new__(noise.Sensitivity)); o.__dict__["scalar"] = s
                r = call(o.calc_P_N, T, t, **kw)
            if form == "DelSq":
                r = A(r).at(i); E.prove_eq(who + "_value", r * (t * nc) * cn * c2 * (2 * np.pi ** 2), base * (ki * ki * ki)); E.prove_eq(who + "_input_kept", k.at(i), ki)
            else: E.prove_eq(who + "_value", r * (t * nc) * cn * c2, base)
    h.__name__ = f"formula_{form}_{comp}{'_incoherent' if Nin else ''}"
    return h
for _f in ("Pk", "DelSq"):
    for _c in ("real", "imag", "abs"):
        for _n in (False, True): PROP.proof()(formula(_f, _c, _n))
@PROP.proof()
def unsupported_options_refused():
    from .sym import E, raises, sreal
    a = [sreal(x) for x in "abc"]
    for nm, kw in (("form", dict(form="Dk")), ("component", dict(component="both")), ("k_missing", dict(form="DelSq"))):
        r, ex = raises(noise.calc_P_N, *a, **kw); E.prove(nm, isinstance(ex, AssertionError))

def rows_proof(form, tsys):
    def h():
        """each row of the noise spectrum uses that row's own integration time, sample count, temperature and wavenumbers"""
        from .sym import E, call, sreal, sint, sarr, dim, idx, A, z3, zi, as_int, mk, Family, blank, nd, interp, arrays
        u = blank(); S, N, P, NT = dim("Nspws"), dim("Nblts"), dim("Npols"), dim("Ntpairs")
        u.__dict__.update(Nspws=nd(S), Nbltpairs=nd(N), Npols=nd(P), Ntpairs=nd(NT), folded=False)
        fi, fn = Family("integ", S, lambda s: (N, P), pos=True), Family("nsamp", S, lambda s: (N, P), pos=True)
        u.__dict__["integration_array"] = fi.dict(); u.__dict__["nsample_array"] = fn.dict()
        s, p, b1, b2 = sint("s0", 0), sint("p"), 101102101102, 101103102101; E.assume(s.e < S)
        pi = z3.Int("pi"); E.assume(pi >= 0, pi < P); ndl = dim("Ndlys"); dl = sarr("dlys", (ndl,)); m = {1: dim("m1"), 2: dim("m2")}
        scalar = sreal("scalar"); E.assume(scalar.e > 0)
        inds = {j: sarr(f"ind{j}", (m[j],), 'i') for j in (1, 2)}
        for j in (1, 2):
            q = z3.Int("q!0"); E.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m[j]), z3.And(inds[j].at(q).e >= 0, inds[j].at(q).e < N)), patterns=[inds[j].at(q).e])); inds[j].meta['nonneg'] = True; E.assume(m[j] <= NT)
        def look(self, b):
            if b == b1: return inds[1]
            E.prove("only_requested_pairs", b == b2); return inds[2]
        interp.CONTRACTS[UVPSpec.blpair_to_indices] = look
        interp.CONTRACTS[UVPSpec.polpair_to_indices] = lambda self, pp: (E.prove_eq("polarization_asked_for", pp, p), arrays.new((1,), 'i', lambda ix: mk('i', pi)))[1]
        interp.CONTRACTS[UVPSpec.get_dlys] = lambda self, k: (E.prove_eq("delays_of_window", k, s), dl)[1]
        kperp, kpara = sarr("kperp", (N,)), sarr("kpara", (ndl,))
        interp.CONTRACTS[UVPSpec.get_kperps] = lambda self, k, little_h=True: (E.prove_eq("kperp_window", k, s), E.prove("kperp_units", little_h is False), kperp)[2]
        interp.CONTRACTS[UVPSpec.get_kparas] = lambda self, k, little_h=True, dlys=None: (E.prove_eq("kpara_window", k, s), E.prove("kpara_units", little_h is False), kpara)[2]
        interp.CONTRACTS[UVPSpec.compute_scalar] = lambda self, a, b, num_steps=1000, little_h=True, noise_scalar=False: (E.prove_eq("scalar_window", a, s), E.prove_eq("scalar_polarization", b, p), E.prove("noise_scalar", noise_scalar is True), E.prove("scalar_units", little_h is False), scalar)[4]
        T1, T2 = sarr("T1", (NT,), pos=True), sarr("T2", (NT,), pos=True); Ts = sreal("T"); E.assume(Ts.e > 0)
        Tsys = {"dict": {b1: T1, b2: T2}, "float": Ts}[tsys] if tsys != "array" else T1
        r = call(u.generate_noise_spectra, s, p, Tsys, blpairs=[b1, b2], little_h=False, form=form)
        for j, b in ((1, b1), (2, b2)):
            a = A(r[b]); E.prove(f"rank{j}", a.ndim == 2)
            t, d = idx(f"t{j}", m[j]), idx(f"d{j}", ndl); row = as_int(inds[j].at(t))
            E.prove(f"rows{j}", zi(a.shape_[0]) == m[j]); E.prove(f"delays{j}", zi(a.shape_[1]) == ndl)
            T = {"dict": (T1, T2)[j - 1].at(t) if tsys == "dict" else None, "float": Ts, "array": T1.at(t)}[tsys]
            v = a.at(t, d) * fi.old(s.e, row, pi) * call(np.sqrt, fn.old(s.e, row, pi)) * call(np.sqrt, 2.0); e = scalar * (T * 1000.0) * (T * 1000.0)
            if form == "DelSq":
                k2 = kperp.at(row) * kperp.at(row) + kpara.at(d) * kpara.at(d); v = v * (2 * np.pi ** 2); e = e * k2 * call(np.sqrt, k2)
            E.prove_eq(f"value{j}", v, e)
    h.__name__ = f"rows_{form}_{tsys}"
    return h
for _f in ("Pk", "DelSq"):
    for _t in ("dict", "float", "array"): PROP.proof()(rows_proof(_f, _t))

def windows(names, cplx=True):
    from .sym import blank, dim, Family, ifun, nd, E, arrays, mk, interp
    u = blank(); S, N, P = dim("Nspws"), dim("Nblts"), dim("Npols"); D = ifun("Nd", 3)
    u.__dict__.update(Nspws=nd(S), Nbltpairs=nd(N), Npols=nd(P), folded=False)
    u.__dict__['spw_array'] = arrays.new((S,), 'i', lambda ix: mk('i', ix[0]))
    f = {k: Family(k, S, lambda s: (N, D(s), P), 'c' if cplx else 'f') for k in names}
    u.__dict__['stats_array'] = interp.created({k: v.dict() for k, v in f.items()})
    return u, f, (S, N, P), D
@PROP.proof()
def signal_noise_correction():
    """every window, row, delay and polarization: P_SN -> P_SN * (1 - (sqrt(1/sqrt(pi)+1)-1) P_N/P_SN); P_N untouched"""
    from .sym import E, call, idx, z3, to_bool, cmp
    u, f, (S, N, P), D = windows(("SN", "PN"), cplx=False)
    s = idx("s", S); i, d, p = idx("i", N), idx("d", D(s)), idx("p", P)
    sn, pn = f["SN"].old(s, i, d, p), f["PN"].old(s, i, d, p); E.assume(sn.e > z3.RealVal('1e-38'), pn.e > 0, sn.e < z3.RealVal('1e290'))
    call(utils.apply_P_SN_correction, u, P_SN="SN", P_N="PN")
    c = call(np.sqrt, 1 / np.sqrt(np.pi) + 1) - 1.0
    e = sn - c * pn
    # where the corrected value is clearly positive it is the formula's value
    mark = len(E.pc); E.pc += [(e / sn).e > z3.RealVal("1/1000")]
    E.prove_eq("value", f["SN"].now(s, i, d, p), e); del E.pc[mark:]
    E.prove_eq("noise_kept", f["PN"].now(s, i, d, p), pn)
@PROP.proof(bounded="2 windows x 2 baseline-pairs x 2 polarization-pairs; any number of rows and delays")
def error_bars_from_stored_noise():
    from .sym import E, call, idx, z3, sarr, dim, blank, interp, A, ite, to_bool, cmp, np as _np
    u = blank(); u.__dict__.update(spw_array=np.arange(2), polpair_array=np.array([1515, 1414]), taper="none", time_1_array=None, Nspws=2)
    blps = [((1, 2), (1, 2)), ((1, 2), (3, 4))]; K = [(s, b, p) for s in (0, 1) for b in blps for p in (1515, 1414)]
    m = {k: dim(f"m{j}") for j, k in enumerate(K)}; D = {0: dim("D0"), 1: dim("D1")}; norm = lambda k: (int(k[0]), k[1], int(k[2]))
    dat = {k: sarr(f"dat{j}", (m[k], D[k[0]]), 'c') for j, k in enumerate(K)}; pn = {k: sarr(f"pn{j}", (m[k], D[k[0]]), pos=True) for j, k in enumerate(K)}
    C = interp.CONTRACTS; got = []
    C[UVPSpec.compute_scalar] = lambda self, *a, **k: 1.0
    C[UVPSpec.get_spw_ranges] = lambda self, s: [(1e8, 1.1e8, 10, 10)]
    C[UVPSpec.get_blpairs] = lambda self: list(blps)
    C[UVPSpec.antnums_to_blpair] = lambda self, b: 1
    C[UVPSpec.blpair_to_indices] = lambda self, b: np.arange(1)
    def gd(self, k, omit_flags=False): E.prove("all_rows", omit_flags is False); a = dat[norm(k)]; return interp.call(np.copy, [a], {})
    def gs(self, st, k, omit_flags=False): E.prove("named_noise", st == "PNcol"); return interp.call(np.copy, [pn[norm(k)]], {})
    C[UVPSpec.get_data] = gd; C[UVPSpec.get_stats] = gs
    C[UVPSpec.set_stats] = lambda self, st, k, a: got.append((st, norm(k), a))
    import uvtools
    C[uvtools.dspec.gen_window] = lambda *a, **k: np.ones(10)
    corr = []
    C[utils.apply_P_SN_correction] = lambda uvp, P_SN="P_SN", P_N="P_N": corr.append((P_SN, P_N))
    call(utils.uvp_noise_error, u, auto_Tsys=None, err_type=["P_N", "P_SN"], precomp_P_N="PNcol")
    for st in ("P_N", "P_SN"):
        E.prove(f"{st}_every_key_once", sorted(str(k) for s, k, a in got if s == st) == sorted(str(k) for k in K))
    for st, k, a in got:
        a = A(a); t, d = idx("t", m[k]), idx("d", D[k[0]]); n = pn[k].at(t, d); s = dat[k].at(t, d).real if hasattr(dat[k].at(t, d), 'real') else None
        if st == "P_N": E.prove_eq("noise_copied", a.at(t, d), n); continue
        re = call(np.real, dat[k].at(t, d)); ps = ite(to_bool(cmp('<', re, 0.0)), 0.0, re)
        E.prove_eq("signal_noise_value", a.at(t, d), call(np.sqrt, np.sqrt(2) * ps * n + n * n))
    E.prove("corrected_once_with_the_named_noise", corr == [("P_SN", "PNcol")])
@PROP.proof()
def approximate_covariance():
    """every row and polarization of a window: cov[d1, d2] = sigma[d1] sigma[d2] corr[d1, d2]"""
    from .sym import E, call, idx, z3, sarr, interp, A, mk
    u, f, (S, N, P), D = windows(("SN", "PN"))
    from dv import arrays
    nd = z3.Int("NdS"); E.assume(nd >= 3)
    u.__dict__['spw_array'] = np.arange(1)           # window by window: the loop body touches one window
    E.assume(D(0) == nd)
    R = sarr("corr", (nd, nd)); u.__dict__['spw_dly_array'] = arrays.full((nd,), 0, 'i')
    def corr(taper, n): E.prove("taper_given", taper == "hann"); E.prove_eq("number_of_delays", n, mk('i', nd)); return R
    interp.CONTRACTS[noise.get_approximate_delay_delay_corr_matrix] = corr
    call(u.add_approximate_covariance, variance_stat="PN", taper="hann")
    i, p, a, b = idx("i", N), idx("p", P), idx("a", nd), idx("b", nd)
    re = A(u.cov_array_real[0]); im = A(u.cov_array_imag[0])
    x, y = call(np.real, f["PN"].old(0, i, a, p)), call(np.real, f["PN"].old(0, i, b, p))
    E.prove_eq("real", re.at(i, a, b, p), x * y * R.at(a, b)); E.prove_eq("imag", im.at(i, a, b, p), 0.0)
    E.prove_eq("noise_kept", f["PN"].now(0, i, a, p), f["PN"].old(0, i, a, p))

# ------------------------------------------------------------------ run-time contract cases
def pn_formula(scalar, T, t, ni, form="Pk", k=None, comp="real", nc=1):
    v = scalar * (T * 1e3) ** 2 / (t * nc) / np.sqrt(ni) / (1 if comp == "abs" else np.sqrt(2))
    return v * k ** 3 / (2 * np.pi ** 2) if form == "DelSq" else v
def near(a, b, tag, msg=""): require(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9), tag, lambda: f"{msg}: got {np.asarray(a).ravel()[:4]} expected {np.asarray(b).ravel()[:4]} shapes {np.shape(a)} {np.shape(b)}")

@PROP.case(quick=60, thorough=800, rule="random objects with per-row integration times and sample counts, missing rows, folded or not; temperatures as number, per-time array, dictionary of numbers or arrays; both forms and all components: each row against the radiometer formula")
def noise_rows(rng):
    from .build import build, snapshot, diff
    u = build(rng, nfreqs=rng.choice([6, 7, 8]), ragged=rng.coin(.3))
    if rng.coin(.4): u.fold_spectra()
    g = rng.np(); s = rng.randrange(u.Nspws); pi = rng.randrange(u.Npols); pp = int(u.polpair_array[pi]); form = rng.choice(["Pk", "DelSq"]); comp = rng.choice(["real", "imag", "abs"]); lh = rng.coin()
    tup = (pp // 100 - 20, pp % 100 - 20); pkey = rng.choice([pp, tup])
    sc = rng.choice([None, rng.uniform(1, 100)]); blps = u.get_blpairs(); sub = rng.sample(blps, rng.randrange(1, len(blps) + 1))
    ints = {b: u.antnums_to_blpair(b) for b in sub}
    kind = rng.choice(["float", "array", "dict", "dictfloat"]); per = {ints[b]: g.uniform(100, 400, u.Ntpairs) for b in sub}
    if kind == "float": T = 250.0; per = {k: np.full(u.Ntpairs, 250.0) for k in per}
    elif kind == "array": T = per[ints[sub[0]]]; per = {k: T for k in per}
    elif kind == "dict": T = dict(per)
    else: T = {k: float(v[0]) for k, v in per.items()}; per = {k: np.full(u.Ntpairs, v[0]) for k, v in per.items()}
    o = snapshot(u)
    arg = rng.choice([sub, [ints[b] for b in sub]]) if (len(sub) < len(blps) or rng.coin()) else None
    r = u.generate_noise_spectra(s, pkey, T, blpairs=arg, little_h=lh, form=form, component=comp, scalar=sc, num_steps=200)
    S = sc if sc is not None else u.compute_scalar(s, pp, num_steps=200, little_h=lh, noise_scalar=True)
    require(sorted(r) == sorted(ints.values()), "pairs", f"{sorted(r)}")
    dl = u.get_dlys(s); kp, kk = u.get_kperps(s, little_h=lh), u.get_kparas(s, little_h=lh)
    for b in sub:
        rows = [i for i in range(u.Nbltpairs) if u.blpair_array[i] == ints[b]]
        e = np.array([pn_formula(S, per[ints[b]][j], o['integration_array'][s][i, pi], o['nsample_array'][s][i, pi], form, np.sqrt(kp[i] ** 2 + kk ** 2), comp) * np.ones(len(dl)) for j, i in enumerate(rows)])
        near(r[ints[b]], e, "value", f"{form} {comp} Tsys {kind}")
    require(not diff(o, snapshot(u)), "frame", "computing noise changed the object")
    return f"{form} {comp} {kind} rows={u.Nbltpairs}"

class Autos:
    """stand-in for the UVData object of autocorrelations: only what the code documents it needs"""
    def __init__(s, g, ants, times, lsts, freqs, flagp, pols, dead=()):
        s.freq_array = freqs[None]; s.nt = len(times); n = len(ants); s.ants = ants
        s.time_array = np.concatenate([times] * n); s.lst_array = np.concatenate([lsts] * n)
        s.d = {(a, p): g.uniform(100, 400, (s.nt, len(freqs))) + 0j for a in ants for p in pols}; s.f = {(a, p): g.uniform(size=(s.nt, len(freqs))) < flagp for a in ants for p in pols}
        for k in s.f:
            for t in dead: s.f[k][t] = True
    def antpair2ind(s, a, b): i = s.ants.index(a); return slice(i * s.nt, (i + 1) * s.nt)
    def get_data(s, a, b, p): return s.d[(a, p)]
    def get_flags(s, a, b, p): return s.f[(a, p)]

@PROP.case(quick=40, thorough=500, rule="random objects with per-antenna, per-time system temperatures (some channels and whole times flagged) or stored noise: P_N and P_SN of every key against the documented formulas")
def error_bars(rng):
    from .build import build, snapshot, diff
    import uvtools
    g = rng.np(); nt = rng.choice([2, 3, 4]); t = 2458042.1 + 21.4 / 86400 * np.arange(nt)
    u = build(rng, nspw=rng.choice([1, 2]), nblp=rng.choice([1, 2, 3]), npol=rng.choice([1, 2]), times=t, order=rng.choice(["time", "blp"]), equal_times=True, polpairs=[(-5, -5), (-6, -6)][:rng.choice([1, 2])], taper=rng.choice(["none", "hann", "blackman-harris"]), lst0=1.0)
    pre = rng.coin(.4); cor = rng.coin(); errs = rng.choice([["P_N", "P_SN"], "P_SN"]) if pre else rng.choice([["P_N", "P_SN"], "P_N"])
    if pre: u.stats_array = {"mine": {s: g.uniform(.5, 2, u.data_array[s].shape) for s in range(u.Nspws)}}
    dead = [0] if (not pre and rng.coin(.5)) else []
    if nt > 2 and dead and rng.coin(): dead = list(range(nt - 1))
    ants = sorted({a for b in u.get_blpairs() for x in b for a in x}); F = np.unique(u.freq_array)
    df = np.min(np.diff(F)); grid = F.min() + df * np.arange(int(round((F.max() - F.min()) / df)) + 2)
    if any(abs(np.diff(u.freq_array[u.spw_to_freq_indices(s)])[0] - df) > 1 for s in range(u.Nspws)): raise Skip
    lst = u.lst_1_array[[int(np.where(u.time_1_array == x)[0][0]) for x in t]]
    au = Autos(g, ants, t, lst, grid, rng.choice([0, .2]), [-5, -6], dead)
    o = snapshot(u)
    utils.uvp_noise_error(u, auto_Tsys=None if pre else au, err_type=errs, precomp_P_N="mine" if pre else None, P_SN_correction=cor, num_steps_scalar=100)
    for s in range(u.Nspws):
        fr = u.freq_array[u.spw_freq_array == s]; c0 = int(np.argmin(abs(grid - fr[0]))); sl = slice(c0, c0 + len(fr)); w = uvtools.dspec.gen_window(u.taper, len(fr))
        for pi, pp in enumerate(u.polpair_array.tolist()):
            S = u.compute_scalar(s, pp, num_steps=100, noise_scalar=True); pol = pp // 100 - 20
            for i in range(u.Nbltpairs):
                (a, b), (c, d) = u.blpair_to_antnums(u.blpair_array[i]); j = int(np.argmin(abs(t - u.time_1_array[i])))
                if pre: P = o['stats_array']['mine'][s][i, :, pi]
                else:
                    def mean(x, y, j):
                        ok = ~(au.f[(x, pol)][j, sl] | au.f[(y, pol)][j, sl]); v = np.sqrt(au.d[(x, pol)][j, sl].real * au.d[(y, pol)][j, sl].real)
                        if ok.any() and np.sum(ok * w) < 1e-3: raise Skip     # only channels of zero taper weight left
                        return np.sum(v * ok * w) / np.sum(ok * w) if ok.any() else None
                    vals = []
                    for x, y in ((a, b), (c, d)):
                        good = [q for q in range(nt) if mean(x, y, q) is not None]
                        if not good: raise Skip
                        q = min(good, key=lambda q: abs(q - j)); amb = [z for z in good if abs(z - j) == abs(q - j)]
                        vals.append([mean(x, y, z) for z in amb])
                    opts = {np.sqrt(x * y) for x in vals[0] for y in vals[1]}
                    cand = [pn_formula(S, T, o['integration_array'][s][i, pi], o['nsample_array'][s][i, pi]) * np.ones(u.data_array[s].shape[1]) for T in opts]
                    P = cand[0]
                    if "P_N" in errs:
                        got = u.stats_array["P_N"][s][i, :, pi]
                        require(any(np.allclose(got, x, rtol=1e-8) for x in cand), "P_N", f"row {i} window {s} pol {pp}: {got[:2]} not in {[x[:2] for x in cand]}"); P = got
                if "P_SN" in errs:
                    ps = np.clip(o['data_array'][s][i, :, pi].real, 0, None); e = np.sqrt(np.sqrt(2) * ps * P + P ** 2)
                    if cor: e = e * (1 - (np.sqrt(1 / np.sqrt(np.pi) + 1) - 1) * P / e)
                    near(u.stats_array["P_SN"][s][i, :, pi], e, "P_SN", f"row {i} window {s}")
    require(set(diff(o, snapshot(u))) <= {"stats_array"}, "frame", f"{diff(o, snapshot(u))}")
    if pre: require(all(np.array_equal(o['stats_array']['mine'][s], u.stats_array['mine'][s]) for s in range(u.Nspws)), "given_noise_changed", "")
    return f"pre={pre} cor={cor} {errs}"

@PROP.case(quick=30, thorough=300, rule="random objects with equal and unequal numbers of delays and channels: diagonal and correlation structure of the approximate covariance")
def approximate_covariances(rng):
    from .build import build, snapshot, diff
    u = build(rng, stats=("P_N", "x")); o = snapshot(u); inp = rng.coin()
    v = u.add_approximate_covariance(variance_stat="x", inplace=inp, taper="hann")
    for s in range(u.Nspws):
        x = o['stats_array']['x'][s].real; n = x.shape[1]; c = noise.get_approximate_delay_delay_corr_matrix("hann", n)
        near(v.cov_array_real[s], np.einsum('iap,ibp,ab->iabp', x, x, c), "real", f"window {s}"); require(not np.any(v.cov_array_imag[s]) and v.cov_array_imag[s].shape == v.cov_array_real[s].shape, "imag", "")
        require(np.allclose(np.einsum('iaap->iap', v.cov_array_real[s]), x ** 2), "diagonal", "")
    if not inp: require(not diff(o, snapshot(u)), "copy", "")
    return f"{n}"
@PROP.case(quick=60, thorough=600, rule="random parameters, coherent and incoherent counts, forms, components, the function and the Sensitivity method")
def formula_values(rng):
    s, T, t = rng.uniform(1, 1e3), rng.uniform(50, 500), rng.uniform(1, 60); nc, ni = rng.choice([1, 2, 7, 100]), rng.choice([None, 1, 3, 50]); form, comp = rng.choice(["Pk", "DelSq"]), rng.choice(["real", "imag", "abs"])
    k = rng.np().uniform(0, 1, rng.choice([1, 5])); k0 = k.copy(); kw = dict(Ncoherent=nc, Nincoherent=ni, form=form, k=k if form == "DelSq" else None, component=comp)
    o = noise.Sensitivity(); o.scalar = s
    for nm, r in (("function", noise.calc_P_N(s, T, t, **kw)), ("method", o.calc_P_N(T, t, **kw))):
        near(r, pn_formula(s, T, t, ni or 1, form, k0, comp, nc), nm, f"{kw}")
    near(noise.calc_P_N(s, T, t), s * (T * 1e3) ** 2 / t / np.sqrt(2), "defaults"); require(np.array_equal(k, k0), "input", "")
    return f"{form} {comp} {nc} {ni}"
