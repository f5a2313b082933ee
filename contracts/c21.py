from .base import *
PROP = Prop("C21", "deductive verification (VCs generated from the source, modular callee contracts, z3/sympy)",
            ["frequency axes are sorted for the statement about contiguous windows", "numpy.arctan2 is uninterpreted; pyuvdata's coordinate conversion is taken as given", "index look-ups as specified by C03, distances by C12"])
LEVEL = "proof"
NOTE = "Unbounded proof (any axis length, ranges, delay counts, real arithmetic) for window ranges by frequency and redshift, delay grids, window descriptions, parallel and perpendicular wavenumbers and baseline lengths and angles. Which length belongs to which stored row (get_blpair_seps, get_blpair_blvecs) is decided by bounded run-time cases, as are concrete axes end to end. Trusts the VC generator, its numpy model, z3 and sympy."
import numpy as np
from hera_pspec import utils, conversions, PSpecData
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff

class Axis: pass
def axis(order):
    from .sym import dim, sarr, E, z3, interp
    n = dim("nfreq"); f = sarr("f", (n,), pos=True); o = interp.created(Axis()); o.freq_array = f
    a, b = z3.Int("qa"), z3.Int("qb"); F = lambda t: f.at(t).e
    if order: E.fact(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), F(a) < F(b) if order > 0 else F(a) > F(b)), patterns=[z3.MultiPattern(F(a), F(b))]))
    return o, f, n
def covers(E, tag, spw, f, n, lo, hi, order):
    """channels spw[0]..spw[1] are exactly the channels with lo <= f < hi; (None, None) when there are none"""
    from .sym import z3, zi, as_int, mask_hint
    c = z3.Int(f"chan_{tag}"); inr = z3.And(f.at(c).e >= lo.e, f.at(c).e < hi.e); E.assume(c >= 0, c < n); mask_hint(c)
    if spw[0] is None:
        E.prove(f"{tag}_none", spw[1] is None); E.prove(f"{tag}_no_channel_in_range", z3.Not(inr)); return
    a, b = zi(as_int(spw[0])), zi(as_int(spw[1]))
    E.prove(f"{tag}_indices", z3.And(0 <= a, a <= b, b < n))
    for nm, x in (("first", a), ("last", b)): E.prove(f"{tag}_{nm}_in_range", z3.And(f.at(x).e >= lo.e, f.at(x).e < hi.e))
    E.prove(f"{tag}_all_in_range_covered", z3.Implies(inr, z3.And(a <= c, c <= b)))
    if order: E.prove(f"{tag}_only_in_range_covered", z3.Implies(z3.And(a <= c, c <= b), inr))
def ranges(order, bounds):
    def h():
        from .sym import E, raises, sreal, z3
        o, f, n = axis(order); lo, hi = sreal("lo"), sreal("hi"); q = z3.Int("q"); In = lambda p: z3.And(q >= 0, q < n, p)
        r, e = raises(utils.spw_range_from_freqs, o, (lo, hi), bounds_error=bounds) if bounds is not None else raises(utils.spw_range_from_freqs, o, (lo, hi))
        below, above = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f.at(q).e > lo.e)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f.at(q).e < hi.e))
        if e is not None:
            E.prove("refusal", isinstance(e, ValueError)); E.prove("refused_only_when_wrong", z3.Or(lo.e > hi.e, *([below, above] if bounds is not False else []))); return
        E.prove("form", isinstance(r, tuple) and len(r) == 2); E.prove("order", lo.e <= hi.e); covers(E, "window", r, f, n, lo, hi, order)
        if bounds is not False: E.prove("inside_below", z3.Not(below)); E.prove("inside_above", z3.Not(above))
    h.__name__ = "window_by_frequency_" + {1: "ascending", -1: "descending", 0: "any_order"}[order] + {True: "_strict", False: "", None: "_default"}[bounds]
    return h
for _a in ((1, False), (-1, False), (0, False), (1, True), (0, True), (0, None)): PROP.proof()(ranges(*_a))
@PROP.proof()
def windows_of_several_ranges():
    """a list of ranges gives the list of the windows of its ranges"""
    from .sym import E, raises, sreal, z3, zi, as_int
    o, f, n = axis(0); R = (sreal("lo"), sreal("hi")); t, e1 = raises(utils.spw_range_from_freqs, o, R, bounds_error=False)
    for L in ([R], [R, R]):
        r, e = raises(utils.spw_range_from_freqs, o, list(L), bounds_error=False)
        if e1 is not None: E.prove("refused", isinstance(e, ValueError)); continue
        E.prove("list", e is None and isinstance(r, list) and len(r) == len(L) and all(isinstance(x, tuple) and len(x) == 2 for x in r))
        for x in r:
            for p, q in zip(x, t): E.prove("same", z3.BoolVal(p is None and q is None) if p is None or q is None else zi(as_int(p)) == zi(as_int(q)))
    r, e = raises(utils.spw_range_from_freqs, o, [R, (2.0, 1.0)], bounds_error=False); E.prove("every_range_checked", isinstance(e, ValueError))
    r, e = raises(utils.spw_range_from_freqs, o, []); E.prove("empty", e is None and r == [])
@PROP.proof()
def window_by_redshift():
    """z_range maps to the frequency range [f(zmax), f(zmin)) and everything else is passed on"""
    from .sym import E, call, sreal, interp
    got = []; o = interp.created(Axis())
    interp.CONTRACTS[utils.spw_range_from_freqs] = lambda data, freq_range, bounds_error=True: (got.append((data, freq_range, bounds_error)), [(i, i + 1) for i in range(len(freq_range))])[1]
    z = [(sreal("z0"), sreal("z1")), (sreal("z2"), sreal("z3"))]
    for a in z:
        for v in a: E.assume(v.e > -1)
    f21 = conversions.units.f21
    for arg, b in ((z[0], True), (list(z), False), ([z[1]], True)):
        r = call(utils.spw_range_from_redshifts, o, arg, bounds_error=b); d, fr, bb = got[-1]; zz = [arg] if isinstance(arg, tuple) else arg
        E.prove("passed_on", d is o and bb is b and len(fr) == len(zz)); E.prove("returned", r == (0, 1) if isinstance(arg, tuple) else r == [(i, i + 1) for i in range(len(zz))])
        for (lo, hi), (z0, z1) in zip(fr, zz): E.prove_eq("lowest", lo * (1 + z1), f21); E.prove_eq("highest", hi * (1 + z0), f21)
@PROP.proof()
def refused_arguments():
    from .sym import E, raises, interp
    o, f, n = axis(0)
    for bad in (np.array([1., 2.]), 3, {1: 2}, "ab"): r, e = raises(utils.spw_range_from_freqs, o, bad); E.prove(f"type_{type(bad).__name__}", isinstance(e, TypeError))
    r, e = raises(utils.spw_range_from_freqs, interp.created(FakeNone()), (1., 2.)); E.prove("no_axis", isinstance(e, AttributeError))
class FakeNone: pass
def grid(given):
    def h():
        """evenly spaced by 1 / (count x channel width), ascending, zero delay at count // 2"""
        from .sym import E, call, dim, sarr, A, idx, mk, zi, z3, as_int
        from dv.core import to_real
        n = dim("nfreq", 2); f = sarr("f", (n,), pos=True); m = dim("ndly") if given else n; df = call(np.median, call(np.diff, f)); E.assume(to_real(df) > 0)
        d = A(call(utils.get_delays, f, n_dlys=mk('i', m)) if given else call(utils.get_delays, f)); E.prove("count", zi(d.shape_[0]) == m); i = idx("i", m)
        E.prove_eq("value", d.at(i) * (df * mk('i', m)), mk('i', i) - mk('i', m / 2))
        E.prove_eq("zero", d.at(m / 2), 0.0)
        j = z3.Int("j"); E.assume(j == i + 1, j < m); E.prove_eq("spacing", (d.at(j) - d.at(i)) * (df * mk('i', m)), 1.0); E.prove_eq("input_kept", f.at(i), sarr("f", (n,), pos=True).at(i)) if not given else None
    h.__name__ = "delay_grid" + ("_of_given_count" if given else "")
    return h
for _a in (False, True): PROP.proof()(grid(_a))
class Co: pass
def stored():
    from .sym import blank, dim, sarr, interp, idx, E, zi, as_int, mk, z3
    u = blank(); nf, nd, N, m, md = dim("nf"), dim("ndl"), dim("Nblts"), dim("m"), dim("md"); fi, di = sarr("fi", (m,), 'i'), sarr("di", (md,), 'i'); asked = dict(f=[], d=[])
    q = z3.Int("q"); E.fact(z3.ForAll([q], z3.And(fi.at(q).e >= 0, fi.at(q).e < nf), patterns=[fi.at(q).e])); E.fact(z3.ForAll([q], z3.And(di.at(q).e >= 0, di.at(q).e < nd), patterns=[di.at(q).e]))
    u.__dict__.update(freq_array=sarr("freqs", (nf,), pos=True), dly_array=sarr("dlys", (nd,)), Nbltpairs=mk('i', N))
    interp.CONTRACTS[UVPSpec.spw_to_freq_indices] = lambda s, w: (asked["f"].append(w), fi)[1]; interp.CONTRACTS[UVPSpec.spw_to_dly_indices] = lambda s, w: (asked["d"].append(w), di)[1]
    c = interp.created(Co()); log = []; zf, kp, kb = z3.Function("z_of", z3.RealSort(), z3.RealSort()), z3.Function("tau_k", z3.RealSort(), z3.BoolSort(), z3.RealSort()), z3.Function("bl_k", z3.RealSort(), z3.BoolSort(), z3.RealSort())
    from dv.core import to_real
    b = lambda x: z3.BoolVal(bool(x))
    c.f2z = lambda f, ghz=False: mk('f', zf(to_real(f))); c.tau_to_kpara = lambda z, little_h=True: mk('f', kp(to_real(z), b(little_h))); c.bl_to_kperp = lambda z, little_h=True: mk('f', kb(to_real(z), b(little_h)))
    u.__dict__["cosmo"] = c
    mean = call_mean(u, fi)
    return u, (nf, nd, N, m, md), fi, di, asked, (lambda lh: mk('f', kp(zf(mean), b(lh)))), (lambda lh: mk('f', kb(zf(mean), b(lh))))
def call_mean(u, fi):
    from .sym import call
    from dv.core import to_real
    return to_real(call(np.mean, u.freq_array[fi]))
@PROP.proof()
def wavenumbers():
    """delays of the window asked for times tau_to_kpara, separations times bl_to_kperp, both at the redshift of the mean frequency of that window"""
    from .sym import E, call, raises, mk, z3, idx, A, zi, as_int, sarr, dim, interp
    u, (nf, nd, N, m, md), fi, di, asked, kp, kb = stored(); spw = mk('i', z3.Int("spw")); i, j = idx("i", md), idx("j", N)
    D = A(call(u.get_dlys, spw)); E.prove("window", asked["d"] == [spw]); E.prove("count", zi(D.shape_[0]) == md); E.prove_eq("delays", D.at(i), sarr("dlys", (nd,)).at(zi(as_int(di.at(i)))))
    sep = sarr("sep", (N,)); interp.CONTRACTS[UVPSpec.get_blpair_seps] = lambda s: sep; own = sarr("own", (dim("no"),)); o = idx("o", dim("no"))
    for lh in (True, False):
        K = A(call(u.get_kparas, spw, little_h=lh)); E.prove("window_f", asked["f"][-1] is spw and asked["d"][-1] is spw); E.prove_eq(f"kpara_{lh}", K.at(i), sarr("dlys", (nd,)).at(zi(as_int(di.at(i)))) * kp(lh))
        E.prove_eq(f"kpara_given_{lh}", A(call(u.get_kparas, spw, little_h=lh, dlys=own)).at(o), own.at(o) * kp(lh))
        E.prove_eq(f"kperp_{lh}", A(call(u.get_kperps, spw, little_h=lh)).at(j), sep.at(j) * kb(lh)); E.prove("window_p", asked["f"][-1] is spw)
    E.prove_eq("kpara_default", A(call(u.get_kparas, spw)).at(i), A(call(u.get_kparas, spw, little_h=True)).at(i)); E.prove_eq("kperp_default", A(call(u.get_kperps, spw)).at(j), A(call(u.get_kperps, spw, little_h=True)).at(j))
    E.prove_eq("separations_kept", sep.at(j), sarr("sep", (N,)).at(j))
    del u.__dict__["cosmo"]
    for g in (u.get_kparas, u.get_kperps): r, e = raises(g, spw); E.prove("needs_cosmology", isinstance(e, AssertionError))
@PROP.proof()
def window_description():
    """(start, start + channels x spacing, channels, delays) of each window asked for, in order"""
    from .sym import E, call, mk, z3, idx, A, zi, as_int, sarr
    u, (nf, nd, N, m, md), fi, di, asked, kp, kb = stored(); u.__dict__["Nspws"] = 3
    g = u.freq_array[fi]; lo, df = call(np.min, g), call(np.median, call(np.diff, g))
    for arg, want in ((None, [0, 1, 2]), (1, [1]), ([2, 0], [2, 0]), (np.int64(2), [2])):
        asked["f"].clear(); asked["d"].clear(); r = call(u.get_spw_ranges, arg) if arg is not None else call(u.get_spw_ranges)
        E.prove("windows", [int(x) for x in asked["f"]] == want and [int(x) for x in asked["d"]] == want and len(r) == len(want))
        for t in r: E.prove_eq("start", t[0], lo); E.prove_eq("end", t[1], lo + df * mk('i', m)); E.prove("channels", zi(as_int(t[2])) == m); E.prove("delays", zi(as_int(t[3])) == md)
def angles(dimn):
    def h():
        """length = norm of the row; angle = atan2(north, east) in degrees, shifted into 0..180 when negative, 0 for rows pointing (within tolerance) due west mirrored to east"""
        from .sym import E, call, dim, sarr, A, idx, mk, z3, zi, interp, sreal, ite, to_bool, cmp
        from dv.core import to_real
        n = dim("nbl"); v = sarr("v", (n, dimn)); at = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort()); tol = sreal("tol"); E.assume(tol.e > 0)
        interp.CONTRACTS[np.linalg.norm] = lambda w: call(np.sqrt, sum((w[c] * w[c] for c in range(dimn)), 0.0))
        interp.CONTRACTS[np.arctan2] = lambda y, x: mk('f', at(to_real(y), to_real(x)))
        L, G = call(utils.get_bl_lens_angs, v, bl_error_tol=tol); L, G = A(L), A(G); i = idx("i", n); E.prove("counts", z3.And(zi(L.shape_[0]) == n, zi(G.shape_[0]) == n))
        s = sum((v.at(i, c) * v.at(i, c) for c in range(dimn)), 0.0); l = L.at(i); E.prove_eq("length", l * l, s); E.prove("length_nonneg", to_real(l) >= 0)
        x, y = v.at(i, 0).e, v.at(i, 1).e; deg = to_real(mk('f', at(y, x)) * 180 / np.pi); g = to_real(G.at(i))
        E.assume(deg > -180, deg <= 180, z3.Implies(y < 0, deg < 0), z3.Implies(y >= 0, deg >= 0))
        E.prove("angle", g == z3.If(z3.And(y > -tol.e, y < 0, x > 0), 0, z3.If(deg < 0, deg + 180, deg)))
        E.prove_eq("input_kept", v.at(i, 0), sarr("v", (n, dimn)).at(i, 0))
    h.__name__ = f"lengths_and_angles_{dimn}d"
    return h
for _a in (2, 3): PROP.proof()(angles(_a))
# ------------------------------------------------------------------ run-time contract cases (real arrays)
F21 = conversions.units.f21
def expect_spw(f, lo, hi):
    k = [i for i, x in enumerate(f) if lo <= x < hi]; return (k[0], k[-1]) if k else (None, None)
@PROP.case(quick=150, thorough=3000)
def windows_on_concrete_axes(rng):
    """ranges with bounds on and between channels, ascending or descending axes, UVData/UVPSpec-like objects, lists, bounds errors"""
    g = rng.np(); n = rng.randrange(2, 12); df = rng.choice([1e5, 97656.25, 1.0]); f = rng.choice([100e6, 1.2e8 + 0.3]) + df * np.arange(n)
    if rng.coin(.3): f = f[::-1].copy()
    if rng.coin(.2): f = np.sort(f[0] + df * np.cumsum(g.integers(1, 4, n)))
    o = Axis(); o.freq_array = f.copy()
    def edge():
        i = rng.randrange(-2, n + 2); base = f.min() + df * i if not rng.coin(.6) else f[i % n]
        return base + rng.choice([0., 0., df / 2, -df / 2])
    R = [tuple(sorted((edge(), edge()))) for _ in range(rng.randrange(1, 4))]; be = rng.coin(.3)
    if rng.coin(.1): R[-1] = R[-1][::-1]
    wrong = any(a > b or (be and (a < f.min() or b > f.max())) for a, b in R); z = rng.coin(.4)
    if z: R = [(a + df / 4, b + df / 4) for a, b in R]      # away from the channels: the conversion rounds
    if z: arg, fn = [(F21 / b - 1, F21 / a - 1) for a, b in R], utils.spw_range_from_redshifts
    else: arg, fn = list(R), utils.spw_range_from_freqs
    if z:
        R = [(F21 / (1 + b), F21 / (1 + a)) for a, b in arg]; wrong = any(a > b or (be and (a < f.min() or b > f.max())) for a, b in R)
    single = rng.coin(.4)
    if single: arg, R = arg[0], R[:1]; wrong = any(a > b or (be and (a < f.min() or b > f.max())) for a, b in R)
    sa = repr(arg)
    try: got = fn(o, arg, bounds_error=be)
    except ValueError: require(wrong, "refused", f"{fn.__name__}({arg}, bounds_error={be}) on {f.tolist()} was refused"); return "refused"
    require(not wrong, "accepted", f"{fn.__name__}({arg}, bounds_error={be}) on {f.tolist()} was accepted: {got}")
    want = [expect_spw(f, a, b) for a, b in R]; got_ = [got] if single else got
    require([tuple(x) for x in got_] == want and isinstance(got, tuple if single else list), "window", f"{fn.__name__}({arg}) on {f.tolist()} = {got}, expected {want}")
    require(np.array_equal(o.freq_array, f) and repr(arg) == sa, "inputs_kept", "the inputs were changed")
    return f"{fn.__name__} {n} channels"
@PROP.case(quick=60, thorough=800)
def delays_of_axes(rng):
    """delay grids for channel counts 2..40, odd and even, given delay counts"""
    n = rng.randrange(2, 41); df = rng.choice([1e5, 97656.25, 1e3]); f = 1e8 + df * np.arange(n); m = rng.choice([None, None, rng.randrange(1, 41)]); d = utils.get_delays(f, n_dlys=m) if m else utils.get_delays(f); k = m or n
    want = (np.arange(k) - k // 2) / (k * df)
    require(d.shape == (k,) and np.allclose(d, want, rtol=1e-6, atol=1e-15), "delays", f"get_delays({n} channels of {df} Hz, n_dlys={m}) = {d[:4]}..., expected {want[:4]}...")
    return f"{n} channels, {m} delays"
@PROP.case(quick=60, thorough=800)
def geometry_and_wavenumbers(rng):
    """every row's separation, vector and wavenumbers follow from its own two baselines and its own window; any row order, missing rows, stored vectors in any baseline order"""
    from .build import blp2int, bl2int, pp2int
    g = rng.np(); antpos = {a: g.uniform(-80, 80, 3) * [1, 1, .02] for a in range(41)}; u = bld(rng, antpos=antpos, ragged=rng.coin(), folded=False)
    p = np.arange(u.Nbls); g.shuffle(p)
    if rng.coin(.6): u.bl_array = u.bl_array[p]; u.bl_vecs = u.bl_vecs[p]
    pre = snapshot(u); vec = lambda bl: antpos[bl % 1000 - 100] - antpos[bl // 1000 - 100]
    rows = u.blpair_array.tolist(); order = list(dict.fromkeys(rows)); bl = lambda x: (x // 10**6, x % 10**6)
    sep = [np.mean([np.linalg.norm(vec(b)) for b in bl(x)]) for x in rows]
    enu = u.get_ENU_bl_vecs(); require(np.allclose(enu, [vec(b) for b in u.bl_array.tolist()], atol=1e-6), "enu", "get_ENU_bl_vecs gives a vector that is not the baseline's")
    got = u.get_blpair_seps(); require(np.shape(got) == (len(rows),) and np.allclose(got, sep, rtol=1e-7, atol=1e-6), "separations", lambda: f"get_blpair_seps rows {rows}: {got} expected {sep}")
    for second in (False, True):
        v = u.get_blpair_blvecs(use_second_bl=second); require(np.allclose(v, [vec(bl(x)[int(second)]) for x in order], atol=1e-6), "vectors", f"get_blpair_blvecs(use_second_bl={second}) does not give each pair's own vector")
    for s in range(u.Nspws):
        sel = u.spw_freq_array == s; F = u.freq_array[sel]; D = u.dly_array[u.spw_dly_array == s]; z = 1420405751.768 / np.mean(F) - 1; lh = rng.coin()
        require(np.array_equal(u.get_dlys(s), D), "dlys", f"get_dlys({s}) = {u.get_dlys(s)} expected {D}")
        require(np.allclose(u.get_kparas(s, little_h=lh), D * u.cosmo.tau_to_kpara(z, little_h=lh), rtol=1e-5), "kparas", f"get_kparas({s}, little_h={lh})")
        require(np.allclose(u.get_kperps(s, little_h=lh), np.array(sep) * u.cosmo.bl_to_kperp(z, little_h=lh), rtol=1e-5), "kperps", f"get_kperps({s}, little_h={lh})")
        df = np.median(np.diff(F)); t = u.get_spw_ranges(s)[0]; require(np.allclose(t[:2], (F.min(), F.min() + df * F.size)) and tuple(t[2:]) == (F.size, D.size), "spw_ranges", f"get_spw_ranges({s}) = {t}")
    t = u.get_spw_ranges(); require(len(t) == u.Nspws and all(np.isclose(t[s][0], u.freq_array[u.spw_freq_array == s].min()) for s in range(u.Nspws)), "spw_ranges_all", f"get_spw_ranges() = {t}")
    require(not diff(pre, snapshot(u)), "kept", "the object was changed")
    return f"{len(order)} pairs, {len(rows)} rows"
@PROP.case(quick=80, thorough=1000)
def lengths_and_angles_concrete(rng):
    """vectors in all directions incl. the axes and just below the x axis"""
    g = rng.np(); n = rng.randrange(1, 8); v = g.uniform(-50, 50, (n, rng.choice([2, 3])))
    for i in range(n):
        c = rng.randrange(8)
        if c == 0: v[i, 0] = 0.
        if c == 1: v[i, 1] = 0.
        if c == 2: v[i, 1] = -rng.random() * .9
        if c == 3: v[i, 0] = -abs(v[i, 0]); v[i, 1] = 0.
    tol = rng.choice([1.0, 0.1, 3.0]); pre = v.copy(); L, G = utils.get_bl_lens_angs(v if rng.coin() else list(v), bl_error_tol=tol)
    for i in range(n):
        x, y = v[i, 0], v[i, 1]; a = np.degrees(np.arctan2(y, x)); a = a + 180 if a < 0 else a
        if -tol < y < 0 and x > 0: a = 0.
        require(np.isclose(L[i], np.sqrt((v[i] ** 2).sum())) and np.isclose(G[i], a, atol=1e-9), "angles", f"{v[i].tolist()} tol {tol}: length {L[i]}, angle {G[i]} expected {a}")
    require(np.array_equal(v, pre), "kept", "the vectors were changed")
