from .base import *
PROP = Prop("C22", "deductive verification (VCs generated from the source, loop summaries over windows, modular callee contracts, z3/sympy)",
            ["scipy's interp1d and trapezoid, uvtools' tapers and the X2Y conversion (C12) are uninterpreted functions of the arguments they are given", "wavenumber accessors as specified by C21"])
LEVEL = "proof"
NOTE = "Unbounded proof (any number of windows, rows, delays, polarizations; real arithmetic): unit conversion and loss correction of spectra, errors and covariance; renormalisation on a change of cosmology; the formulas of the volume scalar, of Jy-to-mK and of the Gaussian beam, and the arguments every caller hands to the scalar. Interpolation, quadrature and tapers are assumed library contracts. Folded objects, beams given by arrays and end-to-end values are covered by bounded run-time cases. Trusts the VC generator, its numpy model, z3 and sympy."
import numpy as np, copy
from hera_pspec import loss, pspecbeam, conversions, utils, PSpecData
from hera_pspec.uvpspec import UVPSpec

def objects(stats=True, cov=True):
    from .sym import blank, dim, Family, ifun, nd, E, arrays, mk, interp
    u = blank(); S, N, P = dim("Nspws"), dim("Nblts"), dim("Npols"); D = ifun("Nd", 1)
    u.__dict__.update(Nspws=nd(S), Nbltpairs=nd(N), Npols=nd(P), folded=False, vis_units="mK", norm_units="h^-3 Mpc^3")
    u.__dict__['spw_array'] = arrays.new((S,), 'i', lambda ix: mk('i', ix[0]))
    f = dict(data=Family("data", S, lambda s: (N, D(s), P), 'c'), nsample=Family("nsample", S, lambda s: (N, P)), integ=Family("integ", S, lambda s: (N, P)))
    u.__dict__.update(data_array=f["data"].dict(), nsample_array=f["nsample"].dict(), integration_array=f["integ"].dict())
    if stats:
        f["st_a"], f["st_b"] = [Family(x, S, lambda s: (N, D(s), P), 'c') for x in ("st_a", "st_b")]
        u.__dict__["stats_array"] = interp.created({"a": f["st_a"].dict(), "b": f["st_b"].dict()})
    if cov:
        f["cr"], f["ci"] = [Family(x, S, lambda s: (N, D(s), D(s), P)) for x in ("cr", "ci")]
        u.__dict__.update(cov_array_real=f["cr"].dict(), cov_array_imag=f["ci"].dict())
    return u, f, (S, N, P), D
def check_scaled(E, u, f, s, i, d, e, p, c_d, c_e, stats=True, cov=True, keep=True):
    """data and statistics times c_d, covariance times c_d * c_e, everything else as it was"""
    from .sym import A, interp, mk
    E.prove_eq("data", f["data"].now(s, i, d, p), f["data"].old(s, i, d, p) * c_d)
    if stats:
        for x in ("st_a", "st_b"): E.prove_eq(x, f[x].now(s, i, d, p), f[x].old(s, i, d, p) * c_d)
    if cov:
        for x, a in (("cr", u.cov_array_real), ("ci", u.cov_array_imag)): E.prove_eq(x, A(interp.getitem_any(a, mk('i', s))).at(i, d, e, p), f[x].old(s, i, d, e, p) * (c_d * c_e))
    for x in ("nsample", "integ"): E.prove_eq(x + "_kept", f[x].now(s, i, p), f[x].old(s, i, p))
def deltasq(units, extras):
    def h():
        from .sym import E, call, idx, z3, sarr, dim, Family, interp, A, as_int, zi, np as _np
        u, f, (S, N, P), D = objects(extras, extras); u.__dict__["norm_units"] = units
        kper, kpar = Family("kperp", S, lambda s: (N,)), Family("kpara", S, lambda s: (D(s),)); ND = dim("Nspwdlys")
        u.__dict__["dly_array"] = sarr("dlys", (ND,)); u.__dict__["spw_dly_array"] = sarr("spwdly", (ND,), 'i')
        def gperp(self, w, little_h=True): E.prove("little_h_perp", little_h is ("h^-3" in units)); return kper.view(w)
        def gpara(self, w, little_h=True, dlys=None):
            E.prove("little_h_para", little_h is ("h^-3" in units))
            if dlys is not None:
                ref = A(u.dly_array)[A(u.spw_dly_array) == w]; E.prove("delays_of_window", zi(A(dlys).shape_[0]) == zi(ref.shape_[0]))
                k = z3.Int("kd"); mark = len(E.pc); E.pc += [k >= 0, k < zi(ref.shape_[0])]; E.prove_eq("delay_values", A(dlys).at(k), ref.at(k)); del E.pc[mark:]
            return kpar.view(w)
        interp.CONTRACTS[UVPSpec.get_kperps] = gperp; interp.CONTRACTS[UVPSpec.get_kparas] = gpara
        call(u.convert_to_deltasq, inplace=True)
        s = idx("s", S); i, d, e, p = idx("i", N), idx("d", D(s)), idx("e", D(s)), idx("p", P)
        def co(dd):
            k2 = kper.old(s, i) * kper.old(s, i) + kpar.old(s, dd) * kpar.old(s, dd); m = call(np.sqrt, k2); return m * m * m / (2 * np.pi ** 2)
        check_scaled(E, u, f, s, i, d, e, p, co(d), co(e), extras, extras)
        E.prove("units", u.norm_units == units + " k^3 / (2pi^2)")
    h.__name__ = "dimensionless_units" + ("_h" if "h^-3" in units else "") + ("_errors" if extras else "")
    return h
for _x in (False, True):
    for _u in ("h^-3 Mpc^3", "Mpc^3"): PROP.proof()(deltasq(_u, _x))
def bias(total, data):
    def h():
        from .sym import E, call, idx, z3, interp, FamKey, Fam, mk, zi, as_int, kind_of, Family
        u, f, (S, N, P), D = objects(); fn = {n: z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ("tb", "db")}
        sc = lambda n: interp.created({FamKey(): Fam(S, lambda k: mk('i', zi(k)) if not isinstance(k, int) else k, lambda k: mk('f', fn[n](zi(as_int(k)))), lambda key: as_int(key))})
        r = call(loss.apply_bias_correction, u, sc("tb") if total else None, sc("db") if data else None)
        s = idx("s", S); i, d, e, p = idx("i", N), idx("d", D(s)), idx("e", D(s)), idx("p", P)
        t = mk('f', fn["tb"](s)) if total else 1.0; b = mk('f', fn["db"](s)) if data else 1.0
        E.prove("returned", r is u)
        E.prove_eq("data", f["data"].now(s, i, d, p), f["data"].old(s, i, d, p) * t * b)
        for x in ("st_a", "st_b"): E.prove_eq(x, f[x].now(s, i, d, p), f[x].old(s, i, d, p) * t)
        for x in ("cr", "ci"): E.prove_eq(x, f[x].now(s, i, d, e, p), f[x].old(s, i, d, e, p) * t * t)
        for x in ("nsample", "integ"): E.prove_eq(x + "_kept", f[x].now(s, i, p), f[x].old(s, i, p))
    h.__name__ = "loss" + ("_total" if total else "") + ("_data" if data else "")
    return h
for _t, _d in ((True, False), (False, True), (True, True)): PROP.proof()(bias(_t, _d))
@PROP.proof()
def new_cosmology():
    """spectra and their errors scale with new scalar / old scalar of their window and polarization, the covariance with its square; the new scalar is stored"""
    from .sym import E, call, idx, z3, sarr, interp, mk, zi, as_int, arrays, A
    u, f, (S, N, P), D = objects(); old = conversions.Cosmo_Conversions(); new = conversions.Cosmo_Conversions(H0=50.0)
    E.branch(P == 2); E.assume(P == 2); P = 2; u.__dict__["Npols"] = 2
    u.__dict__["polpair_array"] = np.array([1515, 1414])
    so = sarr("oldscalar", (S, 2), pos=True); keep = sarr("oldscalar", (S, 2)); u.__dict__.update(scalar_array=so, cosmo=old, OmegaP=1, OmegaPP=1, beam_freqs=1)
    g = z3.Function("newscalar", z3.IntSort(), z3.IntSort(), z3.RealSort())
    def cs(self, w, pp, num_steps=1000, little_h=True, noise_scalar=False):
        E.prove("new_cosmology_in_force", self.cosmo is new); E.prove("scalar_units", little_h is True and noise_scalar is False); return mk('f', g(zi(as_int(w)), zi(as_int(pp))))
    interp.CONTRACTS[UVPSpec.compute_scalar] = cs
    call(u.set_cosmology, new, overwrite=False, verbose=False); E.prove("not_overwritten", u.cosmo is old)
    call(u.set_cosmology, new, overwrite=True, verbose=False)
    s = idx("s", S); i, d, e = idx("i", N), idx("d", D(s)), idx("e", D(s))
    E.prove("set", u.cosmo is new)
    for p, pp in ((0, 1515), (1, 1414)):
        n = mk('f', g(s, z3.IntVal(pp))); r = n / keep.at(s, p); check_scaled(E, u, f, s, i, d, e, p, r, r); E.prove_eq("scalar_stored", A(u.scalar_array).at(s, p), n)

class FakeCosmo: pass
def library():
    """library contracts shared by the scalar and by the unit conversion: records of what was interpolated, integrated, tapered"""
    from .sym import E, interp, sarr, A, arrays, mk, z3, sreal, zi, as_int
    from dv.core import to_real
    import scipy.integrate as si, uvtools.dspec as dspec
    log = dict(curve=[], trap=[], taper=[])
    def i1(x, y, kind="linear", fill_value=None, **k):
        n = len(log["curve"]); f = z3.Function(f"curve{n}", z3.RealSort(), z3.RealSort()); log["curve"].append((A(x), A(y), kind, fill_value, f))
        def at(v):
            a = A(v); return arrays.new(a.shape_, 'f', lambda ix: mk('f', f(to_real(a.at(*ix)))))
        return at
    interp.CONTRACTS[pspecbeam.interp1d] = i1
    def trap(y, x=None, dx=1.0, axis=-1):
        t = sreal(f"integral{len(log['trap'])}"); E.assume(t.e > 0); log["trap"].append((A(y), A(x), t)); return t
    interp.CONTRACTS[si.trapezoid] = trap
    def win(taper, n, **k): log["taper"].append((taper, n)); return sarr("taper_" + taper, (zi(as_int(n)),))
    interp.CONTRACTS[dspec.gen_window] = win
    return log
def scalar_formula(taper, noise, exact, little_h):
    def h():
        from .sym import E, call, sarr, dim, idx, A, interp, arrays, mk, z3, zi, as_int, sreal
        from dv.core import to_real
        n, b, m = dim("nfreq", 2), dim("nbeam", 3), dim("nsteps", 2); nu, bf, om = sarr("nu", (n,), pos=True), sarr("beam_nu", (b,), pos=True), sarr("omega_ratio", (b,), pos=True)
        c = interp.created(FakeCosmo()); log = library()
        zf, xf = z3.Function("z_of", z3.RealSort(), z3.RealSort()), z3.Function("x2y_of", z3.RealSort(), z3.RealSort())
        def f2z(f, ghz=False): a = A(f); return arrays.new(a.shape_, 'f', lambda ix: mk('f', zf(to_real(a.at(*ix)))))
        def x2y(z, little_h=True):
            E.prove("little_h", little_h is lh); r = xf(to_real(z)); E.assume(r > 0) if not is_bound(r) else None; return mk('f', r)
        from .sym import engine_bound as is_bound
        lh = little_h; c.f2z = f2z; c.X2Y = x2y
        r = call(pspecbeam._compute_pspec_scalar, c, bf, om, nu, num_steps=mk('i', m), taper=taper, little_h=little_h, noise_scalar=noise, exact_norm=exact)
        df = call(np.median, call(np.diff, nu)); lo = call(np.min, nu); i = idx("i", m)
        E.prove("one_integral", len(log["trap"]) == 1); y, x, t = log["trap"][0]
        E.prove("steps", z3.And(zi(x.shape_[0]) == m, zi(y.shape_[0]) == m))
        width = df * mk('i', n)                                     # band covered by n channels
        E.assume(to_real(width) > 0)
        E.prove_eq("integration_frequency", x.at(i), lo + width * mk('i', i) / (mk('i', m) - 1))
        X = mk('f', xf(zf(to_real(lo + width * mk('i', i) / (mk('i', m) - 1))))); E.assume(X.e > 0)
        if exact:
            E.prove_eq("integrand", y.at(i), X); E.prove_eq("scalar", r * width, t); return
        cx, cy, kind, fill, cf = log["curve"][0]; k = idx("k", b)
        E.prove("beam_interpolation", kind == "quadratic" and fill == "extrapolate")
        E.prove_eq("beam_nodes", cx.at(k) * 1e6, bf.at(k)); E.prove_eq("beam_values", cy.at(k), om.at(k))
        F = mk('f', cf(to_real(x.at(i) / 1e6)))
        if noise: w = 1.0 / width
        elif taper == "none": w = 1.0 / (width * width)
        else:
            tx, ty, kind, fill, tf = log["curve"][1]; j = idx("j", n)
            E.prove("taper_interpolation", kind == "nearest" and fill == "extrapolate" and len(log["taper"]) == 1 and log["taper"][0][0] == taper); E.prove("taper_length", zi(as_int(log["taper"][0][1])) == n)
            E.prove_eq("taper_nodes", tx.at(j), nu.at(j)); T = sarr("taper_" + taper, (n,)).at(j); E.prove_eq("taper_values", ty.at(j), T * T)
            w = mk('f', tf(to_real(x.at(i)))) / (width * width)
        E.prove_eq("integrand", y.at(i) * X, w * F)
        E.prove_eq("scalar", r * t, 1.0)
    h.__name__ = "volume_scalar_" + taper + ("_noise" if noise else "") + ("_exact" if exact else "") + ("_h" if little_h else "")
    return h
for _a in (("none", False, False, True), ("blackman-harris", False, False, True), ("blackman-harris", True, False, False), ("none", True, False, True), ("blackman-harris", False, True, True), ("none", False, True, False)): PROP.proof()(scalar_formula(*_a))
def jy(scalar):
    def h():
        """temperature per jansky: 1e-20 c^2 / (2 k_B nu^2 Omega_p(nu))"""
        from .sym import E, call, raises, sarr, dim, idx, A, interp, mk, sreal
        from dv.core import to_real
        n, b = dim("n"), dim("nbeam", 3); log = library(); o = interp.created(object.__new__(pspecbeam.PSpecBeamGauss)); o.beam_freqs = sarr("beam_nu", (b,), pos=True); op = sarr("Omega_p", (b,), pos=True); asked = []
        interp.CONTRACTS[pspecbeam.PSpecBeamGauss.power_beam_int] = lambda s, pol="pI": (asked.append(pol), op)[1]
        if scalar: f = sreal("nu0"); E.assume(f.e > 0); at = lambda: f; i = 0
        else: fr = sarr("nu", (n,), pos=True); i = idx("i", n); at = lambda: fr.at(i); f = fr
        r = A(call(o.Jy_to_mK, f, pol="xx")); E.prove("polarization", asked == ["xx"])
        cx, cy, kind, fill, cf = log["curve"][0]; k = idx("k", b); E.prove("interpolation", kind == "quadratic" and fill == "extrapolate")
        E.prove_eq("nodes", cx.at(k) * 1e6, o.beam_freqs.at(k)); E.prove_eq("values", cy.at(k), op.at(k))
        W = mk('f', cf(to_real(at() / 1e6))); E.assume(W.e > 0)
        E.prove_eq("factor", r.at(i) * (2 * conversions.cgs_units.kb) * at() * at() * W, 1e-20 * conversions.cgs_units.c ** 2)
        r, e = raises(o.Jy_to_mK, [1e8]); E.prove("list_refused", isinstance(e, TypeError))
    h.__name__ = "jansky_to_kelvin" + ("_one_frequency" if scalar else "")
    return h
for _a in (False, True): PROP.proof()(jy(_a))
@PROP.proof()
def constants():
    from .sym import E
    E.prove("speed_of_light", abs(conversions.cgs_units.c / 2.99792458e10 - 1) < 1e-9); E.prove("boltzmann", abs(conversions.cgs_units.kb / 1.380649e-16 - 1) < 1e-5)
@PROP.proof()
def gaussian_beam():
    """integral of the beam 2 pi s^2 and of its square pi s^2 with s = fwhm / sqrt(8 ln 2), the same at every frequency"""
    from .sym import E, call, sarr, dim, idx, A, interp, sreal
    b = dim("nbeam"); o = interp.created(object.__new__(pspecbeam.PSpecBeamGauss)); w = sreal("fwhm"); E.assume(w.e > 0); bf = sarr("beam_nu", (b,), pos=True); co = FakeCosmo()
    call(pspecbeam.PSpecBeamGauss.__init__, o, w, bf, cosmo=co); E.prove("cosmo", o.cosmo is co)
    i = idx("i", b); s2 = w * w / (8.0 * np.log(2.0))
    for pol in ("pI", "xx", -5):
        E.prove_eq(f"power_{pol}", A(call(o.power_beam_int, pol)).at(i), s2 * (2 * np.pi)); E.prove_eq(f"square_{pol}", A(call(o.power_beam_sq_int, pol)).at(i), s2 * np.pi)
    E.prove("shape", A(call(o.power_beam_int)).shape_[0] is b or E.valid_quick(A(call(o.power_beam_int)).shape_[0] == b, 1.0))
    E.prove_eq("input_kept", bf.at(i), sarr("beam_nu", (b,), pos=True).at(i))
@PROP.proof()
def beam_arguments():
    """compute_pspec_scalar hands over this beam's cosmology, frequencies and solid-angle ratio of the polarization asked for, and every option unchanged"""
    from .sym import E, call, sarr, dim, idx, A, interp, mk, sreal, zi, z3
    b, n = dim("nbeam"), dim("nfreq", 1); o = interp.created(object.__new__(pspecbeam.PSpecBeamGauss)); o.beam_freqs = sarr("beam_nu", (b,), pos=True); o.cosmo = FakeCosmo()
    p, q = sarr("Op", (b,), pos=True), sarr("Opp", (b,), pos=True); asked = []; got = []
    interp.CONTRACTS[pspecbeam.PSpecBeamGauss.power_beam_int] = lambda s, pol="pI": (asked.append(pol), p)[1]; interp.CONTRACTS[pspecbeam.PSpecBeamGauss.power_beam_sq_int] = lambda s, pol="pI": (asked.append(pol), q)[1]
    def cs(cosmo, beam_freqs, omega_ratio, pspec_freqs, num_steps=5000, taper="none", little_h=True, noise_scalar=False, exact_norm=False):
        got.append((cosmo, beam_freqs, A(omega_ratio), A(pspec_freqs), num_steps, taper, little_h, noise_scalar, exact_norm)); return 7.0
    interp.CONTRACTS[pspecbeam._compute_pspec_scalar] = cs
    lo, hi = sreal("lo"), sreal("hi"); i, k = idx("i", b), idx("k", n)
    for opts in (dict(), dict(num_steps=11, pol="xx", taper="hann", little_h=False, noise_scalar=True, exact_norm=True), dict(pol="yy", noise_scalar=True), dict(exact_norm=True), dict(taper="tukey")):
        r = call(o.compute_pspec_scalar, lo, hi, mk('i', n), **opts); g = got[-1]; want = dict(dict(num_steps=5000, pol="pI", taper="none", little_h=True, noise_scalar=False, exact_norm=False), **opts)
        E.prove("passed", r == 7.0 and g[0] is o.cosmo and g[1] is o.beam_freqs and g[4:] == tuple(want[x] for x in ("num_steps", "taper", "little_h", "noise_scalar", "exact_norm")) and asked[-2:] == [want["pol"]] * 2)
        E.prove_eq("ratio", g[2].at(i) * p.at(i) * p.at(i), q.at(i)); E.prove("channels", zi(g[3].shape_[0]) == n); E.prove_eq("frequencies", g[3].at(k), lo + (hi - lo) * mk('i', k) / mk('i', n))
@PROP.proof()
def stored_beam_arguments():
    """UVPSpec.compute_scalar: channels of the window, solid angles of the polarization pair asked for, this object's cosmology, the taper unless the normalization already corrects for it"""
    from .sym import E, call, raises, sarr, dim, idx, A, interp, mk, sreal, zi, z3, blank, nd, as_int
    u = blank(); b, n, m = dim("nbeam"), dim("nall", 1), dim("nspwf", 1); P = 3
    sel = sarr("chan", (m,), 'i'); k = idx("k", m); E.assume(sel.at(k).e >= 0, sel.at(k).e < n)
    u.__dict__.update(freq_array=sarr("freqs", (n,)), OmegaP=sarr("OP", (b, P), pos=True), OmegaPP=sarr("OPP", (b, P), pos=True), beam_freqs=sarr("bf", (b,)), cosmo=FakeCosmo(), taper="hann", polpair_array=np.array([1515, 1414, 2121]), Npols=P)
    got = []; asked = []
    interp.CONTRACTS[UVPSpec.spw_to_freq_indices] = lambda s, spw: (asked.append(spw), sel)[1]
    interp.CONTRACTS[pspecbeam._compute_pspec_scalar] = lambda *a, **kw: (got.append((a, kw)), 5.0)[1]
    i = idx("i", b); fr = sarr("freqs", (n,)); spw = mk('i', z3.Int("spw"))
    for norm in ("I", "H^-1", None):
        if norm is None: u.__dict__.pop("norm", None)
        else: u.__dict__["norm"] = norm
        for j, pp in enumerate((1515, 1414, 2121)):
            for form in (pp, (pp // 100 - 20, pp % 100 - 20)):
                for kw in (dict(), dict(num_steps=7, little_h=False, noise_scalar=True)):
                    r = call(u.compute_scalar, spw, form, **kw); a, k_ = got[-1]; want = dict(dict(num_steps=1000, little_h=True, noise_scalar=False), **kw)
                    E.prove("passed", r == 5.0 and asked[-1] is spw and a[0] is u.cosmo and a[1] is u.beam_freqs and k_["num_steps"] == want["num_steps"] and k_["little_h"] is want["little_h"] and k_["noise_scalar"] is want["noise_scalar"] and k_["taper"] == ("none" if norm == "H^-1" else "hann") and k_.get("exact_norm", False) is False)
                    q, p = A(u.OmegaPP).at(i, j), A(u.OmegaP).at(i, j); E.prove_eq("ratio", A(a[2]).at(i) * p * p, q); E.prove_eq("channels", A(a[3]).at(k), fr.at(zi(as_int(sel.at(k)))))
    for x in ("cosmo", "OmegaP", "OmegaPP", "beam_freqs"):
        v = u.__dict__.pop(x); r, e = raises(u.compute_scalar, spw, 1515); E.prove(f"needs_{x}", isinstance(e, AssertionError)); u.__dict__[x] = v
@PROP.proof()
def data_set_arguments():
    """PSpecData.scalar: the band of the selected window, the beam asked for (or the primary beam), its taper or the override, auto-polarization pairs only"""
    from .sym import E, call, raises, sarr, dim, idx, A, interp, mk, sreal, zi, z3, to_bool, cmp
    from dv.core import to_real
    n = dim("nall", 2); lo, hi = z3.Ints("lo hi"); E.assume(lo >= 0, hi > lo + 1, hi <= n)
    fr = sarr("freqs", (n,)); ps = interp.created(object.__new__(PSpecData)); ps.__dict__.update(freqs=fr, spw_range=(mk('i', lo), mk('i', hi)), taper="hann", primary_beam=object.__new__(pspecbeam.PSpecBeamGauss))
    other = object.__new__(pspecbeam.PSpecBeamGauss); got = []
    interp.CONTRACTS[pspecbeam.PSpecBeamGauss.compute_pspec_scalar] = lambda s, *a, **kw: (got.append((s, a, kw)), 5.0)[1]
    interp.CONTRACTS[pspecbeam.PSpecBeamBase.compute_pspec_scalar] = interp.CONTRACTS[pspecbeam.PSpecBeamGauss.compute_pspec_scalar]
    df = call(np.median, call(np.diff, fr[slice(mk('i', lo), mk('i', hi))]))
    for beam in (None, other):
        for form, pol in ((1515, -5), (("xx", "xx"), "xx"), ("pI", "pI"), ((-6, -6), -6)):
            for kw in (dict(), dict(little_h=False, num_steps=9, taper_override="tukey", exact_norm=True), dict(taper_override="none"), dict(taper_override="no_override")):
                r = call(ps.scalar, form, beam=beam, **kw); o, a, k_ = got[-1]; t = kw.get("taper_override", "no_override")
                E.prove("passed", r == 5.0 and o is (beam or ps.primary_beam) and k_["pol"] == pol and k_["taper"] == ("hann" if t == "no_override" else t) and k_["little_h"] is kw.get("little_h", True) and k_["num_steps"] == kw.get("num_steps", 2000) and k_.get("exact_norm", False) is kw.get("exact_norm", False))
                E.prove_eq("lowest", a[0], fr.at(lo)); E.prove_eq("highest", a[1], fr.at(lo) + df * mk('i', hi - lo)); E.prove_eq("count", a[2], mk('i', hi - lo))
    for bad in (1514, ("xx", "yy"), (-5, -6)):
        r, e = raises(ps.scalar, bad); E.prove("cross_refused", isinstance(e, NotImplementedError))

def k_of(u, s, rows, little_h):
    """|k| from the documented definitions: k_perp of the mean separation of the pair, k_para of the delay, at the mean redshift of the window"""
    z = u.cosmo.f2z(u.freq_array[u.spw_freq_array == s].mean()); L = dict(zip(u.bl_array.tolist(), np.linalg.norm(u.bl_vecs.astype(float), axis=1)))
    out = [(L[int(b) // 10 ** 6] + L[int(b) % 10 ** 6]) / 2 for b in u.blpair_array[rows]]
    return np.array(out) * u.cosmo.bl_to_kperp(z, little_h=little_h), u.dly_array[u.spw_dly_array == s] * u.cosmo.tau_to_kpara(z, little_h=little_h)
@PROP.case(quick=24, thorough=400)
def dimensionless(rng):
    """synthetic spectra with errors and covariance, with or without little h, folded or not: every value times its own k^3 / 2 pi^2"""
    fold = rng.coin(0.4)
    u = bld(rng, stats=("a", "b"), cov=rng.coin(0.6), nfreqs=rng.choice([6, 8]), ndlys=None); lh = rng.coin(0.6)
    if not lh: u.norm_units = "Mpc^3"
    if fold: u.fold_spectra()
    inplace = rng.coin(); o = snapshot(u); w = u if inplace else copy.deepcopy(u); r = w.convert_to_deltasq(inplace=inplace); v = u if inplace else r
    if inplace: require(r is None, "return", "in-place conversion returns something")
    else: require(not diff(o, snapshot(w)), "input", f"not in place but changed {diff(o, snapshot(w))}")
    require(v.norm_units == o["norm_units"] + " k^3 / (2pi^2)", "units", v.norm_units)
    for s in range(u.Nspws):
        kp, kl = k_of(v, s, slice(None), lh); c = (np.hypot(kp[:, None], kl[None])) ** 3 / (2 * np.pi ** 2)
        require(np.allclose(v.data_array[s], o["data_array"][s] * c[..., None], rtol=1e-9, equal_nan=True), "data", f"window {s}")
        for x in ("a", "b"): require(np.allclose(v.stats_array[x][s], o["stats_array"][x][s] * c[..., None], rtol=1e-9, equal_nan=True), "stats", f"{x} {s}")
        if "cov_array_real" in o:
            for x in ("cov_array_real", "cov_array_imag"): require(np.allclose(getattr(v, x)[s], o[x][s] * c[:, :, None, None] * c[:, None, :, None], rtol=1e-9, equal_nan=True), "cov", f"{x} {s}")
    d = set(diff(o, snapshot(v))) - {"data_array", "stats_array", "cov_array_real", "cov_array_imag", "norm_units"}; require(not d, "rest", f"changed {d}")
    return ("folded" if fold else "full", lh, inplace)
from .build import build as bld, snapshot, diff
def scalar_oracle(cosmo, bf, ratio, freqs, steps, taper, lh, noise=False, exact=False):
    from scipy.interpolate import interp1d
    import uvtools.dspec as dspec
    w = np.median(np.diff(freqs)) * len(freqs); x = freqs.min() + w * np.arange(steps) / (steps - 1)
    X = np.array([cosmo.X2Y(cosmo.f2z(v), little_h=lh) for v in x]); trap = lambda y: np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))
    if exact: return trap(X) / w
    R = interp1d(bf / 1e6, ratio, kind="quadratic", fill_value="extrapolate")(x / 1e6)
    B = np.ones(steps) if taper == "none" else interp1d(freqs, dspec.gen_window(taper, len(freqs)) ** 2, kind="nearest", fill_value="extrapolate")(x)
    B = B / w ** 2 if not noise else 1 / w
    return 1 / trap(B * R / X)
def cosmo(rng): return conversions.Cosmo_Conversions(Om_L=rng.uniform(.6, .75), Om_b=.05, Om_c=rng.uniform(.2, .3), H0=rng.uniform(60, 80))
@PROP.case(quick=16, thorough=200)
def renormalise(rng):
    """change of cosmology (object or dictionary, stored or new beam) of concrete spectra with errors: scalars recomputed from the integral, everything rescaled by the ratio"""
    P = rng.choice([1, 2]); u = bld(rng, stats=("a",), cov=rng.coin(), polpairs=rng.sample([(-5, -5), (-6, -6), (1, 1), (2, 2)], P), nspw=rng.choice([1, 2]))
    u.taper = rng.choice(["none", "blackman-harris"]); u.norm = rng.choice(["I", "I", "H^-1"])
    o = snapshot(u); c = cosmo(rng); par = dict(Om_L=c.Om_L, Om_b=c.Om_b, Om_c=c.Om_c, H0=c.H0); form = rng.choice(["object", "dict"]); kw = {}
    if rng.coin(0.4): kw["new_beam"] = pspecbeam.PSpecBeamGauss(rng.uniform(.1, .2), np.linspace(80e6, 200e6, 30))
    u.set_cosmology(c, overwrite=False, verbose=False, **kw); require(not diff(o, snapshot(u)), "overwrite", "changed although a cosmology exists and overwrite is off")
    u.set_cosmology(c if form == "object" else par, overwrite=True, verbose=False, **kw)
    require(all(getattr(u.cosmo, x) == v for x, v in par.items()), "cosmo", "parameters differ")
    for s in range(u.Nspws):
        f = u.freq_array[u.spw_freq_array == s]
        for j in range(P):
            if kw: b = kw["new_beam"]; bf, ratio = b.beam_freqs, b.power_beam_sq_int("xx") / b.power_beam_int("xx") ** 2
            else: bf, ratio = o["beam_freqs"], o["OmegaPP"][:, j] / o["OmegaP"][:, j] ** 2
            n = scalar_oracle(c, bf, ratio, f, 1000, "none" if u.norm == "H^-1" else u.taper, True); require(np.isclose(u.scalar_array[s, j], n, rtol=1e-6), "scalar", f"{u.scalar_array[s, j]} expected {n}")
            r = u.scalar_array[s, j] / o["scalar_array"][s, j]
            for x, e in (("data_array", 1), ("cov_array_real", 2), ("cov_array_imag", 2)):
                if x in o: require(np.allclose(getattr(u, x)[s][..., j], o[x][s][..., j] * r ** e, rtol=1e-9), x, f"window {s} polarization {j}")
            require(np.allclose(u.stats_array["a"][s][..., j], o["stats_array"]["a"][s][..., j] * r, rtol=1e-9), "stats", f"window {s} polarization {j}")
    d = set(diff(o, snapshot(u))) - {"data_array", "stats_array", "cov_array_real", "cov_array_imag", "scalar_array", "cosmo", "OmegaP", "OmegaPP", "beam_freqs"}; require(not d, "rest", f"changed {d}")
    return (form, bool(kw))
@PROP.case(quick=24, thorough=300)
def beams(rng):
    """Gaussian beams and beams given by arrays (one or several polarizations, integer or string keys): solid angles, their table, volume scalar, unit conversion"""
    g = rng.np(); n = rng.choice([8, 15]); bf = np.linspace(100e6, 200e6, n); c = cosmo(rng)
    kind = rng.choice(["gauss", "one", "dict", "strdict"]); pols = ["pI"] if kind in ("gauss", "one") else rng.sample(["pI", "pQ", "pU", "pV", "xx", "yy", "xy", "yx"], rng.choice([1, 2, 3]))
    num = dict(pI=1, pQ=2, pU=3, pV=4, xx=-5, yy=-6, xy=-7, yx=-8); P = {p: g.uniform(.05, .1, n) for p in pols}; Q = {p: g.uniform(.02, .05, n) for p in pols}
    if kind == "gauss":
        w = rng.uniform(.1, .3); b = pspecbeam.PSpecBeamGauss(w, bf, cosmo=c); P["pI"] = np.full(n, 2 * np.pi * w ** 2 / (8 * np.log(2))); Q["pI"] = P["pI"] / 2
    elif kind == "one": b = pspecbeam.PSpecBeamFromArray(P["pI"].copy(), Q["pI"].copy(), bf, cosmo=c)
    else: k = (lambda p: num[p]) if kind == "dict" else (lambda p: p); b = pspecbeam.PSpecBeamFromArray({k(p): v.copy() for p, v in P.items()}, {k(p): v.copy() for p, v in Q.items()}, bf, cosmo=c)
    for p in pols:
        for key in (p, num[p]):
            require(np.allclose(b.power_beam_int(key), P[p], rtol=1e-12) and np.allclose(b.power_beam_sq_int(key), Q[p], rtol=1e-12), "angles", f"{kind} {key}")
        fr = np.sort(g.uniform(110e6, 190e6, 5)); 
        from scipy.interpolate import interp1d
        O = interp1d(bf, P[p], kind="quadratic")(fr); require(np.allclose(b.Jy_to_mK(fr, pol=p), 1e-20 * 2.99792458e10 ** 2 / (2 * 1.380649e-16 * fr ** 2 * O), rtol=1e-5), "Jy_to_mK", f"{kind} {p}")
        require(np.allclose(b.Jy_to_mK(float(fr[0]), pol=p), b.Jy_to_mK(fr, pol=p)[0]), "Jy_to_mK_one", f"{kind} {p}")
        lo = rng.uniform(110e6, 130e6); hi = lo + rng.uniform(5e6, 20e6); m = rng.choice([10, 21]); fr = lo + (hi - lo) * np.arange(m) / m; t = rng.choice(["none", "blackman-harris", "hann"]); lh, noise, ex = rng.coin(), rng.coin(.3), rng.coin(.2); steps = rng.choice([50, 101])
        r = b.compute_pspec_scalar(lo, hi, m, num_steps=steps, pol=p, taper=t, little_h=lh, noise_scalar=noise, exact_norm=ex); x = scalar_oracle(c, bf, Q[p] / P[p] ** 2, fr, steps, t, lh, noise, ex)
        require(np.isclose(r, x, rtol=1e-6), "scalar", f"{kind} {p} {t}: {r} expected {x}")
    pp = [rng.choice([(num[p], num[p]), (p, p), (20 + num[p]) * 100 + 20 + num[p]]) for p in pols]; a, q = b.get_Omegas(pp)
    require(a.shape == (n, len(pols)) and np.allclose(a, np.array([P[p] for p in pols]).T) and np.allclose(q, np.array([Q[p] for p in pols]).T), "get_Omegas", f"{kind} {pp}")
    return (kind, len(pols))
@PROP.case(quick=16, thorough=200)
def losses(rng):
    """loss corrections of concrete spectra with errors and covariance; the corrected object is the one given"""
    u = bld(rng, stats=("a",), cov=rng.coin()); o = snapshot(u); g = rng.np(); t = {s: g.uniform(1, 2) for s in range(u.Nspws)} if rng.coin(.8) else None; d = {s: g.uniform(1, 2) for s in range(u.Nspws)} if t is None or rng.coin() else None
    r = loss.apply_bias_correction(u, total_bias=t, data_bias=d); require(r is u, "returned", "another object")
    for s in range(u.Nspws):
        a, b = (t or {}).get(s, 1.0), (d or {}).get(s, 1.0)
        require(np.allclose(u.data_array[s], o["data_array"][s] * a * b, rtol=1e-12) and np.allclose(u.stats_array["a"][s], o["stats_array"]["a"][s] * a, rtol=1e-12), "factors", f"window {s}")
        for x in ("cov_array_real", "cov_array_imag"):
            if x in o: require(np.allclose(getattr(u, x)[s], o[x][s] * a ** 2, rtol=1e-12), "cov", f"window {s}")
    x = set(diff(o, snapshot(u))) - {"data_array", "stats_array", "cov_array_real", "cov_array_imag"}; require(not x, "rest", f"changed {x}")
    return (t is not None, d is not None)
