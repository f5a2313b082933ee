from .base import *
PROP = Prop("C12", "deductive verification (VCs generated from the source, z3/sympy; integrator under an assumed contract)",
            ["redshift above -1, H0 > 0, positive expansion rate squared", "scipy.integrate.quad(f, a, b)[0] is the integral of f from a to b"])
LEVEL = "proof"
NOTE = "Unbounded proof over all redshifts, frequencies and parameters (real arithmetic): redshift/frequency inverses, expansion rate, comoving, transverse, angular-diameter and differential distances in every curvature case, volume factor, baseline and delay factors, little-h powers and units. The numerical integrator is under an assumed contract (its result is the integral); run-time contract cases compare with an independent quadrature. Trusts the VC generator, its numpy model, z3 and sympy."
import numpy as np
from hera_pspec import conversions
from hera_pspec.conversions import Cosmo_Conversions, units

F21, C = 1.420405751e9, 2.99792458e8
def K():
    """the proofs hold for any positive values of the constants (their values are the obligations of `constants`)"""
    from .sym import E, sreal
    c, f = sreal("c_light"), sreal("f_21cm"); E.assume(c.e > 0, f.e > 0)
    units.c = c; units.ckm = c / 1000.0; units.f21 = f
    return f, c
@PROP.proof()
def constants():
    from .sym import E
    E.prove("speed_of_light", abs(units.c - C) < 1e-6); E.prove("speed_of_light_km", abs(units.ckm * 1000 - C) < 1e-6); E.prove("line_frequency", abs(units.f21 - F21) < 1e-3)
def setup(curv=None):
    from .sym import E, interp, sreal, z3, mk, rv, to_bool, cmp
    import scipy.integrate as si
    c = interp.created(object.__new__(Cosmo_Conversions)); d = c.__dict__
    for p in ("Om_L", "Om_M", "Om_k", "H0"): d[p] = sreal(p)
    E.assume(d["H0"].e > 0)
    d["h"] = d["H0"] / 100.0; d["params"] = ["Om_L", "Om_b", "Om_c", "Om_M", "Om_k", "H0"]
    if curv is not None: E.assume({1: d["Om_k"].e > 0, -1: d["Om_k"].e < 0, 0: d["Om_k"].e == 0}[curv])
    z = sreal("z"); E.assume(z.e > -1)
    I = mk('f', z3.Real("Int_0_z_of_1_over_E"))
    def quad(f, a, b, *r, **k):
        """assumed contract of scipy.integrate.quad; the integrand and the limits are obligations of the caller"""
        t = sreal("t"); E.assume(t.e >= 0, e2(c, t).e > 0)
        g = interp.call(f, [t], {})
        E.prove("integrand_positive", to_bool(cmp('>', g, 0.0)))
        E.prove_eq("integrand_is_inverse_expansion_rate", g * g * e2(c, t), 1.0)
        E.prove_eq("integral_from", a, 0.0); E.prove_eq("integral_to", b, z)
        return I, 0.0
    interp.CONTRACTS[si.quad] = quad
    E.assume(e2(c, z).e > 0)
    return c, z, I
def e2(c, t): return c.Om_M * ((1 + t) * (1 + t) * (1 + t)) + c.Om_k * ((1 + t) * (1 + t)) + c.Om_L

@PROP.proof()
def redshift_and_frequency_are_inverse():
    from .sym import E, call, sreal, rv
    F21, C = K(); c, z, _ = setup(); f = sreal("f"); E.assume(f.e > 0)
    for ghz in (False, True):
        s = 1e9 if ghz else 1.0
        r = call(c.f2z, f, ghz=ghz); E.prove_eq(f"f2z_ghz{ghz}", (r + 1) * f * s, F21)
        r2 = call(c.z2f, z, ghz=ghz); E.prove_eq(f"z2f_ghz{ghz}", r2 * s * (z + 1), F21)
        E.prove_eq(f"z2f_of_f2z_ghz{ghz}", call(c.z2f, r, ghz=ghz), f); E.prove_eq(f"f2z_of_z2f_ghz{ghz}", call(c.f2z, r2, ghz=ghz), z)
@PROP.proof()
def redshift_and_frequency_of_arrays():
    """arrays of any length, converted element by element, inputs unmodified"""
    from .sym import E, call, sarr, dim, idx, A
    F21, C = K(); c, _, _ = setup(); n = dim("n"); f = sarr("farr", (n,), pos=True); z = sarr("zarr", (n,), pos=True); i = idx("i", n); fi, z_i = f.at(i), z.at(i)
    for ghz in (False, True):
        s = 1e9 if ghz else 1.0
        r = A(call(c.f2z, f, ghz=ghz)); E.prove_eq(f"f2z_ghz{ghz}", (r.at(i) + 1) * fi * s, F21)
        r2 = A(call(c.z2f, z, ghz=ghz)); E.prove_eq(f"z2f_ghz{ghz}", r2.at(i) * s * (z_i + 1), F21)
        E.prove_eq(f"input_f_kept_ghz{ghz}", f.at(i), fi); E.prove_eq(f"input_z_kept_ghz{ghz}", z.at(i), z_i)
@PROP.proof()
def expansion_rate():
    from .sym import E, call, to_bool, cmp
    F21, C = K(); c, z, _ = setup(); r = call(c.E, z)
    E.prove_eq("square", r * r, e2(c, z)); E.prove("positive", to_bool(cmp('>', r, 0.0)))
@PROP.proof()
def comoving_distance():
    from .sym import E, call
    F21, C = K(); c, z, I = setup()
    E.prove_eq("little_h", call(c.DC, z, little_h=True), I * (C / 1000.0) / 100.0); E.prove_eq("physical", call(c.DC, z, little_h=False) * c.H0, I * (C / 1000.0)); E.prove_eq("default", call(c.DC, z), call(c.DC, z, little_h=True))
    E.prove_eq("power_of_h", call(c.DC, z, little_h=True), call(c.DC, z, little_h=False) * c.h)

def transverse(curv):
    def h():
        from .sym import E, call, interp
        F21, C = K(); c, z, I = setup(curv)
        for lh in (True, False):
            DH = (C / 1000.0) / (100.0 if lh else c.H0); D = call(c.DM, z, little_h=lh)
            if curv == 0: E.prove_eq(f"flat_lh{lh}", D, DH * I)
            else:
                k = call(np.sqrt, c.Om_k if curv > 0 else -c.Om_k)
                E.prove_eq(f"curved_lh{lh}", D, DH * call(np.sinh if curv > 0 else np.sin, k * I) / k)
            E.prove_eq(f"angular_lh{lh}", call(c.DA, z, little_h=lh) * (1 + z), D); E.prove_eq(f"dRperp_lh{lh}", call(c.dRperp_dtheta, z, little_h=lh), D)
        for nm in ("DM", "DA", "dRperp_dtheta"):
            m = getattr(c, nm)
            E.prove_eq(nm + "_power_of_h", call(m, z, little_h=True), call(m, z, little_h=False) * c.h); E.prove_eq(nm + "_default", call(m, z), call(m, z, little_h=True))
    h.__name__ = "transverse_distance_" + {1: "open", -1: "closed", 0: "flat"}[curv]
    return h
for _c in (1, -1, 0): PROP.proof()(transverse(_c))

@PROP.proof()
def line_of_sight_and_volume():
    from .sym import E, call, interp, sreal
    F21, C = K(); c, z, I = setup(0); e = call(c.E, z)
    DH = {True: C / 1000.0 / 100.0, False: C / 1000.0 / c.H0}
    for lh in (True, False):
        p = call(c.dRpara_df, z, little_h=lh); g = call(c.dRpara_df, z, little_h=lh, ghz=True)
        E.prove_eq(f"dRpara_lh{lh}", p * e * F21, (1 + z) * (1 + z) * DH[lh]); E.prove_eq(f"dRpara_ghz_lh{lh}", g, p * 1e9)
    # the remaining factors over any transverse and line-of-sight factors with their contracts
    X = {True: sreal("Xh"), False: sreal("X")}; Y = {True: sreal("Yh"), False: sreal("Y")}
    for v in (X, Y): E.assume(v[True].e > 0, v[False].e > 0)
    E.assume(X[True].e == (X[False] * c.h).e, Y[True].e == (Y[False] * c.h).e)
    interp.CONTRACTS[Cosmo_Conversions.dRperp_dtheta] = lambda self, zz, little_h=True: (E.prove_eq("perp_at_same_z", zz, z), X[bool(little_h)])[1]
    interp.CONTRACTS[Cosmo_Conversions.dRpara_df] = lambda self, zz, ghz=False, little_h=True: (E.prove_eq("para_at_same_z", zz, z), E.prove("para_in_Hz", ghz is False), Y[bool(little_h)])[2]
    for lh in (True, False):
        E.prove_eq(f"X2Y_lh{lh}", call(c.X2Y, z, little_h=lh), X[lh] * X[lh] * Y[lh])
        E.prove_eq(f"bl_to_kperp_lh{lh}", call(c.bl_to_kperp, z, little_h=lh) * X[lh] * C * (1 + z) / F21, 2 * np.pi)
        E.prove_eq(f"tau_to_kpara_lh{lh}", call(c.tau_to_kpara, z, little_h=lh) * Y[lh], 2 * np.pi)
    h = c.h
    E.prove_eq("X2Y_power_of_h", call(c.X2Y, z, little_h=True), call(c.X2Y, z, little_h=False) * h * h * h)
    for nm in ("bl_to_kperp", "tau_to_kpara"): E.prove_eq(nm + "_power_of_h", call(getattr(c, nm), z, little_h=True) * h, call(getattr(c, nm), z, little_h=False))
    for nm in ("X2Y", "bl_to_kperp", "tau_to_kpara"): E.prove_eq(nm + "_default", call(getattr(c, nm), z), call(getattr(c, nm), z, little_h=True))
@PROP.proof()
def parameters():
    """matter, curvature and dark energy fractions of a new cosmology are consistent"""
    from .sym import E, call, sreal, interp, z3, rv
    interp.CONTRACTS[conversions.LambdaCDM] = lambda **k: (E.covers.__setitem__('lcdm', k), None)[1]
    b, cc, L, M, H, K = [sreal(x) for x in ("b", "c", "L", "M", "H", "K")]; E.assume(M.e > 0, M.e <= 2, b.e >= 0, cc.e >= 0)
    o = call(Cosmo_Conversions, Om_L=L, Om_b=b, Om_c=cc, H0=H)
    E.prove_eq("Om_M_is_sum", o.Om_M, b + cc); E.prove_eq("Om_k_closes", o.Om_k + o.Om_M + o.Om_L, 1.0); E.prove_eq("h", o.h * 100.0, H); E.prove_eq("Om_b", o.Om_b, b); E.prove_eq("Om_c", o.Om_c, cc)
    o = call(Cosmo_Conversions, Om_L=L, Om_b=b, Om_c=cc, H0=H, Om_M=M, Om_k=K)
    E.prove_eq("Om_M_given", o.Om_M, M); E.prove_eq("Om_k_given", o.Om_k, K); E.prove_eq("Om_L_given", o.Om_L, L); E.prove_eq("H0_given", o.H0, H)
    d = o.Om_b + o.Om_c - M
    E.prove("given_matter_is_split", z3.And(d.e < rv(1e-4), d.e > -rv(1e-4)))
    p = call(o.get_params)
    for k, v in (("Om_L", L), ("Om_M", M), ("Om_k", K), ("H0", H)): E.prove_eq("get_params_" + k, p[k], v)

@PROP.case(quick=60, thorough=1500, rule="random cosmologies (open, closed, flat), redshifts 0.01-30 and frequencies, scalars and arrays: distances against an independent Simpson integration, round trips, powers of h")
def against_independent_integration(rng):
    kw = dict(Om_L=rng.uniform(.3, .9), Om_b=rng.uniform(.01, .1), Om_c=rng.uniform(.1, .4), H0=rng.uniform(50, 100))
    if rng.coin(.3): kw["Om_k"] = 0.0
    elif rng.coin(.5): kw["Om_k"] = rng.uniform(-.2, .2)
    if rng.coin(.3): kw["Om_M"] = rng.uniform(.1, .5)
    c = Cosmo_Conversions(**kw); M = kw.get("Om_M", kw["Om_b"] + kw["Om_c"]); K = kw.get("Om_k", 1 - kw["Om_L"] - M); L = kw["Om_L"]; h = kw["H0"] / 100
    require(np.isclose(c.Om_b + c.Om_c, M, atol=1e-4), "matter", f"Om_b+Om_c={c.Om_b+c.Om_c} for Om_M={M}")
    z = rng.uniform(.01, 30); Ez = lambda t: np.sqrt(M * (1 + t) ** 3 + K * (1 + t) ** 2 + L)
    t = np.linspace(0, z, 4001); w = np.ones(4001); w[1:-1:2] = 4; w[2:-1:2] = 2; I = float(np.sum(w / Ez(t)) * (t[1] - t[0]) / 3)
    x = np.sqrt(abs(K)); S = I if abs(K) < 1e-12 else (np.sinh(x * I) / x if K > 0 else np.sin(x * I) / x)
    ok = lambda a, b, tag: require(np.allclose(a, b, rtol=1e-5), tag, f"{a} != {b} at z={z}, {kw}")
    for lh in (True, False):
        DH = C / 1e3 / 100 / (1 if lh else h); Y = DH * (1 + z) ** 2 / Ez(z) / F21
        ok(c.DC(z, little_h=lh), DH * I, "DC"); ok(c.DM(z, little_h=lh), DH * S, "DM"); ok(c.DA(z, little_h=lh), DH * S / (1 + z), "DA"); ok(c.dRperp_dtheta(z, little_h=lh), DH * S, "dRperp")
        ok(c.dRpara_df(z, little_h=lh), Y, "dRpara"); ok(c.dRpara_df(z, ghz=True, little_h=lh), Y * 1e9, "dRpara_ghz"); ok(c.X2Y(z, little_h=lh), (DH * S) ** 2 * Y, "X2Y")
        ok(c.bl_to_kperp(z, little_h=lh), 2 * np.pi * F21 / (1 + z) / C / (DH * S), "bl_to_kperp"); ok(c.tau_to_kpara(z, little_h=lh), 2 * np.pi / Y, "tau_to_kpara")
    f = np.array([rng.uniform(40e6, 1.4e9) for _ in range(5)]); f0 = f.copy(); zz = c.f2z(f); z0 = zz.copy()
    ok(zz, F21 / f0 - 1, "f2z"); ok(c.z2f(zz), f0, "z2f_f2z"); ok(c.z2f(zz, ghz=True), f0 / 1e9, "z2f_ghz"); ok(c.f2z(f / 1e9, ghz=True), z0, "f2z_ghz")
    g = f / 1e9; g0 = g.copy(); c.f2z(g, ghz=True); require(np.array_equal(g, g0) and np.array_equal(f, f0) and np.array_equal(zz, z0), "inputs", "a conversion changed its input array")
    ok(c.z2f(c.f2z(150e6)), 150e6, "scalar")
    c2 = Cosmo_Conversions(**c.get_params()); require(c2 == c, "params", f"rebuilding from get_params changed {c.get_params()} to {c2.get_params()}")
    return f"z={z:.3f} Ok={K:.3f}"
