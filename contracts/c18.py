from .base import *
PROP = Prop("C18", "deductive verification (VCs generated from the source, z3) + run-time contracts on synthetic visibilities",
            ["sample counts are non-negative", "values are mathematical reals", "pyuvdata's polarization name tables"])
LEVEL = "proof"
NOTE = "Unbounded proof (arrays of any size and content) of the combination of data, flags and sample counts for the four Stokes parameters, both conventions and both orders, and of every refusal; which data set and polarization enter the combination is proved modulo pyuvdata's select. Concrete visibility objects (bounded run-time cases) re-check construct_pstokes and filter_dset_on_stokes_pol end to end. Trusts the VC generator, its numpy model and z3."
import numpy as np, copy, warnings
import pyuvdata
from hera_pspec import pstokes
# V_pI = (XX+YY)/2, V_pQ = (XX-YY)/2, V_pU = (XY+YX)/2, V_pV = (-iXY+iYX)/2  (documentation of construct_pstokes; XX=-5 YY=-6 XY=-7 YX=-8)
WGT = {1: {-5: 1, -6: 1}, 2: {-5: 1, -6: -1}, 3: {-7: 1, -8: 1}, 4: {-7: -1j, -8: 1j}}
NAME = {1: "pI", 2: "pQ", 3: "pU", 4: "pV"}; NUM = {-5: "xx", -6: "yy", -7: "xy", -8: "yx"}
def combine(st, swap, conv):
    def h():
        from .sym import E, call, sarr, dim, idx, A, ite, to_bool, cmp, z3
        from dv.core import to_real
        T, F = dim("Nblts"), dim("Nfreqs"); sh = (T, F, 1); i, j = idx("i", T), idx("j", F)
        d, f, n = [[sarr(f"{x}{q}", sh, k, **kw) for q in (0, 1)] for x, k, kw in (("d", 'c', {}), ("f", 'b', {}), ("n", 'f', dict(nonneg=True)))]
        a, b = sorted(WGT[st], reverse=not swap)
        for form in ("num", "str"):
            D, Fl, N = call(pstokes._combine_pol_arrays, *((a, b, st) if form == "num" else (NUM[a], NUM[b], NAME[st])), conv, list(d), list(f), list(n)); D, Fl, N = A(D), A(Fl), A(N)
            half = 0.5 if conv == "avg" else 1.0; ix = (i, j, 0)
            E.prove_eq(form + "_data", D.at(*ix), (d[0].at(*ix) * WGT[st][a] + d[1].at(*ix) * WGT[st][b]) * half)
            n0, n1 = n[0].at(*ix), n[1].at(*ix); ok = z3.And(n0.e > 0, n1.e > 0)
            E.prove_eq(form + "_flag", Fl.at(*ix), ite(z3.Or(to_bool(f[0].at(*ix)), to_bool(f[1].at(*ix)), z3.Not(ok)), True, False))
            E.prove(form + "_nsample", z3.If(ok, to_real(N.at(*ix)) * (n0.e + n1.e) == 4 * n0.e * n1.e, to_real(N.at(*ix)) == 0))
            for q in (0, 1):
                E.prove_eq(f"{form}_data{q}_kept", d[q].at(*ix), sarr(f"d{q}", sh, 'c').at(*ix)); E.prove_eq(f"{form}_flag{q}_kept", f[q].at(*ix), sarr(f"f{q}", sh, 'b').at(*ix)); E.prove_eq(f"{form}_nsample{q}_kept", n[q].at(*ix), sarr(f"n{q}", sh).at(*ix))
        D, Fl, N = call(pstokes._combine_pol_arrays, a, b, st, conv, None, list(f), None); E.prove("partial", D is None and N is None)
        E.prove_eq("flag_only", A(Fl).at(i, j, 0), ite(z3.Or(to_bool(f[0].at(i, j, 0)), to_bool(f[1].at(i, j, 0))), True, False))
    h.__name__ = f"combine_{NAME[st]}_{'swapped_' if swap else ''}{conv}"
    return h
for _s in (1, 2, 3, 4):
    for _w in (False, True):
        for _c in ("avg", "sum"): PROP.proof()(combine(_s, _w, _c))
@PROP.proof()
def combinations_refused():
    """every (Stokes, pol, pol) outside the table, every other convention, unequal shapes"""
    from .sym import E, call, raises, sarr, dim, mk
    T = dim("T"); d = [sarr("d0", (T,), 'c'), sarr("d1", (T,), 'c')]
    for st in (-8, -7, -6, -5, 0, 1, 2, 3, 4):
        for a in (-5, -6, -7, -8, 1):
            for b in (-5, -6, -7, -8, 2):
                if st in WGT and a in WGT[st] and b in WGT[st]: continue
                r, e = raises(pstokes._combine_pol_arrays, a, b, st, "avg", list(d)); E.prove(f"{st}_{a}_{b}", e is not None)
    r, e = raises(pstokes._combine_pol_arrays, -5, -6, 1, "mean", list(d)); E.prove("convention", isinstance(e, ValueError))
    U = dim("U"); E.assume(U != T); r, e = raises(pstokes._combine_pol_arrays, -5, -6, 1, "avg", [d[0], sarr("e", (U,), 'c')]); E.prove("shapes", isinstance(e, AssertionError))
    r, e = raises(pstokes._combine_pol_arrays, -5, -6, 1, "avg", [d[0]]); E.prove("length", isinstance(e, ValueError))

class FakeUVD(pyuvdata.UVData):
    """stand-in carrying only the attributes construct_pstokes reads; select is recorded"""
    def __init__(s, **k): s.__dict__.update(k)
    for _n in ("spw_array", "freq_array", "time_array", "baseline_array", "polarization_array", "Npols", "telescope", "history"):
        exec(f"{_n} = property(lambda s: s.__dict__['{_n}'], lambda s, v: s.__dict__.__setitem__('{_n}', v))")
    def __setattr__(s, n, v): s.__dict__[n] = v
class FakeTel:
    def get_x_orientation_from_feeds(s): return None
def sources(mismatch):
    def h():
        """XX/XY always comes from the first data set and YY/YX from the second, whatever order their polarizations are in; incompatible axes are refused"""
        from .sym import E, call, raises, sarr, dim, idx, interp
        F, T = dim("F"), dim("T"); fr, ti, bl = sarr("freq", (F,)), sarr("time", (T,)), sarr("bl", (T,), 'i'); log = []
        j, k = idx("j", F), idx("k", T)
        fr2, ti2, bl2 = fr, ti, bl
        if mismatch == "frequencies": fr2 = sarr("freq2", (F,)); E.assume(fr.at(j).e != fr2.at(j).e)
        if mismatch == "times": ti2 = sarr("time2", (T,)); E.assume(ti.at(k).e != ti2.at(k).e)
        if mismatch == "baselines": bl2 = sarr("bl2", (T,), 'i'); E.assume(bl.at(k).e != bl2.at(k).e)
        pols = (-5, -6, -7, -8)
        def sel(o, polarizations=None, inplace=True):
            E.prove("copy_selected", inplace is False); log.append((o.tag, int(polarizations))); return (o.tag, int(polarizations))
        interp.CONTRACTS[pyuvdata.UVData.select] = sel
        def comb(uvd1, uvd2, pol1, pol2, pstokes=None, x_orientation=None):
            log.append((uvd1, uvd2, pol1, pol2, pstokes)); r = FakeUVD(); r.history = ""; return r
        interp.CONTRACTS[pstokes._combine_pol] = comb
        for st in (1, 2, 3, 4):
            p1, p2 = {1: (-5, -6), 2: (-5, -6), 3: (-7, -8), 4: (-7, -8)}[st]
            for name in (st, NAME[st]):
                for perm in (pols, pols[::-1]):
                    u = [FakeUVD(tag=t, spw_array=0, freq_array=f, time_array=x, baseline_array=b, polarization_array=np.array(perm), Npols=4, telescope=FakeTel(), history="") for t, f, x, b in ((1, fr, ti, bl), (2, fr2, ti2, bl2))]
                    for o in u: interp.created(o)
                    del log[:]
                    r, e = raises(pstokes.construct_pstokes, u[0], u[1], pstokes=name, run_check=False)
                    if mismatch: E.prove(f"refused_{name}", isinstance(e, ValueError) and not log); continue
                    E.prove(f"sources_{name}", e is None and sorted(log[:2]) == [(1, p1), (2, p2)] and log[2] == ((1, p1), (2, p2), p1, p2, st) and len(log) == 3)
                    for miss in (0, 1):
                        v = [FakeUVD(**o.__dict__) for o in u]; v[miss].polarization_array = np.array([p for p in pols if p != (p1, p2)[miss]]); v[miss].Npols = 3
                        for o in v: interp.created(o)
                        r, e = raises(pstokes.construct_pstokes, v[0], v[1], pstokes=name, run_check=False); E.prove(f"missing_{name}_{miss}", isinstance(e, AssertionError))
    h.__name__ = "sources" + (f"_{mismatch}_differ" if mismatch else "")
    return h
for _m in (None, "frequencies", "times", "baselines"): PROP.proof()(sources(_m))

@PROP.case(quick=30, thorough=300)
def concrete_visibilities(rng):
    """synthetic visibilities (1-3 baselines, 1-4 times, 2-6 channels), each Stokes parameter, polarization orders, flags, zero sample counts, both conventions"""
    from . import uvd
    g = rng.np(); st = rng.choice([1, 2, 3, 4]); bls = rng.sample([(0, 1), (1, 2), (0, 2), (0, 0)], rng.randint(1, 3)); conv = rng.choice([None, "avg", "sum"])
    pols = rng.sample([-5, -6, -7, -8], 4); kw = dict(bls=bls, Nt=rng.randint(1, 4), Nf=rng.randint(2, 6), flags=0.2, pol_convention=conv)
    how = rng.choice(["same", "single", "multi"]); p1, p2 = {1: (-5, -6), 2: (-5, -6), 3: (-7, -8), 4: (-7, -8)}[st]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = uvd.make(rng, pols=[p1] if how == "single" else pols, **kw); b = a if how == "same" else uvd.make(rng, pols=[p2] if how == "single" else pols[::-1], **kw)
        for u in (a, b):
            if rng.coin(0.4): u.nsample_array[g.random(u.nsample_array.shape) < 0.15] = 0
        arg = rng.choice([st, NAME[st]]); a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
        S = pstokes.construct_pstokes(a, b, pstokes=arg)
    ia, ib = list(a0.polarization_array).index(p1), list(b0.polarization_array).index(p2)
    require(list(S.polarization_array) == [st], "label", f"labelled {S.polarization_array}")
    get = lambda u, x, i: getattr(u, x)[..., i]
    E = (WGT[st][p1] * get(a0, "data_array", ia) + WGT[st][p2] * get(b0, "data_array", ib)) * (1.0 if conv == "sum" else 0.5)
    require(np.allclose(S.data_array[..., 0], E), "data", "wrong combination of visibilities")
    na, nb = get(a0, "nsample_array", ia), get(b0, "nsample_array", ib); ok = (na > 0) & (nb > 0)
    require(np.array_equal(S.flag_array[..., 0], get(a0, "flag_array", ia) | get(b0, "flag_array", ib) | ~ok), "flags", "flags are not the union")
    require(np.allclose(S.nsample_array[..., 0][ok], 4 * (na * nb / (na + nb + 1e-300))[ok]) and np.all(S.nsample_array[..., 0][~ok] == 0), "nsample", "wrong sample counts")
    for x in ("time_array", "ant_1_array", "ant_2_array", "freq_array", "lst_array"): require(np.array_equal(getattr(S, x), getattr(a0, x)), "axes", x)
    for u, v in ((a, a0), (b, b0)):
        for x in ("data_array", "flag_array", "nsample_array", "polarization_array"): require(np.array_equal(getattr(u, x), getattr(v, x)), "inputs", f"input {x} modified")
    return f"{NAME[st]} {how} {conv}"
@PROP.case(quick=15, thorough=100)
def concrete_filter(rng):
    """lists of single-polarization visibilities in any order, with and without the needed ones"""
    from . import uvd
    pols = rng.sample([-5, -6, -7, -8], rng.randint(1, 4)); ds = [uvd.make(rng, pols=[p], Nt=1, Nf=2) for p in pols]; st = rng.choice([1, 2, 3, 4]); need = list(WGT[st])
    try: r = pstokes.filter_dset_on_stokes_pol(ds, rng.choice([st, NAME[st]]))
    except AssertionError:
        require(not all(p in pols for p in need), "refused", f"{pols} -> {NAME[st]} refused"); return
    require(all(p in pols for p in need), "substituted", f"{NAME[st]} built from {pols}")
    require([d.polarization_array[0] for d in r] == need and all(any(d is x for x in ds) for d in r), "chosen", f"{pols} {NAME[st]}")
@PROP.case(quick=8, thorough=40)
def concrete_refusals(rng):
    """visibilities that differ in frequencies, times or baselines, or lack a polarization, are refused"""
    from . import uvd
    kw = dict(Nt=2, Nf=3); st = rng.choice([1, 2, 3, 4]); what = rng.choice(["df", "jd", "bls", "pol"]); need = list(WGT[st])
    a = uvd.make(rng, pols=[need[0]], **kw); k2 = dict(kw)
    if what == "df": k2["fmin"] = 120.01e6
    if what == "jd": k2["jd"] = 2458116.3 + 1e-4
    if what == "bls": k2["bls"] = ((1, 2), (0, 1))
    b = uvd.make(rng, pols=[need[1]] if what != "pol" else [rng.choice([p for p in NUM if p != need[1]])], **k2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: pstokes.construct_pstokes(a, b, pstokes=st)
        except (ValueError, AssertionError): return what
    require(False, "accepted", f"{what} mismatch accepted")
@PROP.case(quick=2, thorough=2)
def concrete_paths(rng):
    """file names instead of objects: read with the given selection, then combined (the reader is replaced by a stand-in)"""
    from . import uvd
    a, b = uvd.make(rng, pols=[-5], Nt=1, Nf=2), uvd.make(rng, pols=[-6], Nt=1, Nf=2); old = pstokes.miriad2pyuvdata; seen = []
    pstokes.miriad2pyuvdata = lambda f, **k: seen.append((f, k)) or {"a": a, "b": b}[f]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S = pstokes.construct_pstokes("a", "b", pstokes="pQ", bls=[(0, 1)])
    finally: pstokes.miriad2pyuvdata = old
    require([s[0] for s in seen] == ["a", "b"] and all(s[1]["bls"] == [(0, 1)] for s in seen), "read", str(seen)); require(np.allclose(S.data_array, 0.5 * (a.data_array - b.data_array)), "data", "")
