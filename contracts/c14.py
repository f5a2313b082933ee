from .base import *
PROP = Prop("C14", "deductive verification (VCs generated from the source, canonical sums, z3) with run-time contract cases over histories",
            ["window functions (uvtools.dspec.gen_window, dayenu_mat_inv), FFTs and matrix inverses are uninterpreted functions (trusted)", "values are mathematical reals in the proofs", "flagged means flagged at every time: a channel flagged at some times only is kept for all of them (documented)"])
LEVEL = "proof"
NOTE = "Unbounded proofs (any numbers of channels, delays, times and contents) of q_hat, R, Y, get_Q_alt and of every setter followed by a new R; the FFT shortcut is proved up to the (uninterpreted) transform and compared with the quadratic form in run-time cases, as are random histories of setters."
import copy, warnings, types
import numpy as np
from uvtools import dspec
from hera_pspec import pspecdata, utils, PSpecData
# ------------------------------------------------------------------ deductive proofs
KEY = (0, (1, 2, "xx"))
def blankds(interp, **kw):
    d = interp.created(object.__new__(PSpecData)); d.__dict__.update(filter_extension=(0, 0), data_weighting="identity", taper="none", symmetric_taper=True, labels=["a", "b"], primary_beam=None, r_params=interp.created({}), _identity_pol=None)
    for c in ("_C", "_I", "_iC", "_Y", "_R", "_identity_G", "_identity_H", "_identity_Y"): d.__dict__[c] = interp.created({})
    d.__dict__.update(kw); return d
def quadratic(mode, lists=1):
    def h():
        from .sym import E, interp, call, z3, zi, as_int, A, mk, sarr, dim, nd
        n, m, T = dim("Nf", 1), dim("Nd", 1), dim("Nt"); m = n if mode == "fft" else m; ds = blankds(interp, spw_Nfreqs=nd(n), spw_Ndlys=nd(m)); keys = [[(k, (1 + j, 2 + j, "xx")) for j in range(lists)] for k in (0, 1)]
        Rm = {k: sarr(f"R{i}", (n, n), 'c') for i, k in enumerate(sum(keys, []))}; X = {k: sarr(f"x{i}", (n, T), 'c') for i, k in enumerate(sum(keys, []))}
        interp.CONTRACTS[PSpecData.R] = lambda self, k: Rm[k]; interp.CONTRACTS[PSpecData.x] = lambda self, k, include_extension=False: X[k]
        Q = sarr("Q", (m, n, n), 'c'); interp.CONTRACTS[PSpecData.get_Q_alt_tensor] = lambda self, **k: (E.prove("plain_response", not k), Q)[1]
        from dv.arrays import getitem as gi
        interp.CONTRACTS[PSpecData.get_Q_alt] = lambda self, i, **k: gi(Q, i); dl, B = sarr("delays", (m,)), sarr("beam", (n, n)); interp.CONTRACTS[PSpecData.delays] = lambda self: dl; med = z3.Real("median_step"); interp.CONTRACTS[np.median] = lambda a: (E.prove("delay_steps", True), mk('f', med))[1]; pols = []
        interp.CONTRACTS[PSpecData.get_integral_beam] = lambda self, pol=False: (pols.append(pol), B)[1]
        arg = [k if lists > 1 else k[0] for k in keys]; q = A(call(ds.q_hat, *arg, allow_fft=mode == "fft", exact_norm=mode == "exact", pol="xx")); a, t = E.fresh('i', 'a'), E.fresh('i', 't'); E.assume(a >= 0, a < m, t >= 0, t < T) if False else [E.assume(c) for c in (a >= 0, a < m, t >= 0, t < T)]
        E.prove("shape", z3.And(zi(as_int(q.shape_[0])) == m, zi(as_int(q.shape_[1])) == T))
        def Rx(side, i): r = [E.sum(n, lambda j: Rm[k].at(i, j) * X[k].at(j, t), 'c') for k in keys[side]]; return sum(r[1:], r[0])
        if mode == "fft":
            F = [A(call(np.fft.fft, sum([call(np.dot, Rm[k], X[k]) for k in keys[s]][1:], call(np.dot, Rm[keys[s][0]], X[keys[s][0]])), axis=0)) for s in (0, 1)]; b = z3.If(a < n / 2, a + n - n / 2, a - n / 2)
            E.prove_eq("value", q.at(a, t), 0.5 * F[0].at(b, t).conj() * F[1].at(b, t)); return
        scale = (lambda i, j: Q.at(a, i, j)) if mode == "matrix" else (lambda i, j: mk('f', med) * 1e-9 * Q.at(a, i, j) * B.at(i, j))
        E.prove_eq("value", q.at(a, t), 0.5 * E.sum(n, lambda i: Rx(0, i).conj() * E.sum(n, lambda j: scale(i, j) * Rx(1, j), 'c'), 'c'))
        if mode == "exact": E.prove("polarization", pols == ["xx"])
    h.__name__ = f"q_hat_{mode}" + f"_{lists}_baselines" * (lists > 1); return h
for _m in ("matrix", "exact", "fft"):
    for _l in (1, 2): PROP.proof(budget=60)(quadratic(_m, _l))
@PROP.proof()
def response():
    """get_Q_alt: the outer product of the mode's phasor with its conjugate"""
    from .sym import E, interp, call, raises, z3, zi, as_int, A, mk, dim, nd
    n, m = dim("Nf", 1), dim("Nd", 1); k, i, j = (E.fresh('i', x) for x in "kij"); [E.assume(c) for c in (i >= 0, i < n, j >= 0, j < n)]
    r, ex = raises(utils.get_Q_alt, nd(k), nd(m), nd(n), allow_fft=False)
    if ex is not None: E.prove("refused_only_outside", z3.Or(k < 0, k >= m)); return
    E.prove("inside", z3.And(k >= 0, k < m)); r = A(r); even = E.branch(m % 2 == 0); start = -nd(m) / 2 if even else -(nd(m) - 1) / 2
    ph = lambda f: call(np.exp, -2j * np.pi * ((start + nd(k)) * (nd(f) - 0.0)) / nd(m))
    E.prove_eq("value", r.at(i, j), ph(i).conj() * ph(j))
def weights(sym, taper, mode):
    """R is taper, flags and covariance as stated; a channel flagged at every time has zero column"""
    def h():
        from .sym import E, interp, call, z3, zi, as_int, A, mk, sarr, dim, nd
        n, T = dim("Nf", 1), dim("Nt", 1); ds = blankds(interp, spw_Nfreqs=nd(n), spw_Ndlys=nd(n), symmetric_taper=sym, taper="bh" if taper else "none", data_weighting=mode); y = sarr("flagged", (n,), 'b'); K, w = sarr("K", (n, n), 'c'), sarr("window", (n,))
        Y = A(call(np.diag, interp.call(np.where, [y, 0.0, 1.0], {}))); interp.CONTRACTS[PSpecData.Y] = lambda self, k: Y; interp.CONTRACTS[PSpecData.iC] = lambda self, k, **kw: K; asked = []
        q0 = z3.Int("q!0"); E.fact(z3.ForAll([q0], w.at(q0).e >= 0, patterns=[w.at(q0).e])); interp.CONTRACTS[dspec.gen_window] = lambda name, N, **kw: (E.prove("window", name == "bh"), w)[1]
        R = A(call(ds.R, KEY)); i, j = E.fresh('i', 'i'), E.fresh('i', 'j'); [E.assume(c) for c in (i >= 0, i < n, j >= 0, j < n)]
        from dv.core import to_bool
        fi, fj = to_bool(y.at(i)), to_bool(y.at(j)); k = K.at(i, j) if mode == "iC" else mk('f', z3.If(i == j, z3.RealVal(1), z3.RealVal(0))); zero = lambda v: z3.And(*[c == 0 for c in ((v.e, v.im) if v.im is not None else (v.e,))])
        E.prove("flagged", z3.Implies(z3.Or(fi, fj), zero(R.at(i, j)))); E.assume(z3.Not(fi)); E.assume(z3.Not(fj)); t = lambda v: (call(np.sqrt, v.at(i)) * call(np.sqrt, v.at(j)) if sym else v.at(i)) if taper else 1.0
        E.prove_eq("value", R.at(i, j), t(w) * k)
        E.prove("remembered", call(ds.R, KEY) is ds._R[KEY + (mode, "bh" if taper else "none")])
    h.__name__ = f"R_{mode}" + "_tapered" * taper + ("_symmetric" if sym else ""); return h
for _s in (True, False):
    for _t in (True, False):
        for _m in ("identity", "iC"): PROP.proof(budget=60)(weights(_s, _t, _m))
@PROP.proof()
def flag_weights():
    from .sym import E, interp, raises, z3, zi, A, mk, sarr, dim, nd
    from dv.core import to_bool
    n, T = dim("Nf", 1), dim("Nt", 1); f = sarr("flag", (n, T), 'b'); ds = blankds(interp, spw_Nfreqs=nd(n)); w = A(interp.call(np.where, [f, 0.0, 1.0], {})); interp.CONTRACTS[PSpecData.w] = lambda self, k, **kw: w
    Y, ex = raises(ds.Y, KEY)
    if ex is not None: E.prove("refused", False); return
    Y = A(Y); i, j, t = (E.fresh('i', x) for x in "ijt"); [E.assume(c) for c in (i >= 0, i < n, j >= 0, j < n, t >= 0, t < T)]; E.prove("off_diagonal", z3.Implies(i != j, Y.at(i, j).e == 0)); E.prove("used_if_any_time", z3.Implies(z3.Not(to_bool(f.at(i, t))), Y.at(i, i).e == 1)); q = z3.Int("q!0")
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T), to_bool(f.at(i, q))))); E.prove("zero_if_flagged_always", Y.at(i, i).e == 0)
SETTERS = dict(taper=lambda d, v: d.set_taper("other"), weighting=lambda d, v: d.set_weighting("iC"), window=lambda d, v: d.set_spw(v), symmetric_taper=lambda d, v: d.set_symmetric_taper(False), filter_extension=lambda d, v: d.set_filter_extension((1, 2)), one_sided_extension=lambda d, v: d.set_filter_extension((2, 0)))
def history(name, start):
    """whatever was computed (in any way of tapering and weighting) before a setter is called, what is computed after it is what a new object would compute"""
    def h():
        from .sym import E, interp, call, z3, zi, as_int, A, mk, sarr, dim, nd
        N = 20; flagf, datf = sarr("flags", (N,), 'b'), sarr("data", (N, N), 'c'); interp.CONTRACTS[dspec.gen_window] = lambda nm, n, **kw: win[nm, int(n)]
        win = {(nm, n): sarr(f"{nm}{n}", (n,)) for nm in ("bh", "other") for n in range(3, 9)}; from dv.arrays import getitem as gi; q0 = z3.Int("q!0")
        for w in win.values(): E.fact(z3.ForAll([q0], w.at(q0).e >= 0, patterns=[w.at(q0).e]))
        def weights_(self, k, include_extension=False): s = slice(*call(self.get_spw, include_extension=include_extension)); v = A(interp.call(np.where, [flagf, 0.0, 1.0], {})); return gi(v, (s, None))
        def model(self, k, model="empirical", time_index=None, **kw): s = slice(*call(self.get_spw)); return gi(datf, (s, s))
        interp.CONTRACTS[PSpecData.w] = weights_; interp.CONTRACTS[PSpecData.C_model] = model; interp.CONTRACTS[np.linalg.cond] = lambda c: 1.0; interp.CONTRACTS[np.linalg.inv] = lambda c: c
        from hera_pspec.pspecdata import raise_warning
        interp.CONTRACTS[raise_warning] = lambda *a, **k: None
        opts = dict(weighting=("identity", "iC"), taper=("none", "bh", "other"), spw=((5, 8), (6, 9), (5, 9))); mkds = lambda: blankds(interp, spw_range=(5, 8), spw_Nfreqs=3, spw_Ndlys=3, Nfreqs=N, **start)
        ds = mkds()
        for wt in opts["weighting"]:        # fill the caches for every way of weighting and tapering
            for tp in opts["taper"]: call(ds.set_weighting, wt); call(ds.set_taper, tp); call(ds.R, KEY)
        for k, v in start.items():
            if k in ("taper", "data_weighting"): ds.__dict__[k] = v
        for v in opts["spw"][1:] if name == "window" else (None,):
            call(SETTER, ds, v)
            for wt in opts["weighting"]:
                for tp in opts["taper"]:
                    call(ds.set_weighting, wt); call(ds.set_taper, tp); R = A(call(ds.R, KEY)); new = blankds(interp, spw_range=ds.spw_range, spw_Nfreqs=ds.spw_Nfreqs, spw_Ndlys=ds.spw_Ndlys, Nfreqs=N, data_weighting=wt, taper=tp, symmetric_taper=ds.symmetric_taper, filter_extension=ds.filter_extension); W = A(call(new.R, KEY))
                    E.prove(f"{v}.{wt}.{tp}.shape", [int(x) for x in R.shape_] == [int(x) for x in W.shape_])
                    for i in range(int(W.shape_[0])):
                        for j in range(int(W.shape_[1])): E.prove_eq(f"{v}.{wt}.{tp}.value", R.at(i, j), W.at(i, j))
    SETTER = SETTERS[name]; h.__name__ = f"history_{name}" + ("_asymmetric" if not start.get("symmetric_taper", True) else ""); return h
for _n in SETTERS:
    for _s in ({}, dict(symmetric_taper=False)): PROP.proof(budget=60, bounded="windows of 3-4 channels; any data, flags and window functions")(history(_n, _s))
# ------------------------------------------------------------------ run-time contract cases
TAPERS = ["none", "bh", "hann", "tukey", "bh7"]
class Beam:
    """any beam response"""
    def __init__(s, g, n): s.r = {p: g.random((n, 12)) + .1 for p in ("xx", "yy", False)}; s.o = {p: g.random(n) + .5 for p in s.r}
    def beam_normalized_response(s, pol, nu): i = np.round((nu - 120e6) / 100e3).astype(int); return s.r[pol][i], s.o[pol][i], 1
def sets(rng, pols=(-5,), n=2, flags=None):
    from .uvd import make
    Nt, Nf = rng.randrange(2, 7), rng.randrange(6, 15); us = [make(rng, bls=[(0, 1), (1, 2), (0, 2)], Nt=Nt, Nf=Nf, pols=pols) for _ in range(n)]
    for u in us:
        g = rng.np(); sh = u.flag_array.shape; F = g.random(sh) < rng.choice([0, .1, .4])
        for bl in set(u.baseline_array.tolist()): F[u.baseline_array == bl] |= g.random((1, Nf, sh[2])) < rng.choice([0, .3])
        u.flag_array[:] = F
    return us, Nt, Nf
def reference(us, key1, key2, lo, hi, nd, weighting, taper, sym, exact=None):
    n = hi - lo; f = np.arange(n); w = np.ones(n) if taper == "none" else dspec.gen_window(taper, n)
    def Rx(key):
        tot = 0
        for s, bl in key:
            x = us[s].get_data(bl).T[lo:hi]; y = (~us[s].get_flags(bl)).T[lo:hi].astype(float); Y = y.max(1); K = np.eye(n)
            if weighting == "iC": C = utils.cov(x, y); K = np.linalg.pinv(C) if np.linalg.cond(C) >= 1e9 else np.linalg.inv(C)
            W = np.sqrt(np.where(w > 0, w, 0)); z = Y[:, None] * x; tot = tot + (W[:, None] * (Y[:, None] * (K @ (W[:, None] * z))) if sym else (W**2)[:, None] * (Y[:, None] * (K @ z)))
        return tot
    a, b = Rx(key1), Rx(key2); q = []
    for k in range(nd):
        m = np.exp(-2j * np.pi * (k - nd // 2) * f / nd); Q = np.outer(m.conj(), m)
        if exact is not None: Q = Q * exact
        q.append(.5 * np.einsum("it,ij,jt->t", a.conj(), Q, b))
    return np.array(q)
@PROP.case(quick=200, thorough=5000)
def estimates(rng):
    """q_hat of two data sets (any flags, window, number of delays, taper, weighting, one baseline or several, with the FFT or without, with exact normalisation) against the quadratic form, and with other data in the channels flagged at every time"""
    us, Nt, Nf = sets(rng); lo = rng.randrange(0, Nf - 2); hi = rng.randrange(lo + 2, Nf + 1); n = hi - lo; nd = rng.choice([None, n, rng.randrange(1, n + 1)]); wt = rng.choice(["identity", "identity", "iC"]); tp = rng.choice(TAPERS); sym = rng.coin(.6); fft = rng.coin(.4); bls = [(0, 1, "xx"), (1, 2, "xx"), (0, 2, "xx")]; many = rng.choice([1, 1, 2]); keys = [[(s, b) for b in rng.sample(bls, many)] for s in (0, 1)]; ex = rng.coin(.3) and not fft; g = rng.np(); beam = Beam(g, Nf) if ex else None
    def go(us):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); ds = PSpecData(dsets=us, wgts=[None, None], beam=beam); ds.set_spw((lo, hi), ndlys=nd); ds.set_weighting(wt); ds.set_taper(tp); ds.set_symmetric_taper(sym)
            return ds, ds.q_hat(*[[(s, *b) for s, b in k] if many > 1 else (k[0][0], *k[0][1]) for k in keys], allow_fft=fft, exact_norm=ex, pol="xx" if ex else False)
    before = [u.data_array.copy() for u in us]; ds, q = go(us); require(all(np.array_equal(a, u.data_array) for a, u in zip(before, us)), "data", "the data were changed"); m = nd or n; E_ = None
    if ex:
        r, o, _ = beam.beam_normalized_response("xx", us[0].freq_array.ravel()[lo:hi]); B = r / o[:, None]; ib = np.pi / 3 * B @ B.T
        if m < 2: return "one delay"
        E_ = np.median(np.diff(ds.delays())) * 1e-9 * ib
    want = reference(us, *keys, lo, hi, m, wt, tp, sym, E_); tol = 1e-6 if wt == "iC" else 1e-9; what = lambda: f"{wt}, taper {tp}{' symmetric' if sym else ''}, window {lo, hi}, {m} delays, baselines {keys}, {'FFT' if fft else 'matrix'}{' exact' if ex else ''}"
    require(q.shape == (m, Nt) and np.allclose(q, want, rtol=tol, atol=tol * (1e-30 + np.max(np.abs(want)))), "value", lambda: f"q_hat ({what()}) is {q[:, 0]}, the quadratic form {want[:, 0]}")
    vs = [copy.deepcopy(u) for u in us]
    for v in vs:
        for bl in bls:
            i = np.arange(v.Nblts)[v.antpair2ind(bl[:2], ordered=False)]; F = v.flag_array[i, :, 0].all(0); v.data_array[np.ix_(i, np.where(F)[0], [0])] = rng.choice([50., -3j, 0])
    q2 = go(vs)[1]; require(np.allclose(q2, q, rtol=tol, atol=tol * (1e-30 + np.max(np.abs(q)))), "flagged", lambda: f"q_hat ({what()}) changed with the data of flagged channels"); return f"{wt} {many} {'fft' if fft else ''}"
@PROP.case(quick=300, thorough=5000)
def histories(rng):
    """any order of set_spw, set_Ndlys, set_taper, set_weighting, set_symmetric_taper, set_filter_extension, set_r_param, flag broadcasting, conversion to mK and of estimates between them: the next estimate is that of a new object with the final settings and data"""
    us, Nt, Nf = sets(rng)
    if Nt > 3 and rng.coin(.7):        # one integration apart, for trim_dset_lsts
        us[0].select(times=np.unique(us[0].time_array)[:-1]); us[1].select(times=np.unique(us[1].time_array)[1:]); Nt -= 1
    keys = [(0, 0, 1, "xx"), (1, 1, 2, "xx")]; st = dict(spw=(0, Nf), nd=None, taper="none", wt="identity", sym=True, ext=(0, 0)); rp = {}; log = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore"); ds = PSpecData(dsets=us, wgts=[None, None])
        def est(d):
            r = []
            try:
                for a, b in (keys, keys[::-1]): r += [d.q_hat(a, b), d.get_Q_alt(0), d.R(a), d.Y(a), np.array(d.delays())]
            except Exception as e: return type(e).__name__
            return r
        if rng.coin(.4): ds.set_weighting(rng.choice(["iC", "iC", "dayenu"])); log.append(ds.data_weighting); log.append("estimate"); est(ds)
        for _ in range(rng.randrange(1, 9)):
            op = rng.choice(["spw", "spw", "nd", "taper", "wt", "sym", "ext", "r", "flags", "mK", "trim", "add", "rephase", "estimate", "estimate"]); log.append(op)
            if op == "spw": lo = rng.randrange(0, Nf - 3); hi = rng.choice([lo + 3, rng.randrange(lo + 3, Nf + 1)]); hi = min(hi, Nf); st["nd"] = rng.choice([None, hi - lo - 1]); ds.set_filter_extension((0, 0)); ds.set_spw((lo, hi), ndlys=st["nd"]); st["spw"] = (lo, hi); st["ext"] = (0, 0)
            elif op == "nd": st["nd"] = rng.choice([None, 2, 3]); ds.set_Ndlys(st["nd"])
            elif op == "taper": ds.set_taper(rng.choice(TAPERS))
            elif op == "wt": ds.set_weighting(rng.choice(["identity", "iC", "dayenu"]))
            elif op == "sym":
                try: ds.set_symmetric_taper(rng.coin(.5))
                except ValueError: require(any(ds.filter_extension), "sym_refused", "symmetric taper refused without extension")
            elif op == "ext": ds.set_filter_extension(rng.choice([(0, 0), (1, 1), (2, 0), (0, 1)]))
            elif op == "r":
                w0 = ds.data_weighting; ds.set_weighting("dayenu")
                for k in keys: v = dict(filter_centers=[0.0], filter_half_widths=[rng.choice([1e-7, 4e-7])], filter_factors=[rng.choice([1e-3, 1e-9])]); ds.set_r_param(k, v); rp[k] = v
                ds.set_weighting(w0)
            elif op == "flags": ds.broadcast_dset_flags(spw_ranges=[st["spw"]], time_thresh=rng.choice([.2, .6])); nd_, ex_ = ds.spw_Ndlys, ds.filter_extension
            elif op == "mK":
                ds.Jy_to_mK(beam=mk_beam())
            elif op == "add":
                if len(ds.dsets) < 3: ds.add([copy.deepcopy(us[0])], [None])
            elif op == "rephase":
                try: ds.rephase_to_dset(rng.randrange(2))
                except (AssertionError, ValueError): log[-1] += " refused"
            elif op == "trim":
                if "mK" not in log: ds.trim_dset_lsts()
            else: est(ds)
        got = est(ds); new = PSpecData(dsets=us, wgts=[None, None]); new.set_spw(tuple(ds.spw_range), ndlys=ds.spw_Ndlys); new.set_taper(ds.taper); new.set_symmetric_taper(ds.symmetric_taper) if not any(ds.filter_extension) else setattr(new, "symmetric_taper", ds.symmetric_taper); new.filter_extension = ds.filter_extension; new.set_weighting("dayenu")
        for k, v in rp.items(): new.set_r_param(k, v)
        new.set_weighting(ds.data_weighting); want = est(new)
    ok = got == want if isinstance(got, str) or isinstance(want, str) else all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12 * (1e-300 + np.max(np.abs(b), initial=0)), equal_nan=True) for a, b in zip(got, want))
    require(ok, "stale", lambda: f"after {log} ({ds.data_weighting}, {ds.taper}, window {ds.spw_range}, {ds.spw_Ndlys} delays, extension {ds.filter_extension}, symmetric {ds.symmetric_taper}): {got if isinstance(got, str) else [np.ravel(x)[:2] for x in got[:3]]}, a new object {want if isinstance(want, str) else [np.ravel(x)[:2] for x in want[:3]]}")
    return ds.data_weighting + (" refused" if isinstance(got, str) else "")
def mk_beam():
    from hera_pspec.pspecbeam import PSpecBeamGauss
    return PSpecBeamGauss(.3, np.linspace(100e6, 200e6, 11))
