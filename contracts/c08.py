from .base import *
PROP = Prop("C08", "deductive verification (VCs generated from the source, loop summaries over windows, z3)",
            ["every window has at least 3 delays, ordered and centred as the package produces them"])
LEVEL = "proof"
NOTE = 'Unbounded proof (any number of windows, rows, polarizations, delays; even and odd delay counts) of the folded data, sample counts, covariance, statistics, window functions and of the frame. Values are treated as mathematical reals. The run-time contract cases (bounded) re-check concrete objects. Trusts the VC generator, its numpy model and z3.'
import numpy as np
from hera_pspec import grouping
from hera_pspec.uvpspec import UVPSpec

def setup(parity, cov=False, stats=False, wf=None, exact=False):
    from .sym import blank, Family, dim, ifun, nd, z3, E, mk
    u = blank(); d = u.__dict__
    S, N, P, K = dim("Nspws"), dim("Nblts"), dim("Npols"), dim("Nkperp")
    h = ifun("half", 1)                       # Ndlys = 2h or 2h+1
    D = (lambda s: 2 * h(s)) if parity == 0 else (lambda s: 2 * h(s) + 1)
    if parity == 0: E.assume(*[])
    f = {}
    f['data_array'] = Family("data", S, lambda s: (N, D(s), P), 'c')
    f['nsample_array'] = Family("nsample", S, lambda s: (N, P), 'f')
    f['integration_array'] = Family("integ", S, lambda s: (N, P), 'f')
    if cov:
        f['cov_array_real'] = Family("covr", S, lambda s: (N, D(s), D(s), P), 'f')
        f['cov_array_imag'] = Family("covi", S, lambda s: (N, D(s), D(s), P), 'f')
    if wf is not None:
        if exact: f['window_function_array'] = Family("wf", S, lambda s: (N, D(s), K, nkp(wf, P, ifun), P), 'f')
        else: f['window_function_array'] = Family("wf", S, lambda s: (N, D(s), D(s), P), 'f')
    for k, v in f.items(): d[k] = v.dict()
    if stats:
        f['st_a'], f['st_b'] = (Family("st" + x, S, lambda s: (N, D(s), P), 'f', pos=True) for x in "ab")
        from .sym import interp
        d['stats_array'] = interp.created({"a": f['st_a'].dict(), "b": f['st_b'].dict()})
    d.update(Nspws=nd(S), folded=False, exact_windows=exact)
    return u, f, (S, N, P, K), h, D
def nkp(wf, P, ifun):
    import z3
    return z3.Int("Nkpara_w")
def at(S, N, P, h, parity):
    """arbitrary window, row, polarization and positive delay offset t (1..) ; centre index = h"""
    from .sym import idx, E, z3
    s, n, p = idx("s", S), idx("n", N), idx("p", P)
    t = z3.Int("t"); E.assume(h(s) >= 1, t >= 1, t <= (h(s) - 1 if parity == 0 else h(s)))
    return s, n, p, t
def neg_idx(h, s, parity):
    """an index strictly below the centre"""
    from .sym import E, z3
    i = z3.Int("neg"); E.assume(h(s) >= 1, i >= 0, i < h(s)); return i
def half(a, b):
    return (a + b) * 0.5
def run(u):
    from .sym import call
    call(grouping.fold_spectra, u)

def mk_proofs(parity):
    tag = "even" if parity == 0 else "odd"
    def base():
        from .sym import E, call, idx, z3
        u, f, (S, N, P, K), h, D = setup(parity)
        s, n, p, t = at(S, N, P, h, parity); c = h(s); i = neg_idx(h, s, parity)
        E.reach("precondition")
        run(u)
        d = f['data_array']
        E.prove_eq("positive_delay_is_mean_of_pair", d.now(s, n, c + t, p), half(d.old(s, n, c + t, p), d.old(s, n, c - t, p)))
        E.prove_eq("zero_delay_unchanged", d.now(s, n, c, p), d.old(s, n, c, p))
        E.prove_eq("negative_delays_cleared", d.now(s, n, i, p), 0.0)
        E.prove_eq("samples_doubled", f['nsample_array'].now(s, n, p), 2.0 * f['nsample_array'].old(s, n, p))
        E.prove_eq("integration_unchanged", f['integration_array'].now(s, n, p), f['integration_array'].old(s, n, p))
        E.prove("marked_folded", u.folded is True)
    base.__name__ = f"fold_data_{tag}"
    def cov():
        from .sym import E, z3
        u, f, (S, N, P, K), h, D = setup(parity, cov=True)
        s, n, p, t = at(S, N, P, h, parity); c = h(s); i = neg_idx(h, s, parity); t2 = z3.Int("t2"); E.assume(t2 >= 1, t2 <= (h(s) - 1 if parity == 0 else h(s)))
        j = z3.Int("j"); E.assume(j >= 0, j < D(s))
        run(u)
        for nm in ("cov_array_real", "cov_array_imag"):
            a = f[nm]
            E.prove_eq(f"{nm}_quarter_sum", a.now(s, n, c + t, c + t2, p), 0.25 * (a.old(s, n, c + t, c + t2, p) + a.old(s, n, c + t, c - t2, p) + a.old(s, n, c - t, c + t2, p) + a.old(s, n, c - t, c - t2, p)))
            E.prove_eq(f"{nm}_negative_rows_cleared", a.now(s, n, i, j, p), 0.0)
            E.prove_eq(f"{nm}_negative_columns_cleared", a.now(s, n, j, i, p), 0.0)
    cov.__name__ = f"fold_covariance_{tag}"
    def stats():
        from .sym import E, z3, to_bool, cmp
        u, f, (S, N, P, K), h, D = setup(parity, stats=True)
        s, n, p, t = at(S, N, P, h, parity); c = h(s); i = neg_idx(h, s, parity)
        run(u)
        for nm in ("st_a", "st_b"):
            a = f[nm]; r = a.now(s, n, c + t, p); x, y = a.old(s, n, c + t, p), a.old(s, n, c - t, p)
            E.prove(f"{nm}_positive", to_bool(cmp('>', r, 0.0)))
            E.prove_eq(f"{nm}_inverse_quadrature", 1.0 / (r * r), 1.0 / (x * x) + 1.0 / (y * y))
            E.prove_eq(f"{nm}_zero_delay_unchanged", a.now(s, n, c, p), a.old(s, n, c, p))
        d = f['data_array']
        E.prove_eq("data_negative_delays_cleared", d.now(s, n, i, p), 0.0)
        E.prove_eq("data_zero_delay_unchanged", d.now(s, n, c, p), d.old(s, n, c, p))
        E.prove_eq("data_positive_delay_is_mean_of_pair", d.now(s, n, c + t, p), half(d.old(s, n, c + t, p), d.old(s, n, c - t, p)))
    stats.__name__ = f"fold_statistics_{tag}"
    def wf():
        from .sym import E, z3
        u, f, (S, N, P, K), h, D = setup(parity, wf=1)
        s, n, p, t = at(S, N, P, h, parity); c = h(s); i = neg_idx(h, s, parity); t2 = z3.Int("t2"); E.assume(t2 >= 1, t2 <= (h(s) - 1 if parity == 0 else h(s)))
        j = z3.Int("j"); E.assume(j >= 0, j < D(s))
        run(u)
        a = f['window_function_array']
        E.prove_eq("quarter_sum", a.now(s, n, c + t, c + t2, p), 0.25 * (a.old(s, n, c + t, c + t2, p) + a.old(s, n, c + t, c - t2, p) + a.old(s, n, c - t, c + t2, p) + a.old(s, n, c - t, c - t2, p)))
        E.prove_eq("negative_rows_cleared", a.now(s, n, i, j, p), 0.0)
        E.prove_eq("negative_columns_cleared", a.now(s, n, j, i, p), 0.0)
    wf.__name__ = f"fold_windows_{tag}"
    def wfx():
        from .sym import E, z3, idx
        u, f, (S, N, P, K), h, D = setup(parity, wf=1, exact=True)
        kp = z3.Int("Nkpara_w"); E.assume(kp >= 1)
        s, n, p, t = at(S, N, P, h, parity); c = h(s); i = neg_idx(h, s, parity); a_, b_ = idx("kperp", K), idx("kpara", kp)
        run(u)
        a = f['window_function_array']
        E.prove_eq("half_sum", a.now(s, n, c + t, a_, b_, p), half(a.old(s, n, c + t, a_, b_, p), a.old(s, n, c - t, a_, b_, p)))
        E.prove_eq("negative_rows_cleared", a.now(s, n, i, a_, b_, p), 0.0)
    wfx.__name__ = f"fold_exact_windows_{tag}"
    for f in (base, cov, stats, wf, wfx): PROP.proof()(f)
mk_proofs(0); mk_proofs(1)

@PROP.proof()
def refused_when_folded():
    from .sym import blank, E, raises
    u, f, dims, h, D = setup(0)
    u.__dict__['folded'] = True
    r, ex = raises(grouping.fold_spectra, u)
    E.prove("refused", isinstance(ex, AssertionError))
    from .sym import idx
    s, n, p = idx("s", dims[0]), idx("n", dims[1]), idx("p", dims[2])
    E.prove_eq("samples_untouched", f['nsample_array'].now(s, n, p), f['nsample_array'].old(s, n, p))

@PROP.case(quick=60, thorough=800, rule="random objects (1-3 windows, even and odd delay counts, with/without covariance, statistics, window functions): folded values against the pairwise formula, every other parameter untouched")
def fold_values(rng):
    from .build import build, snapshot, diff
    exact = rng.coin(0.3)
    u = build(rng, stats=rng.choice([(), ("a",), ("a", "b")]), cov=rng.coin(), wf=rng.coin(0.7) or exact, exact=exact, ndlys=rng.choice([None, 4, 5, 6, 7, 9]))
    o = snapshot(u)
    (u.fold_spectra if rng.coin() else lambda: grouping.fold_spectra(u))()
    def fold1(x, ax, f):
        x = np.moveaxis(x, ax, 0); n = x.shape[0]; c = n // 2; out = np.full_like(x, 0)
        out[c] = x[c]
        for t in range(1, (n - 1) // 2 + 1): out[c + t] = f(x[c + t], x[c - t])
        return np.moveaxis(out, 0, ax), c
    av = lambda a, b: 0.5 * (a + b)
    for s in range(u.Nspws):
        e, c = fold1(o['data_array'][s], 1, av)
        require(np.allclose(u.data_array[s], e, atol=1e-12), "data", f"window {s}, {e.shape[1]} delays")
        require(np.allclose(u.nsample_array[s], 2 * o['nsample_array'][s]), "nsample", f"window {s}")
        for nm in ("cov_array_real", "cov_array_imag"):
            if nm in o:
                x = o[nm][s]; e = 0 * x; n = x.shape[1]; c = n // 2; m = (n - 1) // 2
                for a in range(1, m + 1):
                    for b in range(1, m + 1):
                        e[:, c + a, c + b] = (x[:, c + a, c + b] + x[:, c + a, c - b] + x[:, c - a, c + b] + x[:, c - a, c - b]) / 4
                g = getattr(u, nm)[s]
                require(np.allclose(g[:, c + 1:, c + 1:], e[:, c + 1:, c + 1:]), nm, f"window {s}, {n} delays")
                require(not np.any(g[:, :c]) and not np.any(g[:, :, :c]), nm + "_negative", "")
        if 'window_function_array' in o:
            x = o['window_function_array'][s]; g = u.window_function_array[s]; n = x.shape[1]; c = n // 2; m = (n - 1) // 2
            if exact:
                for a in range(1, m + 1): require(np.allclose(g[:, c + a], (x[:, c + a] + x[:, c - a]) / 2), "exact_windows", "")
            else:
                for a in range(1, m + 1):
                    for b in range(1, m + 1): require(np.allclose(g[:, c + a, c + b], (x[:, c + a, c + b] + x[:, c + a, c - b] + x[:, c - a, c + b] + x[:, c - a, c - b]) / 4), "windows", f"{n} delays")
                require(not np.any(g[:, :, :c]), "windows_negative", "")
            require(not np.any(g[:, :c]), "windows_negative", "")
        for st in o.get('stats_array', {}):
            x = o['stats_array'][st][s].real; g = u.stats_array[st][s]; n = x.shape[1]; c = n // 2
            for a in range(1, (n - 1) // 2 + 1): require(np.allclose(g[:, c + a], (x[:, c + a] ** -2 + x[:, c - a] ** -2) ** -.5), "stats", f"{n} delays")
            require(np.allclose(g[:, c], x[:, c]), "stats_zero", "")
            require(not np.any(np.nan_to_num(g[:, :c])), "stats_negative", "statistics left at negative delays")
    require(u.folded is True, "flag", "")
    changed = set(diff(o, snapshot(u))) - {"data_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array", "stats_array", "folded"}
    require(not changed, "frame", f"folding changed {changed}")
    o2 = snapshot(u)
    try: u.fold_spectra()
    except Exception: pass
    else: raise Violation("refold", "folding twice was not refused")
    require(not diff(o2, snapshot(u)), "refold_changed", "a refused fold changed the object")
    k = (0, u.get_blpairs()[0], int(u.polpair_array[0])); n = o['data_array'][0].shape[1]
    require(u.get_data(k).shape[1] == len(u.get_dlys(0)) == (n - 1) // 2, "folded_access", "accessors return the positive delays")
    return f"{u.Nspws} windows, {[o['data_array'][s].shape for s in range(u.Nspws)]}"
