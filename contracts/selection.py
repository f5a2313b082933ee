"""What selecting must do, stated on snapshots of UVPSpec attributes (oracle shared by the selection, reading and matching contracts)."""
import numpy as np
from hera_pspec import utils
from hera_pspec import uvpspec_utils as uu
from .build import same, ALIGNED

POLNUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "XX": -5, "YY": -6, "XY": -7, "YX": -8, "pI": 1, "pQ": 2, "pU": 3, "pV": 4, "I": 1, "Q": 2}
def polcode(p):
    if isinstance(p, str): p = (p, p)
    if isinstance(p, tuple): a, b = [POLNUM[x] if isinstance(x, str) else int(x) for x in p]; return (20 + a) * 100 + 20 + b
    return int(p)
def blcode(b): return (100 + b[0]) * 1000 + 100 + b[1] if isinstance(b, tuple) else int(b)
def pairs_bls(blp): return (int(blp) // 10**6, int(blp) % 10**6)
def row_mask(p, bls=None, only_pairs_in_bls=True, blpairs=None, times=None, lsts=None):
    n = len(p["blpair_array"]); B = p["blpair_array"].tolist(); m = np.ones(n, bool)
    if bls is not None or blpairs is not None:
        m = np.zeros(n, bool)
        if bls is not None:
            c = {blcode(b) for b in ([bls] if isinstance(bls, (tuple, int, np.integer)) else bls)}
            m |= np.array([(all if only_pairs_in_bls else any)(x in c for x in pairs_bls(b)) for b in B])
        if blpairs is not None: m |= np.isin(B, [blcode(x[0]) * 10**6 + blcode(x[1]) if isinstance(x, tuple) else int(x) for x in blpairs])
    if times is not None: m &= np.array([any(abs(t - x) < 1e-7 for x in times) for t in p["time_avg_array"]])
    if lsts is not None: m &= np.array([any(abs(t - x) < 1e-7 for x in lsts) for t in p["lst_avg_array"]])
    return m
def selected(p, spws=None, polpairs=None, r_params=None, **rows):
    """expected attributes after the selection; raises LookupError when nothing matches"""
    import copy
    q = copy.deepcopy(p); m = row_mask(p, **rows); picked_rows = any(rows.get(k) is not None for k in ("bls", "blpairs", "times", "lsts"))
    if picked_rows and not m.any(): raise LookupError("rows")
    S = list(range(p["Nspws"])) if spws is None else sorted(set(int(s) for s in spws))
    if any(s not in range(p["Nspws"]) for s in S) or not S: raise LookupError("spws")
    P = np.ones(p["Npols"], bool) if polpairs is None else np.isin(p["polpair_array"], [polcode(x) for x in polpairs])
    if not P.any(): raise LookupError("polpairs")
    if picked_rows:
        for k in ALIGNED: q[k] = p[k][m]
        q["Nbltpairs"] = int(m.sum()); q["Nblpairs"] = len(set(q["blpair_array"].tolist())); q["Ntpairs"] = len(set(zip(q["time_1_array"].tolist(), q["time_2_array"].tolist()))); q["Ntimes"] = q["Ntpairs"]
        used = {b for x in q["blpair_array"] for b in pairs_bls(x)}; k = np.array([int(b) in used for b in p["bl_array"]])
        q["bl_array"], q["bl_vecs"], q["Nbls"] = p["bl_array"][k], p["bl_vecs"][k], int(k.sum())
    if spws is not None:
        fs, ds = np.isin(p["spw_freq_array"], S), np.isin(p["spw_dly_array"], S)
        q["freq_array"], q["dly_array"] = p["freq_array"][fs], p["dly_array"][ds]; new = {s: i for i, s in enumerate(S)}
        q["spw_freq_array"] = np.array([new[int(s)] for s in p["spw_freq_array"][fs]], dtype=p["spw_freq_array"].dtype); q["spw_dly_array"] = np.array([new[int(s)] for s in p["spw_dly_array"][ds]], dtype=p["spw_dly_array"].dtype)
        q["spw_array"] = np.arange(len(S), dtype=p["spw_array"].dtype); q["Nspws"] = len(S); q["Nspwfreqs"], q["Nspwdlys"] = int(fs.sum()), int(ds.sum()); q["Nfreqs"], q["Ndlys"] = len(np.unique(q["freq_array"])), len(np.unique(q["dly_array"]))
    if polpairs is not None: q["polpair_array"] = p["polpair_array"][P]; q["Npols"] = int(P.sum())
    q["scalar_array"] = p["scalar_array"][S][:, P]
    for k in ("label_1_array", "label_2_array"): q[k] = p[k][S][:, m][:, :, P]
    for k in ("OmegaP", "OmegaPP"):
        if k in p: q[k] = p[k][:, P]
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array"):
        if k in p: q[k] = {i: p[k][s][m][..., P] for i, s in enumerate(S)}
    for k in ("window_function_kperp", "window_function_kpara"):
        if k in p: q[k] = {i: p[k][s][:, P] for i, s in enumerate(S)}
    if "stats_array" in p: q["stats_array"] = {st: {i: d[s][m][..., P] for i, s in enumerate(S)} for st, d in p["stats_array"].items()}
    return q
def random_selection(rng, u, ok=True):
    """keyword arguments for select, in the forms the interface accepts"""
    g = rng.np(); kw = {}
    sub = lambda n: sorted(rng.sample(range(n), rng.randrange(1, n + 1)))
    if rng.coin(.4): s = sub(u.Nspws); rng.shuffle(s); kw["spws"] = s if rng.coin(.8) else [np.int64(x) for x in s]
    blps = list(dict.fromkeys(u.blpair_array.tolist())); tup = lambda b: (b // 1000 - 100, b % 1000 - 100)
    if rng.coin(.35):
        bl = [tup(int(b)) if rng.coin() else int(b) for b in rng.sample(u.bl_array.tolist(), rng.randrange(1, u.Nbls + 1))]
        kw["bls"] = [tup(b) if not isinstance(b, tuple) else b for b in bl] if rng.coin() else [blcode(b) for b in bl]
        if len(kw["bls"]) == 1 and rng.coin(.4): kw["bls"] = kw["bls"][0]
        kw["only_pairs_in_bls"] = rng.coin()
    if rng.coin(.4):
        b = rng.sample(blps, rng.randrange(1, len(blps) + 1)); kw["blpairs"] = [(tup(x // 10**6), tup(x % 10**6)) for x in b] if rng.coin() else b
    c = rng.randrange(4); T = sorted(set(u.time_avg_array.tolist())); L = sorted(set(u.lst_avg_array.tolist()))
    if c == 0: kw["times"] = [T[i] for i in sub(len(T))]
    elif c == 1: kw["lsts"] = [L[i] for i in sub(len(L))]
    if c == 0 and rng.coin(.3): kw["times"] = np.array(kw["times"])
    if rng.coin(.5):
        pp = [int(x) for x in rng.sample(u.polpair_array.tolist(), rng.randrange(1, u.Npols + 1))]; f = rng.randrange(3)
        kw["polpairs"] = pp if f else [((x // 100) - 20, x % 100 - 20) for x in pp]
    return kw
