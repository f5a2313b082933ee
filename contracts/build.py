"""Synthetic UVPSpec objects built attribute by attribute (no data files), for run-time contract cases."""
import copy
import numpy as np
from hera_pspec import uvpspec, conversions, utils
from hera_pspec.uvpspec import UVPSpec
from hera_pspec import uvpspec_utils as uu

TEL = np.array([5109325.85521063, 2005235.09142983, -3239928.42475395])

def bl2int(b): return (100 + b[0]) * 1000 + 100 + b[1]
def blp2int(p): return bl2int(p[0]) * 1000000 + bl2int(p[1])
def pp2int(p): return (20 + p[0]) * 100 + 20 + p[1]

def random_blpairs(rng, n, nant=6):
    out = []
    while len(out) < n:
        a = [rng.randrange(nant) for _ in range(4)]
        if a[0] == a[1] or a[2] == a[3]: continue
        p = ((a[0], a[1]), (a[2], a[3]))
        if p not in out: out.append(p)
    return out

POLPAIRS = [(-5, -5), (-6, -6), (-5, -6), (-6, -5), (1, 1), (2, 2), (3, 4), (-7, -8)]

def build(rng, nspw=None, nblp=None, ntimes=None, npol=None, order=None, stats=(), cov=False, wf=False, exact=False, folded=False,
          nfreqs=None, ndlys=None, blpairs=None, polpairs=None, times=None, dlst=0.003, equal_times=None, beam=True, cosmo=True, ragged=False,
          int_vary=True, freq0=None, antpos=None, zero_int=0.0, labels=True, taper='blackman-harris', ntimes_missing=0, freqs_list=None, lst0=None, weird_dlys=False, crossed=False):
    g = rng.np()
    nspw = nspw or rng.choice([1, 2, 3]); nblp = nblp or rng.choice([1, 2, 3, 4]); ntimes = ntimes or rng.choice([1, 2, 3, 4]); npol = npol or rng.choice([1, 2, 3])
    blpairs = blpairs or random_blpairs(rng, nblp); nblp = len(blpairs)
    polpairs = polpairs or rng.sample(POLPAIRS, npol); npol = len(polpairs)
    order = order or rng.choice(["time", "blp", "random"])
    u = UVPSpec()
    if equal_times is None: equal_times = rng.coin(0.4)
    t0 = 2458042.1 + rng.randrange(100) * 0.01
    T = np.asarray(times) if times is not None else t0 + 0.0012 * np.arange(ntimes)
    ntimes = len(T)
    l0 = rng.uniform(0.2, 4.0) if lst0 is None else lst0
    rows = [(b, t) for t in range(ntimes) for b in range(nblp)] if order == "time" else [(b, t) for b in range(nblp) for t in range(ntimes)]
    if order == "random": rng.shuffle(rows)
    if ragged and len(rows) > nblp:
        keep = [r for r in rows if r[1] == 0 or rng.coin(0.7)]; rows = keep
    N = len(rows); bi = np.array([r[0] for r in rows]); ti = np.array([r[1] for r in rows])
    u.blpair_array = np.array([blp2int(blpairs[b]) for b in bi], dtype=np.int64)
    u.time_1_array = T[ti].astype(float); u.time_2_array = u.time_1_array + (0 if equal_times else 0.0005)
    if crossed: u.time_2_array = T[::-1][ti].astype(float)      # different pairs of times with the same average
    u.time_avg_array = (u.time_1_array + u.time_2_array) / 2
    u.lst_1_array = (l0 + dlst * ti) % (2 * np.pi); u.lst_2_array = (u.lst_1_array + (0 if equal_times else dlst / 2)) % (2 * np.pi)
    u.lst_avg_array = np.mean([np.unwrap([a, b]) for a, b in zip(u.lst_1_array, u.lst_2_array)], axis=1) % (2 * np.pi) if N else np.zeros(0)
    u.Nbltpairs = N; u.Nblpairs = len(np.unique(u.blpair_array))
    u.Ntpairs = len(set(zip(u.time_1_array, u.time_2_array))); u.Ntimes = len(np.unique(np.hstack([u.time_1_array, u.time_2_array])))
    bls = sorted({bl2int(b) for p in blpairs for b in p}); u.bl_array = np.array(bls, dtype=np.int32); u.Nbls = len(bls)
    if antpos is None:
        antpos = {a: np.array([g.uniform(-80, 80), g.uniform(-80, 80), g.uniform(-2, 2)]) for a in range(900 if max(max(b) for p in blpairs for b in p) > 40 else 41)} if False else None
    if antpos is None:
        ants = sorted({a for p in blpairs for b in p for a in b}); antpos = {a: g.uniform(-80, 80, 3) * [1, 1, .02] for a in ants}
    from pyuvdata import utils as uvutils
    lat, lon, alt = uvutils.LatLonAlt_from_XYZ(TEL[None])
    enu = np.array([antpos[(b % 1000) - 100] - antpos[b // 1000 - 100] for b in bls])
    u.bl_vecs = uvutils.ECEF_from_ENU(enu, latitude=lat, longitude=lon, altitude=alt) - TEL
    u.telescope_location = TEL.copy()
    u.polpair_array = np.array([pp2int(p) for p in polpairs], dtype=np.int32); u.Npols = npol
    fr, dl, sf, sd, cw = [], [], [], [], []
    nf_ = []; nd_ = []
    f0 = freq0 or rng.uniform(100e6, 120e6)
    for s in range(nspw):
        nf = nfreqs[s] if isinstance(nfreqs, (list, tuple)) else (nfreqs or rng.choice([4, 5, 6, 7, 8]))
        nd = ndlys[s] if isinstance(ndlys, (list, tuple)) else (ndlys or (nf if rng.coin(0.6) else rng.choice([3, 4, 5, 6, 7])))
        df = 97656.25 * rng.choice([1, 2])
        F = f0 + df * np.arange(nf) if freqs_list is None else np.asarray(freqs_list[s], float)
        nf = len(F); f0 = F[-1] + df * rng.choice([-1, 1, 5, 40])
        D = np.sort(np.fft.fftfreq(nd, d=np.median(np.diff(F)) if nf > 1 else df))
        fr += list(F); dl += list(D); sf += [s] * nf; sd += [s] * nd; cw.append(df); nf_.append(nf); nd_.append(nd)
    u.freq_array = np.array(fr); u.dly_array = np.array(dl); u.spw_freq_array = np.array(sf, dtype=np.uint16); u.spw_dly_array = np.array(sd, dtype=np.uint16)
    u.spw_array = np.arange(nspw, dtype=np.uint16); u.Nspws = nspw; u.Nspwfreqs = len(fr); u.Nspwdlys = len(dl)
    u.Nfreqs = len(np.unique(u.freq_array)); u.Ndlys = len(np.unique(u.dly_array)); u.channel_width = np.array(cw)
    R = lambda *sh: g.normal(size=sh)
    u.data_array = {s: R(N, nd_[s], npol) + 1j * R(N, nd_[s], npol) for s in range(nspw)}
    u.wgt_array = {s: (g.uniform(0, 1, (N, nf_[s], 2, npol))) for s in range(nspw)}
    u.integration_array = {s: (g.uniform(5, 30, (N, npol)) if int_vary else np.full((N, npol), 10.7)) for s in range(nspw)}
    if zero_int:
        for s in range(nspw):
            m = g.uniform(size=(N, npol)) < zero_int; u.integration_array[s][m] = 0.0
    u.nsample_array = {s: g.integers(1, 9, (N, npol)).astype(float) for s in range(nspw)}
    u.scalar_array = g.uniform(1, 3, (nspw, npol))
    u.history = "built"; u.weighting = "identity"; u.vis_units = "mK"; u.norm = "I"; u.norm_units = "h^-3 Mpc^3"; u.taper = taper; u.folded = False
    u.r_params = ""; u.cov_model = "empirical"; u.exact_windows = False
    u.label_1_array = g.integers(0, 2, (nspw, N, npol)).astype(np.int32); u.label_2_array = g.integers(0, 2, (nspw, N, npol)).astype(np.int32)
    u.labels = np.array(["d1", "d2"])
    if beam:
        u.beam_freqs = np.linspace(90e6, 180e6, 10); u.OmegaP = g.uniform(.05, .1, (10, npol)); u.OmegaPP = g.uniform(.02, .05, (10, npol))
    if cosmo: u.cosmo = conversions.Cosmo_Conversions()
    if not cosmo: u.norm_units = "Hz str"
    for st in stats:
        if not hasattr(u, "stats_array"): u.stats_array = {}
        u.stats_array[st] = {s: (g.uniform(.5, 2, (N, nd_[s], npol)) + 0j) for s in range(nspw)}
    if cov:
        u.cov_array_real = {}; u.cov_array_imag = {}
        for s in range(nspw):
            a = R(N, nd_[s], nd_[s], npol); b = R(N, nd_[s], nd_[s], npol)
            u.cov_array_real[s] = a + a.swapaxes(1, 2) + 5 * np.eye(nd_[s])[None, :, :, None]; u.cov_array_imag[s] = b - b.swapaxes(1, 2)
    if wf:
        if exact:
            u.exact_windows = True; nk = 4
            u.window_function_array = {s: g.uniform(0, 1, (N, nd_[s], 3, nk, npol)) for s in range(nspw)}
            u.window_function_kperp = {s: g.uniform(0, 1, (3, npol)) for s in range(nspw)}
            u.window_function_kpara = {s: g.uniform(0, 1, (nk, npol)) for s in range(nspw)}
        else:
            u.window_function_array = {s: g.uniform(0, 1, (N, nd_[s], nd_[s], npol)) for s in range(nspw)}
    u.check()
    u._dv = None; del u._dv
    return u

PERROW = ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array")
ALIGNED = ("time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array", "blpair_array")
def params_of(u): return {k: v for k, v in ((p, getattr(u, p)) for p in sorted(u._all_params) + ["time_2_array"] if hasattr(u, p))}
def snapshot(u): return copy.deepcopy(params_of(u))
def same(a, b, rtol=0.0, atol=0.0):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, conversions.Cosmo_Conversions): return isinstance(b, conversions.Cosmo_Conversions) and a.get_params() == b.get_params()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: return False
        if a.dtype.kind in "US" or b.dtype.kind in "US": return [x.decode() if isinstance(x, bytes) else str(x) for x in a.ravel().tolist()] == [x.decode() if isinstance(x, bytes) else str(x) for x in b.ravel().tolist()]
        if rtol or atol: return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, float) and isinstance(b, float) and (rtol or atol): return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    return bool(a == b)
def diff(pa, pb, rtol=0.0, atol=0.0, skip=("history",)):
    """names of parameters that differ between two snapshots"""
    return [k for k in sorted(set(pa) | set(pb)) if k not in skip and (k not in pa or k not in pb or not same(pa[k], pb[k], rtol, atol))]
def rows_of(u):
    """label of each row"""
    return list(zip(u.blpair_array.tolist(), u.time_1_array.tolist(), u.time_2_array.tolist()))
