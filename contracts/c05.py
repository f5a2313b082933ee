from .base import *
PROP = Prop("C05", "deductive verification (VCs generated from the source, z3) of writer and reader against an assumed contract of HDF5 groups, with run-time contract cases on real files",
            ["HDF5 (h5py) stores attributes and datasets exactly (assumed contract in the proofs, the real library in the cases)", "objects pass UVPSpec.check(); attribute values are of the documented types"])
LEVEL = "proof"
NOTE = ("Run-time contract cases on real files: every attribute of the object read (its values and kinds, found by listing the object, not by the package's own equality) against the one written, for every combination of optional attributes; every partial read against reading all and selecting and against the independent selection contract; metadata-only reads; refusal to overwrite compared byte for byte. The round trip of write_to_group and read_from_group is discharged for any contents under the assumed HDF5 contract.")
import ast, copy, os, shutil, tempfile, warnings
import numpy as np
from hera_pspec import conversions, uvpspec, UVPSpec
from hera_pspec.parameter import PSpecParam
from hera_pspec import uvpspec_utils as uu
from .build import build, same, diff
from .selection import selected, random_selection

HEAVY = ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array", "window_function_kperp", "window_function_kpara", "stats_array")
# ------------------------------------------------------------------ deductive proofs
class Tree:
    """the assumed contract of an HDF5 group: it holds what was put in, under its name, once"""
    def __init__(s): s.attrs, s.sets = {}, {}
    def create_dataset(s, k, data=None, dtype=None):
        from .sym import A
        if k in s.sets: raise ValueError("Unable to create dataset (name already exists)")
        a = A(data); narrow = dtype is not None and isinstance(dtype, (type, np.dtype)) and np.dtype(dtype).itemsize < (16 if a.kind == "c" else 8)
        if narrow:      # precision is lost: nothing is known about the values
            from .sym import sarr
            a = sarr("stored_" + k, tuple(a.shape_), a.kind)
        s.sets[k] = Data(a)
    def keys(s): return sorted(s.sets)
    def __iter__(s): return iter(sorted(s.sets))
    def __contains__(s, k): return k in s.sets
    def __getitem__(s, k):
        if k not in s.sets: raise KeyError(k)
        return s.sets[k]
class Data:
    """a dataset: reading any part of it gives that part as a new array"""
    def __init__(s, a): s.a = a
    def __getitem__(s, ix): from dv.arrays import getitem as gi; return gi(s.a, ix)
def symbolic(opts=("cov", "window", "stats"), pols=None):
    """an object with two windows and any contents: any numbers of rows, delays, frequencies, polarizations, baselines"""
    from .sym import interp, sarr
    from .c04 import full
    u, f, dims, nd_, nf_ = full(spws=2, pols=pols, folded="folded" in opts); S, N, P, NF, ND, nb, nq = dims; o = interp.created(UVPSpec()); o.__dict__.update({k: x for k, x in u.__dict__.items() if not k.startswith("_")}); u = o; d = u.__dict__
    for k, o in (("cov_array_real", "cov"), ("cov_array_imag", "cov"), ("window_function_array", "window"), ("stats_array", "stats")):
        if o not in opts: d.pop(k, None)
    d.update(history="what happened", labels=np.array(["first", "b"]), cosmo=conversions.Cosmo_Conversions(Om_L=np.float64(.7)), weighting="iC", norm="I", vis_units="mK", norm_units="h^-3 Mpc^3", taper="none", exact_windows=False, channel_width=sarr("cw", (S,)), telescope_location=sarr("tel", (3,)))
    interp.CONTRACTS[UVPSpec.check] = lambda self, just_meta=False: None
    return u, S
def equal(name, a, b, windows=None):
    """obligations: b holds exactly the values of a"""
    from .sym import E, z3, zi, A, interp
    from dv.arrays import SArr
    if name == "stats_array":
        E.prove("stats_names", list(a) == list(b))
        for st in a: equal("stats_" + st, a[st], b[st], windows)
        return
    if windows is not None:
        E.prove(name + ".windows", sorted(int(x) for x in b) == list(range(windows)))
        for s in range(windows): equal(f"{name}.{s}", interp.getitem_any(a, s), interp.getitem_any(b, s))
        return
    if isinstance(a, SArr):
        b = A(b); E.prove(name + ".shape", z3.And(*[zi(x) == zi(y) for x, y in zip(a.shape_, b.shape_)]) if len(a.shape_) == len(b.shape_) else False); ix = [E.fresh('i', 'k') for _ in a.shape_]
        for i, n in zip(ix, a.shape_): E.assume(i >= 0); E.assume(i < zi(n))
        E.prove_eq(name, b.at(*ix), a.at(*ix))
    elif isinstance(a, conversions.Cosmo_Conversions): E.prove(name, type(b) is type(a) and b.get_params() == a.get_params())
    elif isinstance(a, (str, bool, int, list, np.ndarray)):
        dec = lambda v: [x.decode() if isinstance(x, bytes) else x for x in list(v)]
        E.prove(name, dec(b) == dec(a) if isinstance(a, (list, np.ndarray)) else type(a) is type(b) and a == b)
    else: E.prove_eq(name, b, a)
def round_trip_proof(opts):
    def h():
        from .sym import E, interp, call, z3, zi, as_int, A, mk, sarr
        u, S = symbolic(opts); d = u.__dict__
        old = dict(d); g = Tree(); call(UVPSpec.write_to_group, u, g, run_check=False); E.prove("writer_changed", all(d.get(k) is v for k, v in old.items()) and set(d) == set(old))
        v = UVPSpec(); v = interp.created(v); call(UVPSpec.read_from_group, v, g, just_meta="meta" in opts); w = v.__dict__
        meta = [k for k in old if not k.startswith("_") and k not in HEAVY and not isinstance(old[k], PSpecParam)]
        for k in meta:
            E.prove("has_" + k, k in w)
            if k not in w: continue
            equal(k, old[k], w[k])
        for k in HEAVY:
            if "meta" in opts: E.prove("only_metadata", k not in w or k in ("window_function_kperp", "window_function_kpara")); continue
            E.prove("has_" + k, (k in w) == (k in old))
            if k in w and k in old: equal(k, old[k], w[k], S)
    h.__name__ = "round_trip_" + "_".join(opts or ("plain",)); return h
for _o in ((), ("cov", "window", "stats"), ("folded", "stats"), ("meta",)): PROP.proof(budget=60)(round_trip_proof(_o))

def partial_proof(what):
    """reading with a selection gives what reading everything and then selecting gives"""
    def h():
        from .sym import E, interp, call, z3, zi, A, mk, sarr, raises, sreal, arrays
        u, S = symbolic(pols=4 if what in ("polpairs", "uneven", "mixed") else None); g = Tree(); d = u.__dict__
        if what in ("polpairs", "uneven", "mixed"): d["polpair_array"] = arrays.from_np(np.array([1515, 1616, 1717, 1818]))
        call(UVPSpec.write_to_group, u, g, run_check=False); E.assume(zi(d["Ntpairs"].e) >= 0)
        mkkw = dict(spws=lambda: dict(spws=[1]), times=lambda: dict(times=[sreal("t0")]), lsts=lambda: dict(lsts=[sreal("t0"), sreal("t1")]), blpairs=lambda: dict(blpairs=[101102101103, 101103101104]), polpairs=lambda: dict(polpairs=[1616]), uneven=lambda: dict(polpairs=[1515, 1616, 1818], times=[sreal("t0")]), mixed=lambda: dict(spws=[0], polpairs=[1818, 1515], blpairs=[101102101103]))[what]
        v = interp.created(UVPSpec()); r, ex = raises(UVPSpec.read_from_group, v, g, **mkkw()); w = interp.created(UVPSpec()); call(UVPSpec.read_from_group, w, g); r, ex2 = raises(UVPSpec.select, w, inplace=True, run_check=False, **mkkw())
        E.prove("refused_alike", (ex is None) == (ex2 is None))
        if ex is not None or ex2 is not None: return
        a, b = w.__dict__, v.__dict__; E.prove("attributes", {k for k in a if not k.startswith("_")} == {k for k in b if not k.startswith("_")})
        for k in a:
            if k in ("Ntimes", "Ntpairs") and what not in ("spws", "polpairs"): continue      # numbers of distinct times, which are proved equal one by one
            if not k.startswith("_") and not isinstance(a[k], PSpecParam) and k in b: equal(k, a[k], b[k], (1 if what in ("spws", "mixed") else 2) if k in HEAVY else None)
    h.__name__ = "partial_" + what; return h
for _w in ("spws", "times", "lsts", "blpairs", "polpairs", "uneven", "mixed"): PROP.proof(budget=100)(partial_proof(_w))

# ------------------------------------------------------------------ run-time contract cases
def attributes(u): return copy.deepcopy({k: v for k, v in vars(u).items() if not k.startswith("_") and not isinstance(v, PSpecParam)})
def kinds(a, b):
    """the same sort of value: an array stays an array of the same kind and precision, a number a number, a string a string"""
    if isinstance(a, dict): return isinstance(b, dict) and all(kinds(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray): return isinstance(b, np.ndarray) and (a.dtype.kind == b.dtype.kind or {a.dtype.kind, b.dtype.kind} <= set("iu")) and (a.dtype.kind in "US" or b.dtype.itemsize >= a.dtype.itemsize)
    for t in (bool, np.bool_), (int, np.integer), (float, np.floating), (str,): 
        if isinstance(a, t): return isinstance(b, t)
    return True
def anything(rng, **kw):
    """an object with any subset of the optional attributes"""
    wf = rng.choice([False, False, True, "exact"]); stats = [s for s in ("P_N", "err", "foo_bar_1", "stats") if rng.coin(.25)]
    kw = dict(dict(stats=stats, cov=rng.coin(.35), wf=bool(wf), exact=wf == "exact", beam=rng.coin(.7), cosmo=rng.coin(.75), ragged=rng.coin(.3), crossed=rng.coin(.15), taper=rng.choice(["none", "bh"]), lst0=rng.choice([None, None, 6.279])), **kw)
    u = build(rng, **kw); g = rng.np()
    if kw["cosmo"]:
        v = dict(Om_L=round(rng.uniform(.6, .8), 3), Om_b=.05, Om_c=rng.uniform(.2, .3), H0=rng.uniform(60, 80)); f = rng.choice([float, np.float64, np.float32])
        if rng.coin(.7): u.cosmo = conversions.Cosmo_Conversions(**{k: f(x) for k, x in v.items()})
    u.history = rng.choice(["", "a history\nwith lines", "ünïcode ✓", "x" * 70000]); u.weighting = rng.choice(["identity", "iC"]); u.norm = rng.choice(["I", "H^-1"]); u.vis_units = rng.choice(["mK", "Jy", "UNCALIB"])
    if rng.coin(.3): u.labels = np.array(rng.choice([["first set", "b"], ["long " * 9, "x"], ["one", "two"]]))
    if rng.coin(.3): u.beamfile = "beam.fits"
    if rng.coin(.3): del u.cov_model
    if rng.coin(.4):
        bl = [(int(x) // 1000 - 100, int(x) % 1000 - 100) for x in u.bl_array.tolist()]; u.r_params = uu.compress_r_params({(rng.randrange(2),) + x + (rng.choice(["xx", "yy", "pI"]),): dict(filter_centers=[0.0], filter_half_widths=[rng.uniform(1e-8, 1e-6)], filter_factors=[1e-9]) for x in bl})
    for s in u.data_array:
        if rng.coin(.3): u.nsample_array[s] = u.nsample_array[s] + g.random(u.nsample_array[s].shape)
        for st in getattr(u, "stats_array", {}):
            if rng.coin(.4): u.stats_array[st][s] = u.stats_array[st][s] + 1j * g.normal(size=u.stats_array[st][s].shape)
        if rng.coin(.2): u.data_array[s][rng.randrange(len(u.blpair_array))] = rng.choice([np.nan, np.inf, 0, 1e-300])
        for st in getattr(u, "stats_array", {}):
            if rng.coin(.2): u.stats_array[st][s][0] = np.inf
    if u.Ndlys and not wf and not kw["cov"] and rng.coin(.3) and all(np.sum(u.spw_dly_array == s) > 2 for s in range(u.Nspws)) and all(np.any(u.dly_array[u.spw_dly_array == s] == 0) for s in range(u.Nspws)):
        with warnings.catch_warnings(): warnings.simplefilter("ignore"); u.fold_spectra()
    return u
class Scratch:
    def __enter__(s): s.d = tempfile.mkdtemp(prefix="c05_"); return os.path.join(s.d, "f.h5")
    def __exit__(s, *a): shutil.rmtree(s.d, ignore_errors=True)
def quiet(f, *a, **k):
    with warnings.catch_warnings(): warnings.simplefilter("ignore"); return f(*a, **k)
def read(f, **kw): u = UVPSpec(); quiet(u.read_hdf5, f, **kw); return u
@PROP.case(quick=150, thorough=5000)
def round_trip(rng):
    """read(write(u)) has every attribute of u with exactly its values, and u is not changed; metadata only; writing what was read again; refusing to overwrite"""
    u = anything(rng); want = attributes(u)
    with Scratch() as f:
        quiet(u.write_hdf5, f); require(not diff(want, attributes(u), skip=()), "writer_changed", lambda: f"writing changed {diff(want, attributes(u), skip=())}")
        v = read(f); got = attributes(v); d = diff(want, got, skip=()); require(not d, "values", lambda: f"{d} differ after writing and reading: {[(want.get(k), got.get(k)) for k in d][:2]}")
        d = [k for k in want if not kinds(want[k], got[k])]; require(not d, "kinds", lambda: f"{d} changed kind: {[(type(want[k]), getattr(want[k], 'dtype', None), type(got[k]), getattr(got[k], 'dtype', None)) for k in d]}")
        nan = any(np.isnan(x).any() for x in u.data_array.values())
        if not nan: require(u == v and v == u, "equal", "the object read does not compare equal")
        m = attributes(read(f, just_meta=True)); d = diff({k: x for k, x in want.items() if k not in HEAVY}, m, skip=()); require(not d, "metadata", lambda: f"{d} differ when reading metadata only")
        raw = open(f, "rb").read(); t = os.stat(f).st_mtime_ns; other = anything(rng)
        try: quiet(other.write_hdf5, f); require(False, "overwritten", "an existing file was overwritten without overwrite=True")
        except OSError: pass
        require(open(f, "rb").read() == raw and os.stat(f).st_mtime_ns == t, "touched", "the file changed although overwriting was refused")
        h = f + "2"; quiet(v.write_hdf5, h); d = diff(want, attributes(read(h)), skip=()); require(not d, "again", lambda: f"{d} differ after a second round trip")
        if rng.coin():
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()): quiet(other.write_hdf5, f, overwrite=True)
            d = diff(attributes(other), attributes(read(f)), skip=()); require(not d, "replaced", lambda: f"{d} differ after overwriting another object's file")
        if rng.coin(.4):      # reading into an object that held something else
            w = other; quiet(w.read_hdf5, h); d = diff(want, attributes(w), skip=()); require(not d, "leftovers", lambda: f"{d} differ when reading into an object already in use")
    return "folded" if u.folded else "exact" if u.exact_windows else "plain"
@PROP.case(quick=250, thorough=5000)
def partial(rng):
    """read(f, selection) == read(f) then select(selection), also for metadata, and refused alike"""
    u = anything(rng, nspw=rng.choice([1, 2, 3]), ntimes=rng.choice([2, 3, 4])); kw = random_selection(rng, u)
    def copies(): return {k: copy.deepcopy(v) for k, v in kw.items()}
    def attempt(f):
        try: return attributes(quiet(f))
        except (AssertionError, ValueError, IndexError, TypeError) as e: return type(e).__name__
    with Scratch() as f:
        quiet(u.write_hdf5, f); full = read(f)
        def two(): x = copy.deepcopy(full); x.select(**copies()); return x
        want, got = attempt(two), attempt(lambda: read(f, **copies()))
        if isinstance(want, str) or isinstance(got, str): require(isinstance(want, str) and isinstance(got, str), "refusal", lambda: f"read({kw}): {got if isinstance(got, str) else 'accepted'}, select: {want if isinstance(want, str) else 'accepted'}"); return "refused"
        d = diff(want, got, skip=()); require(not d, "partial", lambda: f"{d} differ between read({kw}) and read then select: {[(want.get(k), got.get(k)) for k in d][:2]}")
        q = selected(attributes(u), **kw); d = [k for k in diff(q, got, skip=()) if k != "r_params"]; require(not d, "contents", lambda: f"read({kw}): {d} are not those of the selected spectra: {[(q.get(k), got.get(k)) for k in d][:2]}")
        m = attempt(lambda: read(f, just_meta=True, **copies())); require(not isinstance(m, str), "metadata_refused", lambda: f"{m} reading metadata of {kw}"); d = diff({k: x for k, x in want.items() if k not in HEAVY}, m, skip=()); require(not d, "metadata", lambda: f"{d} differ in the metadata of read({kw})")
    return "+".join(sorted(k for k in kw if k != "only_pairs_in_bls"))[:12]
