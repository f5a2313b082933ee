from .base import *
PROP = Prop("C17", "deductive verification (VCs generated from the source, z3) with bounded run-time contract cases",
            ["the criterion for flagging a channel (fraction of flagged times among those not flagged at more than 99.9999% of the frequencies) is stated by the same numpy expression as in the code in the proofs, and independently in the run-time cases",
             "validate_datasets and clear_cache leave the data sets as they are (C14 for the caches)", "spectral ranges lie within the band and are not empty"])
LEVEL = "proof"
NOTE = "Deductive proof over the real broadcast_dset_flags for any number of times, channels and rows, any interleaving of baselines, any flags, threshold and range: what one (data set, range, polarization, baseline) step does to every sample, and that it touches no other baseline, polarization, channel or flag. The loops around it are unrolled for up to two of each; longer lists and sequences of ranges are checked by bounded run-time contract cases on UVData objects. Trusts the VC generator, the numpy contracts and z3."
import copy, itertools, warnings
import numpy as np
from hera_pspec.pspecdata import PSpecData

class Dset: pass
def criterion(flags, baselines, bl, pol, thr):
    """channels flagged at too many of the times that are not flagged altogether"""
    w = flags[np.where(np.isin(baselines, bl))[0], :, pol]
    full = np.sum(w, axis=1) / float(w.shape[1]) > 0.999999
    return np.sum(w[~full], axis=0, dtype=float) / np.sum(~full, dtype=float) > thr
def setup(npol, nset=1, nbl=1):
    from .sym import E, interp, sint, sreal, z3, zi, as_int, SArr, Buf, mk
    a, b = sint("a", 0), sint("b"); E.assume(zi(as_int(a)) < zi(as_int(b))); Nf = sint("Nf", 1); E.assume(zi(as_int(b)) <= zi(as_int(Nf)))
    I = z3.IntSort(); sets = []; bls = [[sint(f"bl{n}_{k}") for k in range(nbl)] for n in range(nset)]
    for n in range(nset):
        Nt = sint(f"Nt{n}", 1); F = z3.Function(f"flag{n}", I, I, I, z3.BoolSort()); B = z3.Function(f"baseline{n}", I, I)
        for k, l in itertools.combinations(range(nbl), 2): E.assume(zi(as_int(bls[n][k])) != zi(as_int(bls[n][l])))
        buf = Buf(lambda ix, F=F: mk('b', F(*[zi(as_int(i)) for i in ix])), [as_int(Nt), as_int(Nf), npol], 'b')
        view = lambda buf=buf, Nt=Nt: SArr(buf, [('a', i, 0, 1) for i in range(3)], [as_int(Nt), as_int(Nf), npol])
        ba = SArr(Buf(lambda ix, B=B: mk('i', B(zi(as_int(ix[0])))), [as_int(Nt)], 'i'), [('a', 0, 0, 1)], [as_int(Nt)])
        d = interp.created(Dset()); d.__dict__.update(Npols=npol, flag_array=view(), baseline_array=ba, n=n)
        sets.append((d, buf, F, B, Nt, ba, view))
    ds = interp.created(object.__new__(PSpecData)); ds.__dict__.update(dsets=[s[0] for s in sets], Nfreqs=Nf, spw_range=(sint("earlier0"), sint("earlier1")))
    for f in (PSpecData.validate_datasets, PSpecData.clear_cache): interp.CONTRACTS[f] = lambda self: None
    interp.CONTRACTS[PSpecData.set_Ndlys] = lambda self, ndlys=None: None
    interp.CONTRACTS[np.unique] = lambda x: [b for n, s in enumerate(sets) if s[5] is x for b in bls[n]]
    return ds, sets, bls, a, b, Nf, sreal("thr")
def at(s, Nf):
    from .sym import E, zi, as_int
    t, f = E.fresh('i', 't'), E.fresh('i', 'f'); E.assume(t >= 0); E.assume(t < zi(as_int(s[4]))); E.assume(f >= 0); E.assume(f < zi(as_int(Nf))); return t, f
def broadcast(npol, nset, nbl, whole):
    def h():
        from .sym import E, interp, call, z3, zi, as_int, to_bool, arrays, SArr, Buf, mk, mask_hint
        ds, sets, bls, a, b, Nf, thr = setup(npol, nset, nbl); I = z3.IntSort()
        crit = {}
        for n, s in enumerate(sets):
            for k in range(nbl):
                for p in range(npol):
                    first = SArr(Buf(lambda ix, F=s[2]: mk('b', F(*[zi(as_int(i)) for i in ix])), [as_int(s[4]), as_int(Nf), npol], 'b'), [('a', i, 0, 1) for i in range(3)], [as_int(s[4]), as_int(Nf), npol])
                    crit[n, k, p] = interp.call_func(interp.func_of(criterion), [first, s[5], bls[n][k], p, thr], {})
        if whole: a, b = 0, Nf
        call(ds.broadcast_dset_flags, spw_ranges=None if whole else [(a, b)], time_thresh=thr)
        lo, hi = zi(as_int(a)), zi(as_int(b))
        for n, s in enumerate(sets):
            d, buf, F, B, Nt, ba, _ = s
            E.prove(f"{n}.in_place", d.flag_array.buf is buf)
            for p in range(npol):
                t, f = at(s, Nf); mask_hint(t); now = to_bool(buf.get((t, f, p)))
                E.prove(f"{n}.{p}.no_flag_cleared", z3.Implies(F(t, f, p), now))
                E.prove(f"{n}.{p}.outside_unchanged", z3.Implies(z3.Or(f < lo, f >= hi), now == F(t, f, p)))
                E.prove(f"{n}.{p}.other_baselines_unchanged", z3.Implies(z3.And([B(t) != zi(as_int(x)) for x in bls[n]]), now == F(t, f, p)))
                for k, x in enumerate(bls[n]):
                    c = lambda g, k=k, p=p: to_bool(crit[n, k, p].at(g)); g = z3.Int("q!chan")
                    mine = z3.And(B(t) == zi(as_int(x)), f >= lo, f < hi)
                    other = z3.Exists([g], z3.And(g >= lo, g < hi, F(t, g, p), z3.Not(c(g))))
                    if k > 0: continue          # what the later baseline's own step does is the one-baseline proof; here: the steps do not interfere
                    E.prove(f"{n}.{p}.{k}.channel_flagged", z3.Implies(z3.And(mine, c(f)), now))
                    h_ = E.fresh('i', 'h'); E.assume(h_ >= 0); E.assume(h_ < zi(as_int(Nf)))
                    E.prove(f"{n}.{p}.{k}.time_flagged", z3.Implies(z3.And(mine, h_ >= lo, h_ < hi, F(t, h_, p), z3.Not(c(h_))), now))
                    E.prove(f"{n}.{p}.{k}.nothing_else", z3.Implies(z3.And(mine, now), z3.Or(F(t, f, p), c(f), other)))
    h.__name__ = f"broadcast_{npol}_polarizations_{nset}_data_sets_{nbl}_baselines{'_whole_band' if whole else ''}"
    return h
for _c in ((1, 1, 1, False), (1, 1, 1, True), (2, 1, 1, False), (1, 1, 2, False), (1, 2, 1, False)): PROP.proof(budget=600)(broadcast(*_c))
@PROP.proof(budget=300)
def unflagging():
    from .sym import E, call, z3, zi, as_int, to_bool
    ds, sets, bls, a, b, Nf, thr = setup(2, 2, 1); call(ds.broadcast_dset_flags, spw_ranges=[(a, b)], time_thresh=thr, unflag=True)
    for n, s in enumerate(sets):
        for p in (0, 1):
            t, f = at(s, Nf); now = to_bool(s[1].get((t, f, p))); inside = z3.And(f >= zi(as_int(a)), f < zi(as_int(b)))
            E.prove(f"{n}.{p}.cleared", z3.Implies(inside, z3.Not(now))); E.prove(f"{n}.{p}.outside_unchanged", z3.Implies(z3.Not(inside), now == s[2](t, f, p)))
# ------------------------------------------------------------------ run-time contract cases
def oracle(flags, baselines, ranges, thr):
    """the documented broadcast, sample by sample"""
    F = flags.copy()
    for lo, hi in ranges:
        for p in range(F.shape[2]):
            for bl in set(baselines.tolist()):
                rows = [r for r in range(len(baselines)) if baselines[r] == bl]; W = F[rows][:, :, p].copy()
                live = [w for w in W if not w.all()]
                bad = [f for f in range(lo, hi) if live and sum(int(w[f]) for w in live) / len(live) > thr]
                for r, w in zip(rows, W):
                    for f in bad: F[r, f, p] = True
                    if any(w[f] and f not in bad for f in range(lo, hi)): F[r, lo:hi, p] = True
    return F
@PROP.case(quick=80, thorough=3000)
def broadcasting(rng):
    """1-3 data sets of 1-3 baselines (autocorrelations included), 1-6 times, 3-10 channels, 1-2 polarizations; flags sparse, in whole channels, whole times or everywhere; 1-2 ranges or the whole band; thresholds on and off the attainable fractions"""
    from .uvd import make
    Nt, Nf = rng.randrange(1, 7), rng.randrange(3, 11); pols = rng.choice([(-5,), (-5, -6)]); us = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        u = make(rng, bls=rng.sample([(0, 1), (1, 2), (0, 2), (1, 1), (0, 11)], rng.choice([1, 2, 3])), Nt=Nt, Nf=Nf, pols=pols); g = rng.np(); sh = u.flag_array.shape
        F = g.random(sh) < rng.choice([0, .05, .2, .5]); F |= (g.random((1, Nf, 1)) < rng.choice([0, .2])); F |= (g.random((sh[0], 1, sh[2])) < rng.choice([0, .2]))
        if rng.coin(.1): F |= True
        u.flag_array[:] = F
        if rng.coin(.3): u.reorder_blts(order=rng.choice(["time", "baseline"]))
        us.append(u)
    cut = rng.randrange(1, Nf); ranges = rng.choice([None, [(0, Nf)], [(0, cut)], [(cut, Nf)], [(0, cut), (cut, Nf)], [(cut, Nf), (0, cut)], [(cut - 1, cut)]])
    thr = rng.choice([0.0, .2, .25, .33, .5, .5, 1.0, rng.random()]); unflag = rng.coin(.15)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = PSpecData(dsets=[copy.deepcopy(u) for u in us], wgts=[None] * len(us)); before = [d.flag_array.copy() for d in ds.dsets]; data = [(d.data_array.copy(), d.nsample_array.copy()) for d in ds.dsets]
        ds.broadcast_dset_flags(spw_ranges=ranges, time_thresh=thr, unflag=unflag)
    what = lambda n: f"data set {n} with baselines {us[n].baseline_array.tolist()}, {Nt} times, {Nf} channels, ranges {ranges}, threshold {thr}, unflag {unflag}, flags {before[n].astype(int).tolist()}"
    for n, (d, F) in enumerate(zip(ds.dsets, before)):
        R = ranges or [(0, Nf)]
        if unflag:
            want = F.copy()
            for lo, hi in R: want[:, lo:hi] = False
        else: want = oracle(F, d.baseline_array, R, thr)
        require(np.array_equal(d.flag_array, want), "unflag" if unflag else "broadcast", lambda: f"{what(n)}: wrong at {np.argwhere(d.flag_array != want)[:4].tolist()}")
        require(np.array_equal(d.data_array, data[n][0]) and np.array_equal(d.nsample_array, data[n][1]), "other_arrays", lambda: f"{what(n)}: data or sample counts changed")
    return f"{len(us)} data sets, ranges {ranges}"
@PROP.case(quick=20, thorough=300)
def takes_effect(rng):
    """the weights used by the next estimate see the new flags (matrices computed before are dropped)"""
    from .uvd import make
    us = [make(rng, Nt=4, Nf=6, flags=.15) for _ in range(2)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); ds = PSpecData(dsets=us, wgts=[None, None]); ds.set_spw((1, 5)); key = (rng.randrange(2), (0, 1), "xx"); ds.Y(key); ds.w(key)
        ds.broadcast_dset_flags(spw_ranges=[(1, 5)], time_thresh=.3); ds.set_spw((1, 5)); F = us[key[0]].get_flags((0, 1, "xx"))[:, 1:5]
        w, Y = ds.w(key), ds.Y(key)
    require(np.array_equal(w > 0, ~F.T), "weights", lambda: f"weights {w.astype(int).tolist()} after broadcasting to flags {F.T.astype(int).tolist()}")
    require(np.array_equal(np.diag(Y) > 0, (~F).any(axis=0)), "weight_matrix", lambda: f"Y = diag({np.diag(Y)}) after broadcasting to flags {F.T.astype(int).tolist()}")
    return str(key)
