from .base import *
PROP = Prop("C11", "deductive verification (VCs generated from the source, z3) with run-time contract cases",
            ["random.shuffle permutes its list, random.choice and np.random.randint return members of their range (trusted)", "average_spectra is under its contract C07"])
LEVEL = "proof"
NOTE = "group_baselines and sample_baselines proved for any number of baselines and groups; the draws of bootstrap_average_blpairs proved for any draw of one to three members; get_blvec_reds and the errors of bootstrap_resampled_error are run-time cases."
import copy, random, warnings
import numpy as np
from hera_pspec import grouping, utils, uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff, same
# ------------------------------------------------------------------ deductive proofs
def members(E, z3, interp, Seg, mk, n):
    a, b = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ("ant1", "ant2"))
    return interp.created([Seg(n, lambda k: (mk('i', a(k)), mk('i', b(k))))]), lambda k: (a(k), b(k))
def grouped(keep, rnd):
    def h():
        from .sym import E, interp, raises, call, z3, zi, as_int, mk, dim, nd, Seg
        from dv import seqs
        N, G = dim("Nbls"), dim("Ngroups", 1); bls, m = members(E, z3, interp, Seg, mk, N); before = list(bls)
        perm = z3.Function("perm", z3.IntSort(), z3.IntSort()) if rnd else (lambda k: k); seeds = []
        def shuffle(x): old = list(x); x[:] = [Seg(N, lambda k: (mk('i', m(perm(k))[0]), mk('i', m(perm(k))[1])))]
        interp.CONTRACTS[random.shuffle] = shuffle; interp.CONTRACTS[random.seed] = lambda s: seeds.append(s)
        r, ex = raises(grouping.group_baselines, bls, nd(G), keep_remainder=keep, randomize=rnd, seed=5 if rnd else None)
        if ex is not None: E.prove("refused_only_with_too_many_groups", N < G); return
        E.prove("enough", N >= G); E.prove("original", list(bls) == before and seeds == ([5] if rnd else []))
        n = E.fresh('i', 'size'); E.assume(n == N / G); rem = N - n * G; E.assume(rem >= 0); E.assume(rem < G)
        E.prove("groups", zi(as_int(seqs.seq_len(r))) == G); i, j = E.fresh('i', 'i'), E.fresh('i', 'j'); E.assume(i >= 0); E.assume(i < G)
        g = seqs.seq_get(r, i); ln = seqs.seq_len(g); last = z3.And(i == G - 1, keep and rem > 0) if keep else z3.BoolVal(False)
        E.prove("size", zi(as_int(ln)) == n + z3.If(last, rem, 0)); E.assume(j >= 0); E.assume(j < n + z3.If(last, rem, 0))
        x = seqs.seq_get(g, j)
        for k in (0, 1): E.prove("member", zi(as_int(x[k])) == m(perm(i * n + j))[k])
    h.__name__ = "group_baselines" + "_keeping_remainder" * keep + "_random" * rnd; return h
for _k in (False, True):
    for _r in (False, True): PROP.proof(budget=100)(grouped(_k, _r))
@PROP.proof()
def positions_partition():
    """position i*n+j (group i of n, j-th member) is used by one group only, and every position below n*Ngroups is used"""
    from .sym import E, z3
    n, G, i, j, k, l, p = (E.fresh('i', x) for x in ("n", "G", "i", "j", "k", "l", "p"))
    for c in (n > 0, i >= 0, k >= 0, i < G, k < G, j >= 0, j < n, l >= 0, l < n): E.assume(c)
    E.prove("at_most_once", z3.Implies(i * n + j == k * n + l, z3.And(i == k, j == l))); E.assume(p >= 0); E.assume(p < n * G)
    q, r = E.fresh('i', 'q'), E.fresh('i', 'r'); E.assume(p == q * n + r); E.assume(r >= 0); E.assume(r < n); E.prove("every_position", z3.And(q >= 0, q < G))
@PROP.proof()
def sample():
    from .sym import E, interp, call, z3, zi, as_int, mk, dim, nd, Seg
    from dv import seqs
    N = dim("Nbls"); bls, m = members(E, z3, interp, Seg, mk, N); seeds, idx = [], []
    def choice(x):
        k = E.fresh('i', 'draw'); E.prove("draws_from_all_members", zi(as_int(seqs.seq_len(x))) == N); E.assume(k >= 0); E.assume(k < N); idx.append(k); return seqs.seq_get(x, k)
    interp.CONTRACTS[random.choice] = choice; interp.CONTRACTS[random.seed] = lambda s: seeds.append(s); r = call(grouping.sample_baselines, bls, seed=3)
    E.prove("seed", seeds == [3]); E.prove("as_many", zi(as_int(seqs.seq_len(r))) == N)
def bootstrap(groups, have):
    """any draws: the average of each object is asked for with the numbers of times each of its members was drawn"""
    def h():
        from .sym import E, interp, raises, call, z3, zi, as_int, A, mk, blank, SArr
        from dv import npmodel
        us = []; rec = []; draws = []
        for k in have: u = blank(); u.__dict__.update(blpair_array=np.array(k), Ntimes=2); us.append(u)
        def randint(low=0, high=None, size=None):
            f = z3.Function(f"draw{len(draws)}", z3.IntSort(), z3.IntSort()); draws.append((f, int(high), int(size))); E.prove("range", int(low) == 0)
            for i in range(int(size)): E.assume(f(i) >= 0); E.assume(f(i) < int(high))
            return npmodel.new((int(size),), 'i', lambda ix: mk('i', f(zi(as_int(ix[0])))))
        interp.CONTRACTS[np.random.randint] = randint; seeds = []; interp.CONTRACTS[np.random.seed] = lambda s: seeds.append(s)
        interp.CONTRACTS[uu.select_common] = lambda uvps, spws=True, blpairs=True, times=True, polpairs=True, lsts=False, inplace=False, verbose=False: (E.prove("common", bool(spws) and bool(polpairs) and not blpairs and not times), uvps)[1]
        interp.CONTRACTS[grouping.average_spectra] = lambda u, blpair_groups=None, blpair_weights=None, time_avg=False, inplace=True, **k: (rec.append((u, blpair_groups, blpair_weights, time_avg, inplace)), len(rec))[1]
        r, w = call(grouping.bootstrap_average_blpairs, us if len(us) > 1 else us[0], groups, time_avg=True, seed=7)
        E.prove("seed", seeds == [7]); E.prove("averages", r == list(range(1, len(us) + 1)) if len(us) > 1 else r == 1); w = w if len(us) > 1 else [w]
        for n, (u, g, wt, ta, ip) in enumerate(rec): E.prove("object", u is us[n] and ta is True and ip is False and len(w[n]) == len(groups)); E.prove("members", [list(map(int, x)) for x in g] == [[b for b in grp if b in have[n]] for grp in groups])
        for q, grp in enumerate(groups):
            pool = [(n, b) for n in range(len(us)) for b in grp if b in have[n]]; f, high, size = draws[q]; E.prove("as_many_draws_as_members", (high, size) == (len(pool), len(pool))); at = {n: 0 for n in range(len(us))}
            for p, (n, b) in enumerate(pool):
                k = at[n]; at[n] += 1; want = z3.Sum([z3.If(f(i) == p, z3.RealVal(1), z3.RealVal(0)) for i in range(size)])
                for got in (rec[n][2][q][k], w[n][q][k]): E.prove_eq("times_drawn", got, mk('f', want))
    h.__name__ = "bootstrap_" + "_".join(str(len(g)) for g in groups) + "_of_" + "_".join(str(len(x)) for x in have); return h
for _g, _h in [([[7, 3, 5]], [[3, 5, 7]]), ([[3], [5, 7]], [[3, 3, 5, 7]]), ([[3, 5]], [[3, 5], [5, 3]]), ([[5, 3], [9]], [[3, 9], [9, 5]])]: PROP.proof(budget=60, bounded="one or two objects of up to three members per group; any draws")(bootstrap(_g, _h))
# ------------------------------------------------------------------ run-time contract cases
@PROP.case(quick=300, thorough=6000)
def groups_and_samples(rng):
    """group_baselines and sample_baselines on lists of any length, with and without remainder, randomised with and without a seed"""
    n = rng.randrange(0, 14); bls = [(i, i + rng.randrange(1, 5)) for i in range(n)]; rng.shuffle(bls); b0 = list(bls); G = rng.randrange(1, 16); keep, rnd = rng.coin(.5), rng.coin(.5); seed = rng.choice([None, 0, 1, 10**6])
    try: r = grouping.group_baselines(bls, G, keep_remainder=keep, randomize=rnd, seed=seed)
    except ValueError: require(G > n, "refused", f"{n} baselines into {G} groups refused"); return "refused"
    require(bls == b0, "original", "the list given was changed"); require(G <= n, "too_many", "more groups than baselines"); flat = [b for g in r for b in g]; require(len(r) == G and [len(g) for g in r] == [n // G + (n % G if keep and i == G - 1 else 0) for i in range(G)], "sizes", lambda: f"{n} baselines into {G}: sizes {[len(g) for g in r]}")
    require(len(set(flat)) == len(flat) and set(flat) <= set(bls) and (not keep or len(flat) == n), "members", lambda: f"{flat} from {bls}"); require(rnd or flat == bls[:len(flat)], "order", "not in the order given")
    if rnd and seed is not None: require(grouping.group_baselines(bls, G, keep_remainder=keep, randomize=rnd, seed=seed) == r, "seed", "equal seeds give different groups")
    pool = bls if rng.coin(.5) else r; s = grouping.sample_baselines(pool, seed=seed); require(len(s) == len(pool) and all(x in pool for x in s), "sample", lambda: f"sample {s} of {pool}")
    if seed is not None: require(grouping.sample_baselines(pool, seed=seed) == s, "seed", "equal seeds give different samples")
    return f"{n} in {G}"
@PROP.case(quick=300, thorough=6000)
def redundancy(rng):
    """get_blvec_reds on vectors (two or three components) clustered within and around the tolerance, by vector or by length, and on objects"""
    tol = rng.choice([.5, 1.0, 3.0]); ob = rng.coin(.3); by_len = rng.coin(.3)
    if ob:
        u = bld(rng, nblp=rng.randrange(1, 6), nspw=1, npol=1); r, ln, an, tg = utils.get_blvec_reds(u, bl_error_tol=tol, match_bl_lens=by_len); V = dict(zip(u.bl_array.tolist(), u.get_ENU_bl_vecs()[:, :2])); vec = {p: (V[u.antnums_to_bl(p[0])] + V[u.antnums_to_bl(p[1])]) / 2 for p in u.get_blpairs()}
    else:
        c = [np.array([rng.choice([0, 14.6, -14.6, 900, 1200.]), rng.choice([0, 30.0, -30, 1500])]) for _ in range(rng.randrange(1, 4))]; three = rng.coin(.5)
        vec = {(i, i + 1): np.concatenate([rng.choice(c) + np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * rng.choice([0, .2, 1.0]) * tol, [rng.uniform(-9, 9)] if three else []]) for i in range(rng.randrange(1, 10))}; v0 = copy.deepcopy(vec); r, ln, an, tg = utils.get_blvec_reds(vec, bl_error_tol=tol, match_bl_lens=by_len); require(list(vec) == list(v0) and all(same(vec[k], v0[k]) for k in vec), "original", "the vectors given were changed")
    flat = [b for g in r for b in g]; require(sorted(flat) == sorted(vec) and all(r), "partition", lambda: f"groups {r} of {sorted(vec)}"); require(len(r) == len(ln) == len(an) == len(tg), "lengths", "lists of different lengths"); first = [vec[g[0]][:2] for g in r]; L = lambda v: float(np.hypot(v[0], v[1]))
    for g, f, l in zip(r, first, ln):
        require(abs(l - L(f)) < 1e-9 * (1 + l), "length", lambda: f"group of {f} has length {l}")
        for b in g: d = abs(L(vec[b][:2]) - L(f)) if by_len else np.max(np.abs(vec[b][:2] - f)); require(d <= tol * (1 + 1e-9), "within", lambda: f"{vec[b]} in the group of {f}, tolerance {tol}")
    for i, f in enumerate(first):
        for k, g in enumerate(first[:i]): d = abs(L(f) - L(g)) if by_len else np.max(np.abs(f - g)); require(d > tol * (1 - 1e-9), "separate", lambda: f"groups of {f} and {g} within {tol} of each other")
    return f"{len(r)} groups"
@PROP.case(quick=120, thorough=2500)
def bootstraps(rng):
    """bootstrap averages of one or several objects (different baseline-pairs, polarizations or windows), from seeds; error estimates of resampled averages"""
    ta = rng.coin(.5); k = rng.choice([1, 1, 2, 3]); u = bld(rng, nblp=rng.randrange(1, 6), order="blp"); pairs = list(dict.fromkeys(u.blpair_array.tolist())); us, pols = [], u.polpair_array.tolist()
    for _ in range(k):
        own = [p for p in pairs if rng.coin(.8)] or pairs if k > 1 else pairs; us.append(u.select(blpairs=own, polpairs=pols if k == 1 or len(pols) == 1 or rng.coin(.7) else pols[:1], inplace=False)); us[-1].data_array = {s: v + len(us) for s, v in us[-1].data_array.items()}
    avail = [list(dict.fromkeys(x.blpair_array.tolist())) for x in us]; sh = [p for p in pairs if any(p in a for a in avail)]; rng.shuffle(sh); gs = []
    while sh and (not gs or rng.coin(.7)): n = rng.randrange(1, len(sh) + 1); gs.append(sh[:n]); sh = sh[n:]
    arg = [[u.blpair_to_antnums(b) for b in g] for g in gs] if rng.coin(.4) else copy.deepcopy(gs); a0 = copy.deepcopy(arg); pre = [snapshot(x) for x in us]; seed = rng.choice([0, rng.randrange(0, 10**6)])
    def go(): return grouping.bootstrap_average_blpairs(us if k > 1 else us[0], arg, time_avg=ta, seed=seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: r, w = go()
        except (ValueError, IndexError) as e: require(k > 1, "refused", lambda: f"bootstrap of one object refused: {e}"); return "nothing drawn of a group in one object"      # no average of no spectra
        r2, w2 = go()
    require(arg == a0 and not any(diff(p, snapshot(x)) for p, x in zip(pre, us)), "original", "the objects or groups given were changed"); L = lambda x: x if k > 1 else [x]; require(w == w2 and all(not diff(snapshot(x), snapshot(y)) for x, y in zip(L(r), L(r2))), "seed", "equal seeds give different draws")
    common = set(pols)
    for x in us: common &= set(x.polpair_array.tolist())
    for q, g in enumerate(gs): tot = sum(sum(x[q]) for x in L(w)); n = sum(len([b for b in g if b in a]) for a in avail); require(tot == n and all(v >= 0 and v == int(v) for x in L(w) for v in x[q]), "draws", lambda: f"{tot} draws of {n} members: {[x[q] for x in L(w)]}")
    for x, a, res, ww in zip(us, avail, L(r), L(w)):
        mine = [[b for b in g if b in a] for g in gs]; require([len(g) for g in mine] == [len(v) for v in ww], "weights", "weights are not those of the members"); rest = [b for b in a if not any(b in g for g in gs)]
        copies = [[b for b, v in zip(g, vs) for _ in range(int(v))] for g, vs in zip(mine, ww)]; sel = x.select(polpairs=[p for p in pols if p in common], inplace=False)
        for g, cp in zip(mine, copies):
            with warnings.catch_warnings(): warnings.simplefilter("ignore"); want = grouping.average_spectra(sel, blpair_groups=[cp], time_avg=ta, inplace=False)
            for s in range(res.Nspws):
                for p in res.polpair_array: require(np.allclose(res.get_data((s, g[0], p)), want.get_data((s, cp[0], p)), rtol=1e-8, atol=1e-12), "average", lambda: f"bootstrap of {g} drawn as {cp}"); require(np.allclose(res.get_nsamples((s, g[0], p)), want.get_nsamples((s, cp[0], p)), rtol=1e-9), "samples", lambda: f"sample counts of {cp}")
        require(sorted(set(res.blpair_array.tolist())) == sorted([g[0] for g in mine] + rest), "pairs", "baseline-pairs of the average"); require(res.polpair_array.tolist() == sel.polpair_array.tolist(), "common", "polarizations of the average")
    if k == 1 and rng.coin(.4):
        n = rng.randrange(2, 6); x = us[0]; ci = rng.choice([None, [16., 84.]]); rob = rng.coin(.5); h = lambda: grouping.bootstrap_resampled_error(x, blpair_groups=copy.deepcopy(gs), time_avg=ta, Nsamples=n, seed=seed, normal_std=True, robust_std=rob, cintervals=ci)
        with warnings.catch_warnings(), np.errstate(all="ignore"): warnings.simplefilter("ignore"); av, boots, wg = h(); av2, boots2, wg2 = h(); plain = grouping.average_spectra(x, blpair_groups=copy.deepcopy(gs), time_avg=ta, inplace=False)
        require(len(boots) == len(wg) == n and wg == wg2, "resamples", "number of resamples, or draws of equal seeds")
        for key in plain.get_all_keys():
            require(same(av.get_data(key), plain.get_data(key)), "plain_average", "the average is not the plain average"); D = np.array([b.get_data(key) for b in boots]); st = av.get_stats("bs_std", key); require(np.allclose(st, D.real.std(0) + 1j * D.imag.std(0), atol=1e-12), "bs_std", "bs_std is not the spread of the resamples")
            for c in ci or (): v = av.get_stats(f"bs_cinterval_{c:05.2f}", key); require(np.allclose(v, np.percentile(D.real, c, axis=0) + 1j * np.percentile(D.imag, c, axis=0), atol=1e-12), "bs_cinterval", "percentile of the resamples")
        for b, v in zip(boots, wg): want = grouping.average_spectra(x, blpair_groups=copy.deepcopy(gs), blpair_weights=v, time_avg=ta, inplace=False); require(not diff({k: y for k, y in snapshot(want).items() if k != "history"}, {k: y for k, y in snapshot(b).items() if k != "history"}), "resample", "a resample is not the average with its weights")
    return f"{k} objects"
@PROP.case(quick=25, thorough=400)
def bootstrap_container(rng):
    """bootstrap_run on a container (kept in memory): every asked spectrum of every group is resampled from the seed, its average and samples stored in its group"""
    from hera_pspec import PSpecContainer
    class Mem(PSpecContainer):
        def __init__(self): self.swmr, self.d = False, {}
        def groups(self): return list(self.d)
        def spectra(self, g): return list(self.d[g])
        def get_pspec(self, g, n=None): return copy.deepcopy(self.d[g][n])
        def set_pspec(self, g, n, u, overwrite=False): require(overwrite or n not in self.d[g], "overwritten", f"{g}/{n} written over"); self.d[g][n] = u
    m = Mem(); names = [(g, n) for g in ("day1", "day2")[:rng.randrange(1, 3)] for n in ("a", "b")[:rng.randrange(1, 3)]]
    for g, n in names: m.d.setdefault(g, {})[n] = bld(rng, nblp=rng.randrange(1, 4), order="blp", nspw=1, npol=1)
    asked = None if rng.coin(.5) else [x for x in names if rng.coin(.6)] or names[:1]; seed, N, keep, ta = rng.choice([0, rng.randrange(0, 999)]), rng.randrange(1, 4), rng.coin(.5), rng.coin(.5); orig = copy.deepcopy(m.d)
    kw = dict(time_avg=ta, Nsamples=N, seed=seed, normal_std=True, robust_std=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); grouping.bootstrap_run(m, spectra=asked and [f"{g}/{n}" for g, n in asked], keep_samples=keep, overwrite=False, verbose=False, **kw)
        want = set(names)
        for g, n in asked or names:
            av, boots, _ = grouping.bootstrap_resampled_error(copy.deepcopy(orig[g][n]), **kw); out = {n + "_avg": av, **({n + f"_bs{i}": b for i, b in enumerate(boots)} if keep else {})}
            for k, v in out.items(): want.add((g, k)); require(k in m.d[g] and not diff(snapshot(v), snapshot(m.d[g][k])), "stored", lambda: f"{g}/{k} is not what its seed gives")
    require({(g, n) for g in m.d for n in m.d[g]} == want, "spectra", lambda: f"spectra {[(g, n) for g in m.d for n in m.d[g]]}, expected {want}"); require(all(not diff(snapshot(orig[g][n]), snapshot(m.d[g][n])) for g, n in names), "originals", "a spectrum was changed")
    return f"{len(names)}"
