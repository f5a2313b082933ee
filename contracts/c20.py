from .base import *
PROP = Prop("C20", "deductive verification (VCs generated from the source, assumed redundancy and UVData contracts, z3) with bounded run-time contract cases",
            ["hera_cal.redcal.get_pos_reds groups the antenna pairs of a position dictionary by separation (assumed contract; its real groups are used in the run-time cases)",
             "UVData.get_flags / get_antpairs / baseline_to_antnums and Telescope.get_enu_antpos report the object's own contents (assumed; real objects in the run-time cases)",
             "the listed baselines are distinct"])
LEVEL = "other"
NOTE = "Deductive proof for arbitrary antenna numbers, lengths, angles, cuts and flags, bounded in the number of baselines (up to 4), groups (3) and antennas (3): pairs formed, exclusions, sub-groups, cuts on redundant groups and the antennas dropped for their flags. Whole UVData objects are checked by bounded run-time contract cases. Trusts the VC generator, redcal.get_pos_reds and z3."
import itertools, warnings
import numpy as np
from hera_pspec import utils
from hera_cal import redcal

def wanted(bls, no_auto, no_cross, no_perm):
    """allowed pairs, as index pairs into bls"""
    n = range(len(bls))
    return [(i, j) for i in n for j in n if not (no_auto and i == j) and not (no_cross and i != j) and not (no_perm and i > j)]
def pairing(n):
    def h():
        from .sym import E, sint, call, z3, zi, as_int
        for no_auto, no_cross, no_perm in itertools.product((False, True), repeat=3):
            if no_auto and no_cross: continue
            for size in (None, 1, 2, 3, 5):
                t = f"{int(no_auto)}{int(no_cross)}{int(no_perm)}/{size}"
                bls = [(sint(f"a{i}"), sint(f"b{i}")) for i in range(n)]; code = {id(x): i for i, x in enumerate(bls)}
                for i in range(n):
                    for j in range(i): E.assume(z3.Or(zi(as_int(bls[i][0])) != zi(as_int(bls[j][0])), zi(as_int(bls[i][1])) != zi(as_int(bls[j][1]))))
                b1, b2, p = call(utils.construct_blpairs, list(bls), exclude_auto_bls=no_auto, exclude_cross_bls=no_cross, exclude_permutations=no_perm, **({} if size is None else {"group": True, "Nblps_per_group": size}))
                want = wanted(bls, no_auto, no_cross, no_perm)
                if size is not None:
                    sizes = [len(x) for x in p]
                    E.prove(t + ".group_sizes", sizes == [len(x) for x in b1] == [len(x) for x in b2] and all(s == size for s in sizes[:-1]) and all(0 < s <= size for s in sizes))
                    b1, b2, p = (sum((list(x) for x in y), []) for y in (b1, b2, p))
                E.prove(t + ".count", len(b1) == len(b2) == len(p) == len(want))
                got = [(code.get(id(x[0])), code.get(id(x[1]))) for x in p]
                E.prove(t + ".each_once", sorted(got, key=str) == sorted(want, key=str)); E.prove(t + ".lists", all(x[0] is y and x[1] is z for x, y, z in zip(p, b1, b2)))
    h.__name__ = f"pairs_of_{n}_baselines"
    return h
for _n in (1, 2, 3, 4): PROP.proof(bounded=f"{_n} baselines, sub-groups of 1, 2, 3 and 5", budget=300)(pairing(_n))
@PROP.proof()
def refusals():
    from .sym import E, call
    for bls, kw in (([1, 2], {}), (((0, 1),), {}), ([(0, 1)], dict(exclude_auto_bls=True, exclude_cross_bls=True)), ([[0, 1]], {})):
        try: call(utils.construct_blpairs, bls, **kw); r = False
        except AssertionError: r = True
        E.prove(f"refused {bls} {sorted(kw)}", r)
GROUPS = [[(0, 1), (1, 2)], [(0, 2)], [(2, 3), (0, 3)]]
def cutting(autos, autos_only, xants):
    def h():
        from .sym import E, sreal, call, interp, A, z3, to_real, to_bool, SArr
        import dv.arrays as arrays
        pos = {a: np.array([float(a), 0., 0.]) for a in range(4)}; L = [sreal(f"len{i}") for i in range(3)]; G = [sreal(f"ang{i}") for i in range(3)]; lo, hi, al, ah = (sreal(x) for x in ("lo", "hi", "al", "ah"))
        seen = []
        interp.CONTRACTS[redcal.get_pos_reds] = lambda p, bl_error_tol=1.0, include_autos=False: seen.append((p, bl_error_tol)) or [list(g) for g in GROUPS]
        interp.CONTRACTS[utils.get_bl_lens_angs] = lambda v, bl_error_tol=1.0: seen.append((np.asarray(v), bl_error_tol)) or (L, G)
        reds, lens, angs = call(utils.get_reds, pos, bl_error_tol=2.5, bl_len_range=(lo, hi), bl_deg_range=(al, ah), add_autos=autos, autos_only=autos_only, xants=xants)
        E.prove("tolerance", all(x[1] == 2.5 for x in seen) and seen[0][0] is pos)
        E.prove("vectors", np.array_equal(seen[1][0][:, 0], [float(g[0][0] - g[0][1]) for g in GROUPS]))
        X = xants or []
        live = lambda g: [b for b in g if b[0] not in X and b[1] not in X]
        R = lambda x: to_real(x)
        inside = [z3.And(R(L[i]) >= R(lo), R(L[i]) <= R(hi), R(G[i]) >= R(al), R(G[i]) <= R(ah)) for i in range(3)]
        got = [list(g) for g in reds]; E.prove("aligned", len(got) == len(list(lens)) == len(list(angs)))
        at = lambda s, i: s.at(i) if isinstance(s, SArr) else s[i]
        k = 0
        if autos:
            first = live([(a, a) for a in pos])
            E.prove("autos", (got[0] == first) if got else not first)
            if got: E.prove("auto_length", z3.And(R(at(lens, 0)) == 0, R(at(angs, 0)) == 0)); k = 1
        for i, g in enumerate(GROUPS):
            want = live(g); here = k < len(got) and got[k] == want
            if autos_only or not want: E.prove(f"excluded{i}", not here or not want); continue
            E.prove(f"kept_iff_inside{i}", inside[i] if here else z3.Not(inside[i]))
            if here: E.prove(f"length{i}", z3.And(R(at(lens, k)) == R(L[i]), R(at(angs, k)) == R(G[i]))); k += 1
        E.prove("nothing_else", k == len(got))
    h.__name__ = f"redundant_groups_within_cuts_{'autos' if autos else 'crosses'}{'_only' if autos_only else ''}_{'x' + '_'.join(map(str, xants)) if xants else 'all'}"
    return h
for _a, _o in ((False, False), (True, False), (True, True), (False, True)):
    for _x in (None, [1], [0, 2]): PROP.proof(bounded="3 redundant groups of 4 antennas; lengths, angles and cuts arbitrary", budget=300)(cutting(_a, _o, _x))
class Telescope:
    def __init__(s, ants): s.antenna_numbers = np.array(ants)
    def get_enu_antpos(s): return np.array([[float(a), 0., 0.] for a in s.antenna_numbers])
class Data:
    """the part of UVData that pairing uses, with arbitrary flags"""
    def __init__(s, name, bls, ants=(0, 1, 2)):
        from .sym import arrays, z3, mk
        s.telescope = Telescope(ants); s.bls = list(bls); s.baseline_array = np.array([2048 * (b[0] + 1) + b[1] + 1 + 2 ** 16 for b in bls]); s.flags, s.flag_array = {}, True; s.name = name
        for b in bls: s.flags[b] = (None, z3.Real(f"flagged_{name}_{b[0]}_{b[1]}"))
    def baseline_to_antnums(s, bl): b = int(bl) - 2 ** 16; return (b // 2048 - 1, b % 2048 - 1)
    def get_antpairs(s): return list(s.bls)
    def get_flags(s, bl): return Flags(s.flags[s.baseline_to_antnums(bl)][1])
class Flags:
    """a waterfall of 6 x 10 x 1 flags of which an arbitrary number is set"""
    def __init__(s, n): s.n, s.shape = n, (6, 10, 1)
def flagging(bls1, bls2, autos, hand):
    def h():
        from .sym import E, sreal, call, interp, z3, to_real, mk
        u1, u2 = Data("1", bls1), Data("2", bls2); thr = sreal("threshold"); seen = {}
        interp.CONTRACTS[np.sum] = lambda x, *a, **k: mk('f', x.n) if isinstance(x, Flags) else interp.MODELS[np.sum](x, *a, **k)
        def reds(antpos, **kw): seen.update(kw); return [[(0, 1), (1, 2)], [(0, 2)]], [1., 2.], [0., 0.]
        interp.CONTRACTS[utils.get_reds] = reds
        b1, b2, p, x1, x2 = call(utils.calc_blpair_reds, u1, u2, xant_flag_thresh=thr, include_autocorrs=autos, xants=list(hand) if hand else None, bl_tol=1.5, bl_len_range=(3, 4), bl_deg_range=(5, 6))
        for tag, u, x in (("1", u1, x1), ("2", u2, x2)):
            for a in range(3):
                good = z3.Or([u.flags[b][1] < 60 * to_real(thr) for b in u.bls if a in b and (autos or b[0] != b[1])] or [z3.BoolVal(False)])
                if a in (hand or ()): E.prove(f"hand_{tag}_{a}", a in x)
                else: E.prove(f"flagged_antenna_{tag}_{a}", z3.Not(good) if a in x else good)
        E.prove("dropped", set(seen["xants"]) == set(x1) | set(x2)); E.prove("options", (seen["bl_error_tol"], seen["bl_len_range"], seen["bl_deg_range"], seen["add_autos"], seen["autos_only"]) == (1.5, (3, 4), (5, 6), autos, False))
        has = lambda u, b: b in u.bls or b[::-1] in u.bls
        want = [(g[i], g[j]) for g in ([(0, 1), (1, 2)], [(0, 2)]) for i in range(len(g)) for j in range(i, len(g)) if has(u1, g[i]) and has(u2, g[j])]
        E.prove("pairs", sorted(p) == sorted(want) and list(zip(b1, b2)) == list(p))
    h.__name__ = f"flagged_antennas_{len(bls1)}_{len(bls2)}_{int(autos)}_{len(hand or ())}"
    return h
for _b in (([(0, 1), (1, 2), (0, 2)], [(0, 1), (1, 2)]), ([(1, 0), (1, 1)], [(0, 1), (0, 2)]), ([(0, 1), (2, 2)], [(0, 0), (2, 1), (0, 1)])):
    for _a in (False, True): PROP.proof(bounded="3 antennas, up to 3 baselines per data set; flags and threshold arbitrary", budget=300)(flagging(*_b, _a, [2] if _a else None))
# ------------------------------------------------------------------ run-time contract cases
@PROP.case(quick=150, thorough=4000)
def pair_lists(rng):
    """lists of 1-12 distinct baselines (reversed ones and autocorrelations included), every option, sub-groups of 1-20 pairs"""
    n = rng.randrange(1, 13); bls = list({(rng.randrange(6), rng.randrange(6)) for _ in range(n)}); rng.shuffle(bls)
    no = [rng.coin(.4), rng.coin(.3), rng.coin()]
    if no[0] and no[1]: no[rng.randrange(2)] = False
    size = rng.choice([None, None, 1, 2, 3, 7, 20]); arg = list(bls); kw = dict(zip(("exclude_auto_bls", "exclude_cross_bls", "exclude_permutations"), no))
    b1, b2, p = utils.construct_blpairs(arg, **kw, **({} if size is None else dict(group=True, Nblps_per_group=size)))
    require(arg == bls, "input", "the list of baselines was changed"); what = lambda: f"construct_blpairs({bls}, {kw}, group {size})"
    if size is not None:
        require([len(x) for x in p] == [len(x) for x in b1] == [len(x) for x in b2] and all(len(x) == size for x in p[:-1]) and all(0 < len(x) <= size for x in p), "groups", lambda: f"{what()}: sub-group sizes {[len(x) for x in p]}")
        b1, b2, p = (sum(map(list, x), []) for x in (b1, b2, p))
    want = [(bls[i], bls[j]) for i, j in wanted(bls, *no)]
    require(sorted(p) == sorted(want), "pairs", lambda: f"{what()}: missing {sorted(set(want) - set(p))}, extra or repeated {sorted(x for x in p if x not in want or p.count(x) > 1)}")
    require(list(zip(b1, b2)) == list(p), "lists", lambda: f"{what()}: the two lists do not match the pairs")
    return f"{len(bls)} baselines"
@PROP.case(quick=60, thorough=2000)
def redundant_pairs(rng):
    """pairs of UVData objects with different baselines (some reversed, autocorrelations), flags per baseline around the threshold, hand-flagged antennas, length and angle cuts, sub-groups; arrays of 5-7 antennas"""
    from .uvd import make, HEX
    ants = HEX if rng.coin(.6) else tuple((a, 14.6 * (i % 3) + rng.choice([0, 0, .3]), 12.6 * (i // 3)) for i, a in enumerate(rng.sample(range(20), rng.choice([5, 6, 7]))))
    nums = [a[0] for a in ants]; pos = {a: np.array([x, y]) for a, x, y in ants}
    def some():
        out = {tuple(rng.sample(nums, 2)) for _ in range(rng.randrange(3, 12))} | {(a, a) for a in nums if rng.coin(.3)}
        return sorted({b for b in out if b[::-1] not in out or b <= b[::-1]})
    thr = rng.choice([.95, .5, .8, 1.0]); us = []; bad = []
    for k in range(2):
        bls = some(); u = make(rng, bls=bls, ants=ants, Nt=2, Nf=10); u.flag_array[:] = False; frac = {}
        for b in bls:
            f = rng.choice([0, 0, 0.3, .5, .8, .95, 1.0, 1.0]); m = np.zeros(20, bool); m[:int(round(20 * f))] = True; i = np.where((u.ant_1_array == b[0]) & (u.ant_2_array == b[1]))[0]; frac[b] = m.mean(); rng.np().shuffle(m)
            u.flag_array[i] = m.reshape(2, 10, 1)
        us.append((u, bls, frac))
    autos, crosses = rng.choice([(False, True), (False, True), (True, True), (True, False), (False, False)]); filt = rng.coin(.75); hand = rng.sample(nums, rng.choice([0, 0, 1, 2])) or None; keep_hand = hand and list(hand)
    kw = dict(xant_flag_thresh=thr, filter_blpairs=filt, include_autocorrs=autos, include_crosscorrs=crosses, xants=hand, exclude_permutations=rng.coin(), exclude_auto_bls=rng.coin(.3), bl_tol=1.0)
    if not kw["exclude_auto_bls"]: kw["exclude_cross_bls"] = rng.coin(.2)
    if rng.coin(.4): kw["bl_len_range"] = rng.choice([(0, 20), (14, 15), (20, 40), (0, 14)])
    if rng.coin(.4): kw["bl_deg_range"] = rng.choice([(0, 90), (10, 100), (50, 70), (90, 180)])
    size = rng.choice([None, None, 1, 2, 3])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); b1, b2, p, x1, x2, rg, lens, angs = utils.calc_blpair_reds(us[0][0], us[1][0], Nblps_per_group=size, extra_info=True, **kw)
    what = lambda: f"data sets with {us[0][1]} and {us[1][1]}, flagged fractions {us[0][2]}, {us[1][2]}, antennas {ants}, {kw}, sub-groups {size}"
    require(hand == keep_hand, "input", lambda: f"{what()}: the list of excluded antennas was changed to {hand}")
    if size is not None:
        require(all(0 < len(x) <= size for x in p) and [len(x) for x in p] == [len(x) for x in b1] == [len(x) for x in b2] == [len(x) for x in rg] and all(len({i for i in r}) == 1 for r in rg), "groups", what)
        b1, b2, p, rg = (sum(map(list, x), []) for x in (b1, b2, p, rg))
    require(list(zip(b1, b2)) == list(p) and len(rg) == len(p), "lists", what)
    for (u, bls, frac), x in zip(us, (x1, x2)):
        want = set(hand or ())
        if filt: want |= {a for a in nums if not any(a in b and f < thr - 1e-9 for b, f in frac.items() if (b[0] != b[1] and crosses) or (b[0] == b[1] and autos))}
        require(set(x) == want, "antennas", lambda: f"{what()}: excluded antennas {sorted(x)}, expected {sorted(want)}")
    X = set(x1) | set(x2)
    reds = redcal.get_pos_reds(dict(zip(us[0][0].telescope.antenna_numbers, us[0][0].telescope.get_enu_antpos())), bl_error_tol=1.0)
    want = set(); dlo, dhi = kw.get("bl_deg_range", (0, 180)); llo, lhi = kw.get("bl_len_range", (0, 1e10)); E = dict(zip(us[0][0].telescope.antenna_numbers, us[0][0].telescope.get_enu_antpos()))
    groups = []
    if autos: groups.append(([(a, a) for a in nums], 0., 0.))
    for g in reds if crosses else []:
        v = E[g[0][0]] - E[g[0][1]]; l = np.linalg.norm(v); a = np.degrees(np.arctan2(v[1], v[0])); a = (a + 180) % 360 if a < 0 else a
        if v[0] > 0 and -1 < v[1] < 0: a = 0.
        if llo <= l <= lhi and dlo <= a <= dhi: groups.append((g, l, a))
    has = lambda k, b: not filt or b in us[k][1] or b[::-1] in us[k][1]
    for g, l, a in groups:
        g = [b for b in g if b[0] not in X and b[1] not in X]
        want |= {(g[i], g[j]) for i, j in wanted(g, kw["exclude_auto_bls"], kw.get("exclude_cross_bls", False), kw["exclude_permutations"]) if has(0, g[i]) and has(1, g[j])}
    require(set(p) == want and len(set(p)) == len(p), "pairs", lambda: f"{what()}: missing {sorted(want - set(p))}, extra {sorted(set(p) - want)}, {len(p) - len(set(p))} repeated")
    for q, r in zip(p, rg):
        for b in q:
            v = E[b[0]] - E[b[1]]; require(abs(np.linalg.norm(v) - lens[r]) < 2.0, "redundant_group", lambda: f"{what()}: {q} is said to be in group {r} of length {lens[r]}")
    return f"{len(p)} pairs of {len(groups)} groups"
@PROP.case(quick=10, thorough=100)
def positions_disagree(rng):
    """data sets whose antenna positions differ by more than the tolerance are refused"""
    from .uvd import make, HEX
    k = rng.randrange(5); tol = rng.choice([.5, 1.0, 3.0]); far = rng.coin(); moved = tuple((a, x + (tol * (1.2 if far else .5) if i == k else 0), y) for i, (a, x, y) in enumerate(HEX))
    u1, u2 = make(rng), make(rng, ants=moved)
    try: utils.calc_blpair_reds(u1, u2, bl_tol=tol); r = False
    except AssertionError: r = True
    require(r == far, "positions", f"antenna {k} moved by {'more' if far else 'less'} than the tolerance {tol}: {'refused' if r else 'accepted'}")
    return str(far)
