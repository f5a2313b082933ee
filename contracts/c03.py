from .base import *
PROP = Prop("C03", "deductive verification (VCs generated from the source, modular accessor contracts, z3)",
            ["polarization-pairs stored in an object are distinct", "every window has at least 3 delays"])
LEVEL = "proof"
NOTE = 'Unbounded proof (any number of rows, windows, polarizations, delays) for the index look-ups and for every get_* accessor modulo the look-up contract. List, string and window-tuple forms are covered only by bounded run-time contract cases. Assumes stored polarization-pairs are distinct. Trusts the VC generator, its numpy model and z3.'
import numpy as np
from hera_pspec import uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec

def setup(folded=False, S=None, P=None):
    from .sym import blank, Family, dim, nd, E, z3, mk, sarr, ifun
    u = blank(); d = u.__dict__
    S, N, P, NF, ND = S or dim("Nspws"), dim("Nblts"), P or dim("Npols"), dim("Nspwfreqs"), dim("Nspwdlys")
    nd_, nf_ = ifun("Nd", 3), ifun("Nf", 1)
    d.update(Nspws=nd(S), Nbltpairs=nd(N), Npols=nd(P), Nspwfreqs=nd(NF), Nspwdlys=nd(ND), folded=folded, exact_windows=False)
    d['blpair_array'] = sarr("blp", (N,), 'i'); d['polpair_array'] = sarr("pol", (P,), 'i')
    d['spw_freq_array'] = sarr("spwf", (NF,), 'i'); d['spw_dly_array'] = sarr("spwd", (ND,), 'i'); d['spw_array'] = sarr("spwa", (S,), 'i')
    d['dly_array'] = sarr("dly", (ND,), 'f'); d['freq_array'] = sarr("freq", (NF,), 'f'); d['time_avg_array'] = sarr("tavg", (N,), 'f')
    a, b = z3.Int("qa"), z3.Int("qb"); p = lambda t: d['polpair_array'].at(t).e
    E.fact(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < P, b >= 0, b < P, p(a) == p(b)), a == b), patterns=[z3.MultiPattern(p(a), p(b))]))
    f = {}
    f['data_array'] = Family("data", S, lambda s: (N, nd_(s), P), 'c'); f['wgt_array'] = Family("wgt", S, lambda s: (N, nf_(s), 2, P))
    f['integration_array'] = Family("integ", S, lambda s: (N, P)); f['nsample_array'] = Family("nsamp", S, lambda s: (N, P))
    f['cov_array_real'] = Family("covr", S, lambda s: (N, nd_(s), nd_(s), P)); f['cov_array_imag'] = Family("covi", S, lambda s: (N, nd_(s), nd_(s), P))
    f['window_function_array'] = Family("wf", S, lambda s: (N, nd_(s), nd_(s), P))
    for k, v in f.items(): d[k] = v.dict()
    f['stat'] = Family("stat", S, lambda s: (N, nd_(s), P), 'c')
    from .sym import interp
    d['stats_array'] = interp.created({"P_N": f['stat'].dict()})
    return u, f, (S, N, P, NF, ND), nd_, nf_
def index_contract(tag, ind, pred, n, must=None):
    """`ind` enumerates exactly the positions 0..n-1 that satisfy pred, in increasing order"""
    from .sym import E, z3, idx, A, mk, And, zi, as_int
    ind = A(ind); m = zi(ind.shape_[0])
    i = z3.Int(f"{tag}_i"); i2 = z3.Int(f"{tag}_i2"); j = z3.Int(f"{tag}_j")
    mark = len(E.pc)
    E.pc += [i >= 0, i < m]
    v = zi(as_int(ind.at(i)))
    E.prove(f"{tag}_in_range", z3.And(v >= 0, v < n))
    E.prove(f"{tag}_only_matching", pred(v))
    E.pc += [i2 > i, i2 < m]
    E.prove(f"{tag}_stored_order", v < zi(as_int(ind.at(i2))))
    del E.pc[mark:]
    E.pc += [j >= 0, j < n, (must or pred)(j)]
    if z3.is_int_value(z3.simplify(m)):
        E.prove(f"{tag}_all_matching", z3.Or(*[zi(as_int(ind.at(x))) == j for x in range(z3.simplify(m).as_long())])); del E.pc[mark:]; return
    ranks = []; a = ind
    while 'picked' in a.meta: ranks.insert(0, a.meta['picked'][1].meta['emb']['rank']); a = a.meta['picked'][0]
    if 'emb' in a.meta: ranks.insert(0, a.meta['emb']['rank'])
    else: ranks = []
    if ranks:
        r = j
        for k in ranks: r = zi(as_int(k(r)))
        E.prove(f"{tag}_all_matching", z3.And(r >= 0, r < m, zi(as_int(ind.at(r))) == j))
    else:
        recs = [q for q in E.memo.get('masks', []) if q['depth'] == E.bdepth]; one = [q['rank'](j) for q in recs]
        cand = one + [q['rank'](r) for q in recs for r in one] + [r + q['cnt'] for q in recs for r in one]      # candidate positions of row j
        E.prove(f"{tag}_all_matching", z3.Or(*[z3.And(x >= 0, x < m, zi(as_int(ind.at(x))) == j) for x in cand]))
    del E.pc[mark:]

def lookup_proof(form):
    def h():
        from .sym import E, call, raises, sint, z3, zi, as_int
        u, f, (S, N, P, NF, ND), nd_, nf_ = setup()
        b = sint("b"); bz = b.e; at = lambda j: u.blpair_array.at(j).e
        key = {"int": b, "list": [b, sint("b2")]}[form]
        r, ex = raises(u.blpair_to_indices, key)
        bs = [bz] if form == "int" else [bz, z3.Int("b2")]
        if ex is not None:
            E.prove("error_type", isinstance(ex, AssertionError))
            j = z3.Int("jj"); E.pc += [j >= 0, j < N]
            w = z3.Int("ww"); E.pc += [w >= 0, w < N]
            # raised only if some requested pair is absent: not both present
            E.prove("raised_only_if_absent", z3.Not(z3.And(*[at([j, w][n]) == x for n, x in enumerate(bs)])))
        else:
            index_contract("rows", r, lambda j: z3.Or(*[at(j) == x for x in bs]), N)
    h.__name__ = f"blpair_lookup_{form}"
    return h
for _f in ("int", "list"): PROP.proof()(lookup_proof(_f))

def spw_lookup(name, arr, size, cnt):
    def h():
        from .sym import E, call, raises, sint, z3
        u, f, (S, N, P, NF, ND), nd_, nf_ = setup(folded=False)
        s = sint("s0"); at = lambda j: getattr(u, arr).at(j).e; n = dict(NF=NF, ND=ND, S=S)[size]
        r, ex = raises(getattr(u, name), s)
        if ex is not None:
            E.prove("error_type", isinstance(ex, AssertionError))
            j = z3.Int("jj"); E.pc += [j >= 0, j < n]; E.prove("raised_only_if_absent", at(j) != s.e)
        else: index_contract("positions", r, lambda j: at(j) == s.e, n)
    h.__name__ = name + "_lookup"
    return h
for a in (("spw_to_freq_indices", "spw_freq_array", "NF", 0), ("spw_to_dly_indices", "spw_dly_array", "ND", 0), ("spw_indices", "spw_array", "S", 0)): PROP.proof()(spw_lookup(*a))
@PROP.proof()
def time_lookup():
    from .sym import E, call, sreal, z3, rv
    u, f, (S, N, P, NF, ND), nd_, nf_ = setup()
    t = sreal("t"); E.assume(t.e >= 2.4e6, t.e <= 2.6e6); at = lambda j: u.time_avg_array.at(j).e
    r = call(u.time_to_indices, t)
    # a returned row is within 0.1 s of the time asked for; a row at that time is returned
    index_contract("rows", r, lambda j: z3.And(at(j) - t.e < rv(1e-6), t.e - at(j) < rv(1e-6)), N, must=lambda j: at(j) == t.e)
@PROP.proof()
def dly_lookup_folded():
    from .sym import E, raises, sint, z3, rv
    u, f, (S, N, P, NF, ND), nd_, nf_ = setup(folded=True)
    s = sint("s0")
    r, ex = raises(u.spw_to_dly_indices, s)
    if ex is None: index_contract("positive_delays", r, lambda j: z3.And(u.spw_dly_array.at(j).e == s.e, u.dly_array.at(j).e >= rv(1e-10)), ND)
    else: E.prove("error_type", isinstance(ex, AssertionError))
@PROP.proof()
def delays_of_window():
    from .sym import E, call, raises, sint, z3, A, zi, as_int
    u, f, (S, N, P, NF, ND), nd_, nf_ = setup()
    s = sint("s0")
    r, ex = raises(u.spw_to_dly_indices, s)
    if ex is not None: return
    d = A(call(u.get_dlys, s)); i = z3.Int("i"); E.assume(i >= 0, i < zi(A(r).shape_[0]))
    E.prove_eq("delay_values", d.at(i), u.dly_array.at(as_int(A(r).at(i))))
def polpair_proof(form):
    def h():
        from .sym import E, raises, sint, z3, A, zi, as_int
        u, f, (S, N, P, NF, ND), nd_, nf_ = setup()
        at = lambda j: u.polpair_array.at(j).e
        if form == "int": p = sint("p"); key, code = p, p.e
        else:
            a, b = sint("pa", -8, 4), sint("pb", -8, 4); key, code = (a, b), (a.e + 20) * 100 + b.e + 20
        r, ex = raises(u.polpair_to_indices, key)
        if ex is not None:
            E.prove("error_type", isinstance(ex, AssertionError))
            j = z3.Int("jj"); E.pc += [j >= 0, j < P]; E.prove("raised_only_if_absent", at(j) != code)
        else:
            index_contract("positions", r, lambda j: at(j) == code, P)
            m = zi(A(r).shape_[0]); mark = len(E.pc)
            E.prove("not_empty", m >= 1)
            # distinct stored polarization-pairs: two hits would be equal
            e0, e1 = zi(as_int(A(r).at(z3.IntVal(0)))), zi(as_int(A(r).at(z3.IntVal(1))))
            E.pc += [m >= 2]
            E.prove("unique", z3.Not(z3.And(e0 < e1, at(e0) == code, at(e1) == code)))
            E.prove("unique_index_order", z3.And(e0 < e1, at(e0) == code, at(e1) == code))
            del E.pc[mark:]
    h.__name__ = "polpair_lookup_" + form
    return h
for _f in ("int", "tuple"): PROP.proof()(polpair_proof(_f))

def key_proof(omit, form):
    def h():
        from .sym import E, raises, sint, z3, A, zi, as_int, interp, arrays, mk
        u, f, (S, N, P, NF, ND), nd_, nf_ = setup()
        s, b, p = sint("s0", 0), sint("b"), sint("p"); E.assume(s.e < S)
        key = (s, b, p) if form == "tuple" else {"spw": s, "blpair": b, "polpair": p}
        pidx = z3.Int("pol_at")
        def contract(self, pp):
            """contract of polpair_to_indices (proved in polpair_lookup_int): AssertionError iff absent, else the one matching position"""
            E.prove("lookup_gets_the_polpair", z3.And(z3.BoolVal(self is u), zi(as_int(pp)) == p.e))
            w = z3.Int("ww0")
            E.fact(z3.And(pidx >= -1, pidx < P))
            if not E.branch(pidx >= 0):
                E.fact(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < P), u.polpair_array.at(w).e != p.e), patterns=[u.polpair_array.at(w).e])); raise AssertionError("absent")
            E.fact(u.polpair_array.at(pidx).e == p.e)
            return arrays.new((1,), 'i', lambda ix: mk('i', pidx))
        interp.CONTRACTS[UVPSpec.polpair_to_indices] = contract
        r, ex = raises(u.key_to_indices, key, omit_flags=omit)
        at = lambda j: u.blpair_array.at(j).e
        if ex is not None:
            E.prove("error_type", isinstance(ex, AssertionError))
            j, w, x, y = z3.Ints("jj ww xx yy"); E.pc += [j >= 0, j < N, w >= 0, w < P, x >= 0, x < NF, y >= 0, y < ND]
            E.prove("raised_only_if_absent", z3.Not(z3.And(at(j) == b.e, u.polpair_array.at(w).e == p.e, u.spw_freq_array.at(x).e == s.e, u.spw_dly_array.at(y).e == s.e)))
            return
        E.prove_eq("window", r[0], s)
        pi = zi(as_int(r[2]))
        E.prove("pol_index", z3.And(pi >= 0, pi < P)); E.prove("pol_matches", u.polpair_array.at(pi).e == p.e)
        if not omit: index_contract("rows", r[1], lambda j: at(j) == b.e, N)
        else:
            from .sym import rv
            integ = f['integration_array']
            tol = rv(1e-8)
            def keep(j):
                t = integ.old(s.e, j, pi).e; return z3.And(at(j) == b.e, z3.If(t >= 0, t, -t) > tol)
            index_contract("rows", r[1], keep, N)
    h.__name__ = f"key_lookup_{form}{'_omit' if omit else ''}"
    return h
for o, fm in ((False, "tuple"), (True, "tuple"), (False, "dict")): PROP.proof()(key_proof(o, fm))

def accessor_proof(folded):
    def h():
        """each accessor returns exactly the entries key_to_indices names (its contract is proved above)"""
        from .sym import E, call, sint, z3, A, zi, as_int, interp, arrays, mk, idx, nd, sarr
        u, f, (S, N, P, NF, ND), nd_, nf_ = setup(folded)
        s, b, p = sint("s0", 0), sint("b"), sint("p"); E.assume(s.e < S); sz = s.e
        m = z3.Int("m"); E.assume(m >= 1, m <= N); pol = z3.Int("pi"); E.assume(pol >= 0, pol < P)
        ind = sarr("ind", (m,), 'i'); ind.meta['nonneg'] = True
        q = z3.Int("q!0"); E.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(ind.at(q).e >= 0, ind.at(q).e < N)), patterns=[ind.at(q).e]))
        key = (s, b, p)
        def contract(self, k, omit_flags=False):
            E.prove("accessor_passes_its_key", self is u and k is key)
            E.prove("accessor_passes_omit_flags", omit_flags == E.covers.get('omit', omit_flags))
            return s, ind, mk('i', pol)
        interp.CONTRACTS[UVPSpec.key_to_indices] = contract
        # well-formedness: the window's delay count
        n = nd_(sz)
        from dv import npmodel
        interp.CONTRACTS.pop(None, None)
        if folded:
            # number of delays of the window, as counted by the code
            cnt = as_int(call(np.count_nonzero, A(u.spw_dly_array) == s)); E.assume(zi(cnt) == n)
        off = (n - (n - n / 2 - 1)) if folded else z3.IntVal(0)       # first stored delay returned
        w = (n - n / 2 - 1) if folded else n
        i, j, k2 = z3.Ints("i j k2"); E.assume(i >= 0, i < m, j >= 0, j < w, k2 >= 0, k2 < w)
        row = zi(ind.at(i).e)
        for omit in (False, True):
            E.covers['omit'] = omit
            def chk(nm, r, shape, ix, exp):
                r = A(r); E.prove(f"{nm}_rank", r.ndim == len(shape))
                if r.ndim != len(shape): return
                for t, (x, y) in enumerate(zip(r.shape_, shape)): E.prove(f"{nm}_dim{t}", zi(x) == zi(y))
                E.prove_eq(f"{nm}_value", r.at(*ix), exp)
            chk("data", call(u.get_data, key, omit_flags=omit), (m, w), (i, j), f['data_array'].old(sz, row, off + j, pol))
            chk("stats", call(u.get_stats, "P_N", key, omit_flags=omit), (m, w), (i, j), f['stat'].old(sz, row, off + j, pol))
            for c, nm in (("real", "cov_array_real"), ("imag", "cov_array_imag")):
                chk("cov_" + c, call(u.get_cov, key, component=c, omit_flags=omit), (m, w, w), (i, j, k2), f[nm].old(sz, row, off + j, off + k2, pol))
            chk("windows", call(u.get_window_function, key, omit_flags=omit), (m, w, w), (i, j, k2), f['window_function_array'].old(sz, row, off + j, off + k2, pol))
            fq = z3.Int("fq"); E.assume(fq >= 0, fq < nf_(sz))
            for t in (0, 1): chk(f"wgts{t}", A(call(u.get_wgts, key, omit_flags=omit)), (m, nf_(sz), 2), (i, fq, t), f['wgt_array'].old(sz, row, fq, t, pol))
            chk("integrations", call(u.get_integrations, key, omit_flags=omit), (m,), (i,), f['integration_array'].old(sz, row, pol))
            chk("nsamples", call(u.get_nsamples, key, omit_flags=omit), (m,), (i,), f['nsample_array'].old(sz, row, pol))
    h.__name__ = "accessors_folded" if folded else "accessors"
    return h
PROP.proof()(accessor_proof(False)); PROP.proof()(accessor_proof(True))

# ------------------------------------------------------------------ run-time contract cases
@PROP.case(quick=60, thorough=800, rule="random objects (1-3 windows, 1-4 pairs in any row order, missing rows, folded or not, zero integrations): every key of the object in every documented key form; each accessor against a direct filter of the stored rows")
def accessors_return_named_entries(rng):
    from .build import build, snapshot, diff
    u = build(rng, stats=("P_N",), cov=True, wf=True, ragged=rng.coin(), zero_int=rng.choice([0, .3]), ndlys=rng.choice([None, 4, 5, 7]))
    folded = rng.coin()
    if folded: u.fold_spectra()
    o = snapshot(u)
    for _ in range(6):
        s = rng.randrange(u.Nspws); blp = rng.choice(u.get_blpairs()); pi = rng.randrange(u.Npols); omit = rng.coin()
        ppi = int(u.polpair_array[pi]); pp = (ppi // 100 - 20, ppi % 100 - 20); b = (100 + blp[0][0]) * 10 ** 9 + (100 + blp[0][1]) * 10 ** 6 + (100 + blp[1][0]) * 1000 + 100 + blp[1][1]
        from pyuvdata import utils as uvutils
        strs = tuple(uvutils.polnum2str(x) for x in pp)
        forms = [ppi, np.int32(ppi), pp, strs] + ([strs[0]] if pp[0] == pp[1] else [])
        p = rng.choice(forms); bk = rng.choice([b, np.int64(b), blp]); key = rng.choice([(s, bk, p), {"spw": s, "blpair": bk, "polpair": p}])
        rows = [i for i in range(u.Nbltpairs) if o['blpair_array'][i] == b and not (omit and abs(o['integration_array'][s][i, pi]) <= 1e-8)]
        n = o['data_array'][s].shape[1]; sl = slice(n // 2 + 1, None) if folded else slice(None)
        g = u.key_to_indices(key, omit_flags=omit)
        require(g[0] == s and list(g[1]) == rows and int(g[2]) == pi, "key_to_indices", f"{key} -> {g}, stored rows {rows}, polarization {pi}")
        def eq(nm, a, e): require(np.array_equal(np.asarray(a), e), nm, f"{nm} for {key}, omit_flags={omit}, folded={folded}")
        eq("get_data", u.get_data(key, omit_flags=omit), o['data_array'][s][rows][:, sl, pi])
        eq("get_stats", u.get_stats("P_N", key, omit_flags=omit), o['stats_array']["P_N"][s][rows][:, sl, pi])
        eq("get_wgts", u.get_wgts(key, omit_flags=omit), o['wgt_array'][s][rows][:, :, :, pi])
        eq("get_integrations", u.get_integrations(key, omit_flags=omit), o['integration_array'][s][rows][:, pi])
        eq("get_nsamples", u.get_nsamples(key, omit_flags=omit), o['nsample_array'][s][rows][:, pi])
        eq("get_cov_real", u.get_cov(key, component="real", omit_flags=omit), o['cov_array_real'][s][rows][:, sl, sl, pi])
        eq("get_cov_imag", u.get_cov(key, component="imag", omit_flags=omit), o['cov_array_imag'][s][rows][:, sl, sl, pi])
        eq("get_window_function", u.get_window_function(key, omit_flags=omit), o['window_function_array'][s][rows][:, sl, sl, pi])
        eq("get_dlys", u.get_dlys(s), o['dly_array'][o['spw_dly_array'] == s][sl])
    # every key listed names stored data, and the listing is complete
    ks = u.get_all_keys(); require(len(ks) == u.Nspws * u.Nblpairs * u.Npols and len({(k[0], k[1], k[2]) for k in ks}) == len(ks), "all_keys", f"{len(ks)} keys")
    tot = sum(u.get_nsamples(k).size for k in ks); require(tot == u.Nspws * u.Nbltpairs * u.Npols, "all_keys_cover", f"{tot}")
    require(not diff(o, snapshot(u)), "frame", "looking up changed the object")
    return f"{u.Nspws} windows {u.Nbltpairs} rows folded={folded}"

@PROP.case(quick=60, thorough=800, rule="random objects: index look-ups of single values, lists, tuples, window tuples, times down to 10 s apart; absent values must raise")
def index_lookups(rng):
    from .build import build, blp2int
    step = rng.choice([10.7, 21.4, 2.0]) / 86400
    nt = rng.choice([1, 2, 4]); u = build(rng, ragged=rng.coin(), times=2458042.1 + step * np.arange(nt), nfreqs=rng.choice([None, 5, 6]))
    # rounded frequency spacing can make window tuples ambiguous only if two windows coincide
    blps = u.get_blpairs(); N = u.Nbltpairs; ints = {b: blp2int(b) for b in blps}
    sub = rng.sample(blps, rng.randrange(1, len(blps) + 1))
    want = [i for i in range(N) if u.blpair_array[i] in [ints[b] for b in sub]]
    require(list(u.blpair_to_indices(sub)) == want, "blpair_list", f"{sub}"); require(list(u.blpair_to_indices([ints[b] for b in sub])) == want, "blpair_int_list", "")
    b = rng.choice(blps); wb = [i for i in range(N) if u.blpair_array[i] == ints[b]]
    require(list(u.blpair_to_indices(b)) == wb and list(u.blpair_to_indices(ints[b])) == wb, "blpair_one", f"{b}")
    t = rng.choice(u.time_avg_array.tolist()); wt = [i for i in range(N) if u.time_avg_array[i] == t]
    require(list(u.time_to_indices(t)) == wt, "time", f"rows {list(u.time_to_indices(t))} returned for a time stored in rows {wt}; cadence {step*86400:.1f} s")
    require(list(u.time_to_indices(t, blpairs=sub)) == [i for i in wt if i in want], "time_blpairs", "")
    require(list(u.time_to_indices(t, blpairs=b)) == [i for i in wt if i in wb], "time_blpair", "")
    spws = rng.sample(range(u.Nspws), rng.randrange(1, u.Nspws + 1)); rg = u.get_spw_ranges()
    for form in (spws, [rg[s] for s in spws]):
        require(list(u.spw_to_freq_indices(form)) == [i for i in range(u.Nspwfreqs) if u.spw_freq_array[i] in spws], "spw_freq", f"{form}")
        require(list(u.spw_to_dly_indices(form)) == [i for i in range(u.Nspwdlys) if u.spw_dly_array[i] in spws], "spw_dly", f"{form}")
        require(list(u.spw_indices(form)) == sorted(spws), "spw_indices", f"{form}")
    s = spws[0]
    require(list(u.spw_to_dly_indices(rg[s])) == list(np.where(u.spw_dly_array == s)[0]), "spw_tuple", "")
    pols = rng.sample(range(u.Npols), rng.randrange(1, u.Npols + 1))
    tup = [(int(x) // 100 - 20, int(x) % 100 - 20) for x in u.polpair_array[pols]]
    require(list(u.polpair_to_indices([int(x) for x in u.polpair_array[pols]])) == sorted(pols), "pol_ints", ""); require(list(u.polpair_to_indices(tup)) == sorted(pols), "pol_tuples", f"{tup}")
    used = set(u.polpair_array.tolist()); free = [p for p in range(1212, 1625) if p not in used]
    absent = max(ints.values()) + 1
    for tag, f in (("blpair", lambda: u.blpair_to_indices(absent)), ("blpair_in_list", lambda: u.blpair_to_indices([ints[b], absent])), ("spw", lambda: u.spw_to_freq_indices(u.Nspws)), ("spw_dly", lambda: u.spw_to_dly_indices([0, u.Nspws])),
                   ("spw_i", lambda: u.spw_indices(u.Nspws)), ("pol", lambda: u.polpair_to_indices(rng.choice(free))), ("pol_list", lambda: u.polpair_to_indices([int(u.polpair_array[0]), rng.choice(free)])),
                   ("key_spw", lambda: u.get_data((u.Nspws, b, int(u.polpair_array[0])))), ("key_blp", lambda: u.get_data((0, absent, int(u.polpair_array[0])))), ("key_pol", lambda: u.get_data((0, b, rng.choice(free)))),
                   ("key_pol_cov", lambda: u.get_nsamples((0, b, rng.choice(free)))), ("key_len", lambda: u.get_data((0, b)))):
        try: r = f()
        except Exception: continue
        raise Violation("absent_" + tag, f"a key that matches nothing returned {r!r}")
    return f"{N} rows"
