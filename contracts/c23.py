from .base import *
PROP = Prop("C23", "deductive verification (VCs generated from the source, assumed json contract, z3) with bounded run-time contract cases",
            ["json.loads(json.dumps(x)) equals x with tuples turned into lists and integer keys into strings (assumed contract on the standard library, run for real in the run-time cases)",
             "weighting parameters are dictionaries of numbers, strings or lists, as documented"])
LEVEL = "other"
NOTE = "Deductive proof, bounded in the number of baselines (1 to 4): for all parameter values and every pattern of equal parameters, decompressing the compressed dictionary gives every baseline exactly its parameters and changes no input (json assumed to round-trip). What a selection keeps is proved modulo the list of keys for a fixed set of pairs and checked by bounded run-time contract cases for whole objects. Trusts the VC generator and z3."
import copy
import numpy as np
from hera_pspec import uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec
from .build import build as bld, snapshot, diff
import json

def assumed_json(store):
    """json.dumps / json.loads by their contract: text that gives back equal content, tuples as lists, integer keys as text"""
    from .sym import interp
    def conv(x):
        if isinstance(x, dict):
            for k in x: assert isinstance(k, (str, int))
            return {str(k): conv(v) for k, v in x.items()}
        return [conv(v) for v in x] if isinstance(x, (list, tuple)) else x
    def dumps(x): store.append(conv(x)); return f"json text {len(store) - 1}"
    def loads(s): return conv(store[int(s.split()[-1])])
    interp.CONTRACTS[json.dumps] = dumps; interp.CONTRACTS[json.loads] = loads
KEYS = [(1, 2, 'xx'), (2, 3, 'xx'), (0, 1, 2, 'xx'), (1, 2, 'yy')]
def round_trip(n, fields):
    def h():
        from .sym import E, call, sreal, z3, interp, to_real
        assumed_json([])
        val = {k: {f: ([sreal(f"{f}{i}")] if f != "scalar" else sreal(f"{f}{i}")) for f in fields} for i, k in enumerate(KEYS[:n])}
        d = {k: interp.created({f: (interp.created(list(v)) if isinstance(v, list) else v) for f, v in x.items()}) for k, x in val.items()}; d = interp.created(d)
        s = call(uu.compress_r_params, d)
        E.prove("text", isinstance(s, str) and s != "")
        E.prove("input_keys_kept", list(d) == KEYS[:n] and all(list(d[k]) == list(fields) for k in d))
        r = call(uu.decompress_r_params, s)
        E.prove("baselines", set(r) == set(KEYS[:n]))
        get = lambda x: x[0] if isinstance(x, list) else x
        for i, k in enumerate(KEYS[:n]):
            E.prove(f"fields{i}", set(r[k]) == set(fields))
            for f in fields:
                E.prove(f"form{i}_{f}", isinstance(r[k][f], list) == isinstance(val[k][f], list) and (not isinstance(r[k][f], list) or len(r[k][f]) == 1))
                E.prove(f"value{i}_{f}", to_real(get(r[k][f])) == to_real(get(val[k][f]))); E.prove(f"input{i}_{f}", to_real(get(d[k][f])) == to_real(get(val[k][f])))
    h.__name__ = f"round_trip_{n}_baselines_{len(fields)}_parameters"
    return h
for _n in (1, 2, 3): PROP.proof(bounded=f"{_n} baselines")(round_trip(_n, ("filter_centers", "filter_half_widths", "filter_factors")))
PROP.proof(bounded="4 baselines")(round_trip(4, ("filter_centers", "scalar")))
@PROP.proof()
def empty():
    from .sym import E, call
    for x in ({}, None): E.prove(f"compress_{x}", call(uu.compress_r_params, x) == "")
    for x in ("", None): E.prove(f"decompress_{x}", call(uu.decompress_r_params, x) == {})
@PROP.proof()
def stored_parameters_read_back():
    from .sym import E, call, blank, interp
    u = blank(); u.__dict__["r_params"] = "text"; got = []
    interp.CONTRACTS[uu.decompress_r_params] = lambda s: got.append(s) or {"marker": 1}
    E.prove("decompressed", call(u.get_r_params) == {"marker": 1} and got == ["text"])
@PROP.proof(bounded="2 windows, 3 baseline-pairs, 2 polarization-pairs, every subset of 12 parameter keys of interest one at a time")
def selection_keeps_exactly_the_used():
    from .sym import E, call, blank, interp, sreal, A
    pairs = [((1, 2), (3, 4)), ((5, 6), (1, 2)), ((3, 4), (3, 4))]; pols = [("xx", "yy"), ("xx", "xx")]
    used = {b + (p[n],) for x in pairs for n, b in enumerate(x) for p in pols}
    every = [(a, b, p) for a, b in ((1, 2), (3, 4), (5, 6), (7, 8), (2, 1)) for p in ("xx", "yy")]
    for lead in ((), (0,), (1,), ("name",)):
        for k in every:
            u = blank(); u.__dict__.update(r_params="text", spw_array=A(np.arange(2)), polpair_array=A(np.array([1514, 1515])), history="h"); got = []; key = lead + k; val = {"filter_centers": [sreal("c")]}
            interp.CONTRACTS[UVPSpec.get_all_keys] = lambda self: [(s, x, p) for s in range(2) for p in pols for x in pairs]
            interp.CONTRACTS[UVPSpec.get_r_params] = lambda self: {key: val}
            interp.CONTRACTS[uu.compress_r_params] = lambda d: got.append(dict(d)) or "new text"
            call(uu._select, u, polpairs=[1514, 1515])
            E.prove(f"kept_iff_used {key}", len(got) == 1 and list(got[0]) == ([key] if k in used else []) and all(v is val for v in got[0].values())); E.prove(f"stored {key}", u.__dict__["r_params"] == "new text")
@PROP.proof()
def no_selection_keeps_all():
    from .sym import E, call, blank, interp, A
    u = blank(); u.__dict__.update(r_params="text", spw_array=A(np.arange(2)), history="h"); call(uu._select, u); E.prove("kept", u.__dict__["r_params"] == "text")
@PROP.proof(bounded="2 windows, 3 baseline-pairs, 2 polarization-pairs")
def keys_of_an_object():
    from .sym import E, call, blank, interp, A
    u = blank(); pairs = [((1, 2), (3, 4)), ((5, 6), (1, 2)), ((3, 4), (3, 4))]; u.__dict__.update(Nspws=2, polpair_array=A(np.array([1514, 1515])))
    interp.CONTRACTS[UVPSpec.get_blpairs] = lambda self: list(pairs)
    r = call(u.get_all_keys); E.prove("all_keys", sorted(map(str, r)) == sorted(str((s, x, p)) for s in range(2) for x in pairs for p in (("xx", "yy"), ("xx", "xx"))))
# ------------------------------------------------------------------ run-time contract cases
def random_params(rng):
    n = rng.choice([1, 2]); r = lambda: rng.choice([0, 0.0, 1e-9, 100e-9, 2.5, rng.uniform(-1, 1), 1, -3])
    p = {"filter_centers": [r() for _ in range(n)], "filter_half_widths": [r() for _ in range(n)], "filter_factors": [rng.choice([1e-9, 1e-12]) for _ in range(n)]}
    if rng.coin(.2): p.pop("filter_factors")
    if rng.coin(.2): p["restore_foregrounds"] = rng.coin()
    if rng.coin(.15): p["filter_centers"] = r()
    return p
def random_pool(rng, n):
    """n parameter sets, some differing from an earlier one in a single field, or only in the order of the fields"""
    pool = [random_params(rng)]
    while len(pool) < n:
        if rng.coin(): pool.append(random_params(rng)); continue
        p = copy.deepcopy(rng.choice(pool)); k = rng.choice(sorted(p)); x = p[k]
        if rng.coin(.2): p = dict(sorted(p.items(), reverse=True))
        elif isinstance(x, list): x[rng.randrange(len(x))] += 1e-9
        elif isinstance(x, bool): p[k] = not x
        else: p[k] = x + 1
        pool.append(p)
    return pool
@PROP.case(quick=80, thorough=3000)
def round_trips(rng):
    """dictionaries of 0-12 baselines, keyed with and without the data set, sharing few or many parameter sets (equal copies or the same object); the real json module"""
    pool = random_pool(rng, rng.choice([1, 2, 3, 5])); d = {}
    for _ in range(rng.randrange(0, 13)):
        k = ((rng.randrange(2),) if rng.coin(.4) else ()) + (rng.randrange(5), rng.randrange(5), rng.choice(["xx", "yy", "pI"])); p = rng.choice(pool)
        d[k] = p if rng.coin() else copy.deepcopy(p)
    keep = copy.deepcopy(d); s = uu.compress_r_params(d); r = uu.decompress_r_params(s)
    require(isinstance(s, str), "text", f"compress_r_params returned {type(s)}"); require(d == keep, "input", lambda: f"compress_r_params changed its input {keep} to {d}")
    require(r == keep, "round_trip", lambda: f"{keep} came back as {r}")
    require(uu.decompress_r_params(uu.compress_r_params(r)) == keep, "twice", lambda: f"second round trip of {keep} differs")
    return f"{len(d)} baselines, {len(pool)} parameter sets"
def expected(u, params):
    """keys whose baseline and polarization are still part of a stored spectrum"""
    from pyuvdata.utils import polnum2str
    on = set()
    for b in set(u.blpair_array.tolist()):
        f = lambda x: (x // 1000 - 100, x % 1000 - 100)
        for p in u.polpair_array.tolist():
            on.add(f(b // 1000000) + (polnum2str(p // 100 - 20),)); on.add(f(b % 1000000) + (polnum2str(p % 100 - 20),))
    return {k: v for k, v in params.items() if k[-3:] in on}
@PROP.case(quick=80, thorough=2000)
def selecting(rng):
    """objects with parameters for every baseline and polarization they use, keyed with and without the data set; every kind of selection; copy and in-place"""
    from .selection import random_selection, selected
    u = bld(rng, nblp=rng.randrange(1, 6)); named = rng.coin(); pool = random_pool(rng, rng.choice([1, 2, 4]))
    from pyuvdata.utils import polnum2str
    d = {}
    for b in set(u.blpair_array.tolist()):
        for n, x in enumerate((b // 1000000, b % 1000000)):
            for p in u.polpair_array.tolist():
                k = (x // 1000 - 100, x % 1000 - 100, polnum2str((p // 100 if n == 0 else p % 100) - 20)); d[((n,) if named else ()) + k] = rng.choice(pool)
    u.r_params = uu.compress_r_params(d); pre = snapshot(u)
    for step in range(rng.choice([1, 2])):
        kw = random_selection(rng, u); inplace = rng.coin()
        try: selected(snapshot(u), **kw)
        except LookupError: return "nothing matches"
        r = u.select(inplace=inplace, **kw); v = u if inplace else r; got = v.get_r_params(); want = expected(v, d)
        require(got == want, "kept", lambda: f"parameters for {sorted(map(str, d))}; after select({ {k: str(x)[:60] for k, x in kw.items()} }) expected {sorted(map(str, want))}, got {sorted(map(str, got))}")
        if not inplace: require(u.get_r_params() == d, "original", "selecting a copy changed the parameters of the original")
        u = v; d = want
    return f"{sorted(kw)}"
