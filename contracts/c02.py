from .base import *
PROP = Prop("C02", "deductive verification (VCs generated from the source, z3) + exhaustive run-time contracts",
            ["the string names of polarizations are pyuvdata's (polnum2str / polstr2num trusted)"])
LEVEL = "proof"
NOTE = "Unbounded proof over integer and tuple inputs for the encoder and decoder, plus an exhaustive run over the finite set of polarization pairs in every documented form (numbers, strings, lists). Trusts the VC generator, its numpy model, z3 and pyuvdata's polarization string tables."
import numpy as np
from hera_pspec import uvpspec_utils as uu
from pyuvdata.utils import polnum2str, polstr2num

@PROP.proof()
def tuple_int_tuple():
    from dv.proof import call, sint, E
    p, q = sint("p", -8, 4), sint("q", -8, 4)
    n = call(uu.polpair_tuple2int, (p, q))
    E.prove_eq("code", n, (p + 20) * 100 + (q + 20))
    r = call(uu.polpair_int2tuple, n)
    E.prove("is_pair", type(r) is tuple and len(r) == 2)
    E.prove_eq("first", r[0], p); E.prove_eq("second", r[1], q)
@PROP.proof()
def every_integer():
    """any integer either decodes to a valid pair whose code is that integer, or is rejected"""
    from dv.proof import call, sint, raises, E, And, as_z
    n = sint("n")
    r, ex = raises(uu.polpair_int2tuple, n)
    if ex is not None:
        E.prove("rejected_with_ValueError", isinstance(ex, ValueError))
        p, q = sint("p", -8, 4), sint("q", -8, 4)
        import z3
        E.prove("only_invalid_integers_are_rejected", z3.Not(as_z(n) == (as_z(p) + 20) * 100 + as_z(q) + 20))
    else:
        for i in range(2): E.prove(f"valid{i}", And(as_z(r[i]) >= -8, as_z(r[i]) <= 4))
        E.prove_eq("code", (r[0] + 20) * 100 + (r[1] + 20), n)
@PROP.proof()
def lists():
    """a list of any length is coded element by element"""
    from dv.proof import call, sarr, dim, idx, E, seqs, cmp, to_bool, And
    import z3
    n = dim("n", 0)
    P, Q = sarr("P", (n,), 'i'), sarr("Q", (n,), 'i')
    j = z3.Int("qj")
    for X in (P, Q): E.fact(z3.ForAll([j], z3.And(X.at(j).e >= -8, X.at(j).e <= 4), patterns=[X.at(j).e]))
    L = seqs.from_pieces([('g', n, lambda k: (P.at(k), Q.at(k)))])
    r = call(uu.polpair_tuple2int, L)
    k = idx("k", n)
    E.prove_eq("list_length", seqs_len(r), n_sym(n))
    E.prove_eq("code_k", seqs.seq_get(r, k), (P.at(k) + 20) * 100 + (Q.at(k) + 20))
    r2 = call(uu.polpair_int2tuple, r)
    t = seqs.seq_get(r2, k)
    E.prove_eq("decoded_first", t[0], P.at(k)); E.prove_eq("decoded_second", t[1], Q.at(k))
def seqs_len(l):
    from dv.proof import seqs, mk
    n = seqs.seq_len(l); return n if isinstance(n, int) else mk('i', n)
def n_sym(n):
    from dv.proof import mk
    return mk('i', n)

VALID = [p for p in range(-8, 5)]
def strings(x_orientation=None):
    out = {}
    for p in VALID:
        try: out[p] = polnum2str(p, x_orientation=x_orientation)
        except Exception: pass
    return out
@PROP.case(quick=1, thorough=1, rule="exhaustive: all 13x13 pairs of numbers, all pairs of strings, both orientations, singly and in lists and arrays")
def exhaustive(rng):
    names = strings()
    for p in VALID:
        for q in VALID:
            n = (20 + p) * 100 + 20 + q
            require(uu.polpair_tuple2int((p, q)) == n, "encode", f"{(p, q)}")
            for T in (int, np.int64, np.int32): require(uu.polpair_int2tuple(T(n)) == (p, q), "decode", f"{n} -> {uu.polpair_int2tuple(T(n))}")
            if p in names and q in names:
                require(uu.polpair_tuple2int((names[p], names[q])) == n, "encode_str", f"{(names[p], names[q])}")
                require(uu.polpair_tuple2int((names[p], q)) == n, "encode_mixed", f"{(names[p], q)}")
                require(uu.polpair_int2tuple(n, pol_strings=True) == (names[p], names[q]), "decode_str", f"{n}")
    pairs = [(p, q) for p in VALID for q in VALID]; codes = [(20 + p) * 100 + 20 + q for p, q in pairs]
    require(list(uu.polpair_tuple2int(pairs)) == codes, "encode_list", "list of all pairs")
    require([tuple(x) for x in uu.polpair_int2tuple(codes)] == pairs, "decode_list", "list of all codes")
    require([tuple(x) for x in uu.polpair_int2tuple(np.array(codes))] == pairs, "decode_array", "array of all codes")
    sp = [(p, q) for p, q in pairs if p in names and q in names]
    require(list(uu.polpair_tuple2int([(names[p], names[q]) for p, q in sp])) == [(20 + p) * 100 + 20 + q for p, q in sp], "encode_str_list", "")
    require([tuple(x) for x in uu.polpair_int2tuple([(20 + p) * 100 + 20 + q for p, q in sp], pol_strings=True)] == [(names[p], names[q]) for p, q in sp], "decode_str_list", "")
    return "all"
@PROP.case(quick=1, thorough=1, rule="exhaustive: e/n polarization names under both x_orientations, singly and in lists")
def orientation(rng):
    for xo in ("east", "north"):
        pols = ["nn", "ee", "en", "ne"]
        num = {s: polstr2num(s, x_orientation=xo) for s in pols}
        pairs = [(a, b) for a in pols for b in pols]
        exp = [(20 + num[a]) * 100 + 20 + num[b] for a, b in pairs]
        require([uu.polpair_tuple2int(t, x_orientation=xo) for t in pairs] == exp, "encode_orientation", xo)
        try: got = uu.polpair_tuple2int(pairs, x_orientation=xo)
        except Exception as ex: raise Violation("encode_orientation_list", f"list of e/n names with x_orientation={xo!r} fails ({ex!r}) although each pair alone encodes")
        require(list(got) == exp, "encode_orientation_list", f"{xo}: {got}")
    return "all"
@PROP.case(quick=1, thorough=1, rule="every integer in -400..10000 plus larger random ones: valid codes decode, all others raise")
def rejection(rng):
    good = {(20 + p) * 100 + 20 + q: (p, q) for p in VALID for q in VALID}
    for n in list(range(-4000, 10001)) + [rng.randint(10001, 10 ** 9) for _ in range(500)]:
        try: r = uu.polpair_int2tuple(n)
        except Exception: r = None
        require(r == good.get(n), "reject", f"{n} -> {r}, expected {good.get(n, 'an error')}")
    return "all"
