from .base import *
PROP = Prop("C01", "deductive verification (VCs generated from the source, z3, IEEE rounding model)",
            ["antenna numbers are integers in 0..899 (the documented range of the 3-digit encoding)"])
LEVEL = "proof"
NOTE = "Unbounded proof over all antenna numbers 0..899: encoders, decoders, splitters and conjugation helpers (functions and UVPSpec methods), with IEEE-754 double rounding modelled for the decoder's divisions. Trusts the VC generator in /verif/dv, its numpy model and z3; run-time contract cases re-check concrete inputs against the real code and are not counted as proved."
import numpy as np
from hera_pspec import uvpspec_utils as uu
from hera_pspec.uvpspec import UVPSpec

def ants(n=4):
    from dv.proof import sint
    return [sint(f"a{i}", 0, 899) for i in range(n)]
def enc2(a, b): return (a + 100) * 1000 + (b + 100)
def enc4(p, q): return enc2(*p) * 1000000 + enc2(*q)

@PROP.proof()
def blpair_codec():
    from dv.proof import call, fp_mode, E, And, cmp, to_bool
    a = ants()
    fp_mode()
    n = call(uu._antnums_to_blpair, ((a[0], a[1]), (a[2], a[3])))
    fp_mode(False)
    E.prove_eq("encode_is_positional_code", n, enc4(a[:2], a[2:]))
    fp_mode()
    r = call(uu._blpair_to_antnums, n)
    E.prove("decode_is_two_pairs", len(r) == 2 and len(r[0]) == 2 and len(r[1]) == 2)
    for i in range(4): E.prove_eq(f"decode_encode_ant{i}", r[i // 2][i % 2], a[i])
@PROP.proof()
def bl_codec():
    from dv.proof import call, fp_mode, E
    a = ants(2)
    fp_mode()
    b = call(uu._antnums_to_bl, (a[0], a[1]))
    fp_mode(False)
    E.prove_eq("encode_is_positional_code", b, enc2(*a))
    fp_mode()
    r = call(uu._bl_to_antnums, b)
    for i in range(2): E.prove_eq(f"decode_encode_ant{i}", r[i], a[i])
@PROP.proof()
def codes_are_injective():
    """two different tuples never share an integer (lemma over the two encode contracts)"""
    from dv.proof import sint, E, cmp, to_bool, And
    a = ants(); b = [sint(f"b{i}", 0, 899) for i in range(4)]
    E.assume(to_bool(cmp('==', enc4(a[:2], a[2:]), enc4(b[:2], b[2:]))))
    E.reach("some_equal_codes")
    for i in range(4): E.prove_eq(f"ant{i}_equal", a[i], b[i])

def install():
    """callee contracts proved above, used at call sites of the composite operations"""
    from dv.proof import interp, E, sint, cmp, to_bool, mk, And
    import z3
    def dec(k, build):
        def c(n):
            from dv.proof import as_z
            t = z3.simplify(as_z(n), som=True)
            for code, v in GHOST:           # the argument is the code of a known tuple: by injectivity the decoder returns that tuple
                if len(v) == k and code.eq(t): return build(v)
            v = [mk('i', E.fresh('i', 'ant')) for _ in range(k)]
            for x in v: E.pc.append(And(x.e >= 0, x.e <= 899))
            E.pc.append(to_bool(cmp('==', enc4(v[:2], v[2:]) if k == 4 else enc2(*v), n)))
            return build(v)
        return c
    GHOST = []
    def enc(*v):
        from dv.proof import as_z
        for x in v: E.prove("antenna_in_encodable_range", And(as_z(x) >= 0, as_z(x) <= 899))
        e = enc4(v[:2], v[2:]) if len(v) == 4 else enc2(*v)
        GHOST.append((z3.simplify(as_z(e), som=True), tuple(v))); return e
    interp.CONTRACTS.update({
        uu._antnums_to_blpair: lambda t: enc(t[0][0], t[0][1], t[1][0], t[1][1]), uu._antnums_to_bl: lambda t: enc(*t),
        uu._blpair_to_antnums: dec(4, lambda v: ((v[0], v[1]), (v[2], v[3]))), uu._bl_to_antnums: dec(2, lambda v: (v[0], v[1]))})
    return enc
@PROP.proof()
def splitting_and_conjugation():
    from dv.proof import call, E
    enc = install()
    a = ants(); n = enc(*a); p, q = (a[0], a[1]), (a[2], a[3])
    for tag, arg in (("int", n), ("tuple", (p, q))):
        r = call(uu._blpair_to_bls, arg)
        E.prove_eq(f"split_{tag}_first", r[0], enc2(*p)); E.prove_eq(f"split_{tag}_second", r[1], enc2(*q))
    E.prove_eq("conj_blpair_int_swaps_members", call(uu._conj_blpair_int, n), enc4(q, p))
    E.prove_eq("conj_bl_int_swaps_antennas", call(uu._conj_bl_int, enc(*p)), enc2(p[1], p[0]))
    for w, exp in (("first", (p[::-1], q)), ("second", (p, q[::-1])), ("both", (p[::-1], q[::-1]))):
        c = call(uu._conj_blpair, n, which=w)
        E.prove_eq(f"conj_{w}", c, enc4(*exp))
        E.prove_eq(f"conj_{w}_twice", call(uu._conj_blpair, c, which=w), n)
    E.prove_eq("conj_default_is_both", call(uu._conj_blpair, n), enc4(p[::-1], q[::-1]))
@PROP.proof()
def object_methods():
    from dv.proof import call, E
    enc = install()
    a = ants(); n = enc(*a); u = object.__new__(UVPSpec)
    E.prove_eq("antnums_to_blpair", call(u.antnums_to_blpair, ((a[0], a[1]), (a[2], a[3]))), n)
    r = call(u.blpair_to_antnums, n)
    for i in range(4): E.prove_eq(f"blpair_to_antnums{i}", r[i // 2][i % 2], a[i])
    E.prove_eq("antnums_to_bl", call(u.antnums_to_bl, (a[0], a[1])), enc2(a[0], a[1]))
    r = call(u.bl_to_antnums, enc(a[0], a[1]))
    for i in range(2): E.prove_eq(f"bl_to_antnums{i}", r[i], a[i])

@PROP.case(quick=60, thorough=600, rule="random and corner antenna tuples, python and numpy integer types, all operations against the positional code")
def operations(rng):
    corner = [0, 1, 9, 10, 98, 99, 100, 101, 199, 799, 898, 899]
    u = UVPSpec()
    for _ in range(60):
        a = [rng.choice(corner) if rng.coin() else rng.randint(0, 899) for _ in range(4)]
        T = rng.choice([int, np.int64, np.int32]); t = [T(x) for x in a]
        p, q = (a[0], a[1]), (a[2], a[3])
        n, b, c = enc4(p, q), enc2(*p), enc2(*q)
        def eq(got, exp, tag): require(got == exp, tag, f"antennas {a} ({T.__name__}): got {got}, expected {exp}")
        for f in (uu._antnums_to_blpair, u.antnums_to_blpair): eq(f(((t[0], t[1]), (t[2], t[3]))), n, "encode_blpair")
        for f in (uu._antnums_to_bl, u.antnums_to_bl): eq(f((t[0], t[1])), b, "encode_bl")
        for N in (n, np.int64(n)):
            for f in (uu._blpair_to_antnums, u.blpair_to_antnums): eq(f(N), (p, q), "decode_blpair")
            eq(uu._blpair_to_bls(N), (b, c), "split"); eq(uu._conj_blpair_int(N), enc4(q, p), "conj_int")
            for w, e in (("first", (p[::-1], q)), ("second", (p, q[::-1])), ("both", (p[::-1], q[::-1]))):
                eq(uu._conj_blpair(N, which=w), enc4(*e), "conj_" + w)
        for B in (b, np.int64(b), np.int32(b)):
            for f in (uu._bl_to_antnums, u.bl_to_antnums): eq(f(B), p, "decode_bl")
            eq(uu._conj_bl_int(B), enc2(p[1], p[0]), "conj_bl_int")
    return a
