from .base import *
PROP = Prop("C16", "deductive verification (VCs generated from the source, canonical sums, z3)",
            ["weights are non-negative reals; values are mathematical reals"])
LEVEL = "proof"
NOTE = "Unbounded proof (any number of channels and times, any non-negative weights, all four conjugation options, one or two data sets) of the value of every entry, Hermitian symmetry, zero-weight insensitivity and refusal of bad weights. Real non-negative variances follow for 0/1 weights (Cauchy-Schwarz) and are re-checked by run-time cases only. Trusts the VC generator, its numpy model and z3."
import numpy as np
from hera_pspec import utils

def wsum(E, w, d, m, n, kind='c'): return E.sum(n, lambda t: w.at(m, t) * d.at(m, t), kind)
def value(two, c1, c2):
    def h():
        from .sym import E, call, sarr, dim, idx, A, z3, ite, to_bool, cmp, rv
        M, N = dim("M"), dim("N"); d1, w1 = sarr("d1", (M, N), 'c'), sarr("w1", (M, N), nonneg=True); i, j = idx("i", M), idx("j", M)
        d2, w2 = (sarr("d2", (M, N), 'c'), sarr("w2", (M, N), nonneg=True)) if two else (d1, w1)
        C = A(call(utils.cov, d1, w1, *((d2, w2) if two else ()), conj_1=c1, conj_2=c2))
        f1 = lambda x: x.conj() if c1 else x; f2 = lambda x: x.conj() if c2 else x
        safe = lambda x: ite(to_bool(cmp('>', x, 0.0)), x, 1)
        W = safe(E.sum(N, lambda t: w1.at(i, t) * w2.at(j, t), 'f')); s1, s2 = safe(E.sum(N, lambda t: w1.at(i, t), 'f')), safe(E.sum(N, lambda t: w2.at(j, t), 'f'))
        P = E.sum(N, lambda t: f1(w1.at(i, t) * d1.at(i, t)) * f2(w2.at(j, t) * d2.at(j, t)), 'c')
        m = f1(wsum(E, w1, d1, i, N) / s1) * f2(wsum(E, w2, d2, j, N) / s2)
        E.prove("shape", C.ndim == 2); E.prove_eq("value", C.at(i, j), P / W - m)
        E.prove_eq("data_kept", d1.at(i, j), sarr("d1", (M, N), 'c').at(i, j)); E.prove_eq("weights_kept", w1.at(i, j), sarr("w1", (M, N)).at(i, j))
    h.__name__ = f"value_{'two' if two else 'one'}_{int(c1)}{int(c2)}"
    return h
for _t in (False, True):
    for _a in (False, True):
        for _b in (False, True): PROP.proof()(value(_t, _a, _b))
@PROP.proof()
def hermitian():
    from .sym import E, call, sarr, dim, idx, A
    M, N = dim("M"), dim("N"); d, w = sarr("d", (M, N), 'c'), sarr("w", (M, N), nonneg=True); i, j = idx("i", M), idx("j", M)
    C = A(call(utils.cov, d, w)); E.prove_eq("symmetry", C.at(i, j), C.at(j, i).conj()); E.prove_eq("real_variance", call(np.imag, C.at(i, i)), 0.0)
    d2, w2 = sarr("d2", (M, N), 'c'), sarr("w2", (M, N), nonneg=True)
    X, Y = A(call(utils.cov, d, w, d2, w2)), A(call(utils.cov, d2, w2, d, w)); E.prove_eq("exchange", X.at(i, j), Y.at(j, i).conj())
@PROP.proof()
def zero_weight_has_no_influence():
    """data that agree wherever the weight is non-zero have the same covariance"""
    from .sym import E, call, sarr, dim, idx, A, arrays, ite, to_bool, cmp
    M, N = dim("M"), dim("N"); a, b, w = sarr("a", (M, N), 'c'), sarr("b", (M, N), 'c'), sarr("w", (M, N), nonneg=True); i, j = idx("i", M), idx("j", M)
    b2 = arrays.new((M, N), 'c', lambda ix: ite(to_bool(cmp('==', w.at(*ix), 0.0)), b.at(*ix), a.at(*ix)))
    X, Y = A(call(utils.cov, a, w)), A(call(utils.cov, b2, w)); E.prove_eq("value", X.at(i, j), Y.at(i, j))
@PROP.proof()
def bad_weights_refused():
    from .sym import E, call, raises, sarr, dim, idx, z3
    M, N = dim("M"), dim("N"); d, w = sarr("d", (M, N), 'c'), sarr("w", (M, N)); i, j = idx("i", M), idx("j", N)
    E.assume(w.at(i, j).e < 0); g = sarr("g", (M, N), nonneg=True)
    r, e = raises(utils.cov, d, w); E.prove("negative", isinstance(e, ValueError))
    r, e = raises(utils.cov, d, g, d, w); E.prove("negative_second", isinstance(e, ValueError))
    x = sarr("x", (M, N), 'c'); E.assume(call(np.imag, x.at(i, j)).e > 0)
    r, e = raises(utils.cov, d, x); E.prove("complex", isinstance(e, TypeError)); r, e = raises(utils.cov, d, g, d, x); E.prove("complex_second", isinstance(e, TypeError))

@PROP.case(quick=60, thorough=600)
def concrete_covariance(rng):
    """random data 1..7 channels, 1..12 times; 0/1 or real weights, whole rows and columns flagged, garbage (inf-free) under zero weight"""
    g = rng.np(); M, N = rng.randint(1, 7), rng.randint(1, 12); two = rng.coin(); c1, c2 = rng.coin(), rng.coin(); binw = rng.coin(0.6)
    mk = lambda: g.normal(size=(M, N)) + 1j * g.normal(size=(M, N)); wt = lambda: (g.random((M, N)) > 0.4) * (1.0 if binw else g.random((M, N)) * 5)
    d1, w1 = mk(), wt(); d2, w2 = (mk(), wt()) if two else (d1, w1)
    if rng.coin(0.3): w1[rng.randrange(M)] = 0
    if rng.coin(0.3): w1[:, rng.randrange(N)] = 0
    keep = [x.copy() for x in (d1, w1, d2, w2)]
    C = utils.cov(d1, w1, *((d2, w2) if two else ()), conj_1=c1, conj_2=c2)
    require(all(np.array_equal(x, y) for x, y in zip(keep, (d1, w1, d2, w2))), "inputs", "inputs modified")
    f = lambda x, c: np.conj(x) if c else x
    R = np.zeros((M, M), complex)
    for i in range(M):
        for j in range(M):
            den = sum(w1[i] * w2[j]); p = sum(f(w1[i] * d1[i], c1) * f(w2[j] * d2[j], c2)) / (den if den > 0 else 1)
            m = [f(sum(w[k] * d[k]) / (sum(w[k]) if sum(w[k]) > 0 else 1), c) for d, w, k, c in ((d1, w1, i, c1), (d2, w2, j, c2))]
            R[i, j] = p - m[0] * m[1]
    require(C.shape == (M, M), "shape", str(C.shape)); require(np.allclose(C, R, rtol=1e-9, atol=1e-10), "value", lambda: f"max error {abs(C - R).max()}")
    if not two and not c1 and c2:
        require(np.allclose(C, C.conj().T), "hermitian", "not Hermitian")
        if binw: require((C.diagonal().real > -1e-10).all(), "variance", "negative variance")
    e1 = d1 + 100 * (w1 == 0); e2 = d2 + 100j * (w2 == 0) if two else e1
    require(np.allclose(C, utils.cov(e1, w1, *((e2, w2) if two else ()), conj_1=c1, conj_2=c2), atol=1e-10), "flagged", "samples of zero weight changed the covariance")
    return f"{M}x{N}"
