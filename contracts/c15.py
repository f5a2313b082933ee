from .base import *
PROP = Prop("C15", "deductive verification (VCs generated from the source, canonical sums, z3)",
            ["the normalising row sums are non-zero wherever a normalised row is stated", "numpy.linalg.inv/pinv/eigh are uninterpreted (trusted) functions of the matrix they are given"])
LEVEL = "proof"
NOTE = "Unbounded proof (any number of delays, times; real arithmetic; matrices of any content) of the normalisation, the window functions, the normalised band powers and their covariance. Linear-algebra library calls (inverse, pseudo-inverse, eigendecomposition) are assumed contracts. The run-time contract cases (bounded) re-check concrete matrices, including singular and non-positive ones. Trusts the VC generator, its numpy model and z3."
import numpy as np
from hera_pspec import PSpecData

def obj():
    from .sym import interp
    return interp.created(object.__new__(PSpecData))
@PROP.proof()
def diagonal_mode():
    from .sym import E, call, sarr, dim, idx, A, mk, rv
    n = dim("n"); G, H = sarr("G", (n, n)), sarr("H", (n, n)); i, j = idx("i", n), idx("j", n)
    sg, sh = A(call(np.sum, G, axis=1)).at(i), A(call(np.sum, H, axis=1)).at(i); E.assume(sg.e != 0, sh.e != 0)
    M, W = call(obj().get_MW, G, H, mode="I"); M, W = A(M), A(W)
    E.prove_eq("M_diagonal", M.at(i, i) * sg, 1.0)
    E.prove("M_off_diagonal", __import__("z3").Implies(i != j, M.at(i, j).e == 0))
    E.prove_eq("W", W.at(i, j) * sh, H.at(i, j))
    E.prove_eq("rows_sum_to_one", A(call(np.sum, W, axis=1)).at(i), 1.0)
    M2, W2 = call(obj().get_MW, H, H, mode="I")
    E.prove_eq("W_is_MH", A(W2).at(i, j), A(call(np.dot, M2, H)).at(i, j))
    E.prove_eq("inputs_kept", G.at(i, j), sarr("G", (n, n)).at(i, j)); E.prove_eq("H_kept", H.at(i, j), sarr("H", (n, n)).at(i, j))
def inverse(singular):
    def h():
        from .sym import E, call, sarr, dim, idx, A, interp
        n = dim("n"); G, H, Mi = sarr("G", (n, n)), sarr("H", (n, n)), sarr("Minv", (n, n)); i, j = idx("i", n), idx("j", n)
        C = interp.CONTRACTS; same = lambda a: E.prove_eq("inverse_of_H", A(a).at(i, j), H.at(i, j))
        def inv(a):
            same(a)
            if singular: raise np.linalg.LinAlgError("Singular matrix")
            return Mi
        def pinv(a, rcond=None): same(a); E.prove("only_when_singular", singular); E.prove_eq("rcond", rcond, 1e-9); return Mi
        C[np.linalg.inv] = inv; C[np.linalg.pinv] = pinv
        M, W = call(obj().get_MW, G, H, mode="H^-1", rcond=1e-9); M, W = A(M), A(W)
        MH = A(call(np.dot, Mi, H)); nrm = A(call(np.sum, MH, axis=1)).at(i); E.assume(nrm.e != 0)
        E.prove_eq("M", M.at(i, j), Mi.at(i, j)); E.prove_eq("W", W.at(i, j) * nrm, MH.at(i, j))
        E.prove_eq("rows_sum_to_one", A(call(np.sum, W, axis=1)).at(i), 1.0); E.prove_eq("H_kept", H.at(i, j), sarr("H", (n, n)).at(i, j))
    h.__name__ = "inverse_mode" + ("_singular" if singular else "")
    return h
for _s in (False, True): PROP.proof()(inverse(_s))
def root(trunc, kd):
    def h():
        """V^-1/2 mode: M is proportional, row by row, to U diag(1/sqrt(lambda)) U^T over the positive eigenvalues, W = M H exactly and its rows sum to one"""
        from .sym import E, call, sarr, dim, idx, A, interp, z3, rv, to_bool, cmp
        n = dim("n"); G, H = [sarr(x, (n, n)) for x in "GH"]; V, U = [sarr(x, (n, n), kd) for x in "VU"]; i, j = idx("i", n), idx("j", n)
        lam = sarr("lam", (n,)); q = z3.Int("q!0")
        if not trunc: E.fact(z3.ForAll([q], lam.at(q).e > rv(1e-10), patterns=[lam.at(q).e]))
        def eigh(a): E.prove_eq("decomposed", A(a).at(i, j), V.at(i, j)); return lam, U
        interp.CONTRACTS[np.linalg.eigh] = eigh
        M, W = call(obj().get_MW, G, H, mode="V^-1/2", band_covar=V); M, W = A(M), A(W)
        if not trunc or not E.branch(to_bool(call(np.any, lam <= 1e-20))):
            r = call(np.dot, U, call(np.dot, call(np.diag, 1.0 / call(np.sqrt, lam)), call(np.conj, U).T)); r = A(r)
        else:
            keep = ~(lam <= 1e-20); l2, u2 = lam[keep], U[:, keep]; r = A(call(np.dot, u2, call(np.dot, call(np.diag, 1.0 / call(np.sqrt, l2)), call(np.conj, u2).T)))
        nrm = A(call(np.sum, call(np.dot, r, H), axis=1)).at(i); E.assume(to_bool(cmp('!=', nrm, 0.0)))
        E.prove_eq("M", M.at(i, j) * nrm, r.at(i, j))
        E.prove_eq("W_is_MH", W.at(i, j), A(call(np.dot, M, H)).at(i, j))
        E.prove_eq("rows_sum_to_one", A(call(np.sum, W, axis=1)).at(i), 1.0); E.prove_eq("H_kept", H.at(i, j), sarr("H", (n, n)).at(i, j))
    h.__name__ = "root_mode" + ("_truncated" if trunc else "") + ("_complex" if kd == 'c' else "")
    return h
for _s in (False, True): PROP.proof()(root(_s, 'f'))
PROP.proof()(root(False, 'c'))
@PROP.proof()
def refusals():
    from .sym import E, call, raises, sarr, dim
    n = dim("n"); G, H = sarr("G", (n, n)), sarr("H", (n, n))
    for m, kw, ex in (("L^-1", {}, NotImplementedError), ("foo", {}, AssertionError), ("H^-1", dict(exact_norm=True), NotImplementedError), ("V^-1/2", {}, ValueError)):
        r, e = raises(obj().get_MW, G, H, mode=m, **kw); E.prove(m, isinstance(e, ex))
@PROP.proof()
def band_powers():
    from .sym import E, call, sarr, dim, idx, A
    n, t = dim("n"), dim("Nt"); M, q = sarr("M", (n, n)), sarr("q", (n, t), 'c'); i, k = idx("i", n), idx("t", t)
    p = A(call(obj().p_hat, M, q)); E.prove_eq("value", p.at(i, k), E.sum(n, lambda a: M.at(i, a) * q.at(a, k), 'c'))
@PROP.proof()
def band_power_covariance():
    """every time: cov p = M cov q M^dagger"""
    from .sym import E, call, sarr, dim, idx, A
    n, t = dim("n"), dim("Nt"); M, C = sarr("M", (n, n), 'c'), sarr("C", (t, n, n), 'c'); a, c, k = idx("a", n), idx("c", n), idx("t", t)
    p = A(call(obj().cov_p_hat, M, C)); E.prove_eq("value", p.at(k, a, c), E.sum(n, lambda b: E.sum(n, lambda d: M.at(a, b) * M.at(c, d).conj() * C.at(k, b, d), 'c'), 'c'))
    E.prove_eq("input_kept", C.at(k, a, c), sarr("C", (t, n, n), 'c').at(k, a, c))

def mats(rng):
    g = rng.np(); n = rng.choice([1, 2, 3, 5, 8, 13])
    G, H = g.random((n, n)) + 0.1, g.random((n, n)) + 0.1 + n * np.eye(n)
    return g, n, G, H
@PROP.case(quick=60, thorough=600)
def concrete_normalisation(rng):
    """random matrices 1..13, every mode, singular H, covariances with non-positive eigenvalues"""
    ds = object.__new__(PSpecData); g, n, G, H = mats(rng); mode = rng.choice(["I", "H^-1", "V^-1/2"]); sing = mode == "H^-1" and n > 1 and rng.coin()
    if sing:
        H = g.integers(1, 5, size=(n, n)).astype(float); H[-1] = 0     # exactly singular: LAPACK reports it
        H[-1] = 2 * H[0] if rng.coin() else 0
        try: np.linalg.inv(H); raise Skip
        except np.linalg.LinAlgError: pass
    V = g.normal(size=(n, n)) + (1j * g.normal(size=(n, n)) if rng.coin() else 0); V = V @ V.conj().T + (0 if mode != "V^-1/2" else 0.1) * np.eye(n); neg = mode == "V^-1/2" and n > 1 and rng.coin()
    if neg: w, U = np.linalg.eigh(V); w[0] = rng.choice([-1.0, 0.0]); V = U @ np.diag(w) @ U.conj().T
    G0, H0 = G.copy(), H.copy()
    M, W = ds.get_MW(G, H, mode=mode, band_covar=V if mode == "V^-1/2" else None, rcond=1e-10)
    require(np.array_equal(G, G0) and np.array_equal(H, H0), "inputs", "inputs modified")
    require(M.shape == W.shape == (n, n), "shape", f"{M.shape} {W.shape}")
    if mode == "I":
        require(np.allclose(M, np.diag(1 / G.sum(1)), rtol=1e-12), "M", "M is not diag(1/row sums of G)"); require(np.allclose(W, H / H.sum(1)[:, None]), "W", "")
    elif mode == "H^-1":
        if not sing: require(np.allclose(M @ H, np.eye(n), atol=1e-8), "M", "M is not the inverse of H")
        else: require(np.allclose(H @ M @ H, H, atol=1e-6), "M", "M is not a pseudo-inverse of H")
        X = M @ H; s = X.sum(1); ok = abs(s) > 1e-6
        require(np.allclose(W[ok], (X / np.where(ok, s, 1)[:, None])[ok], atol=1e-8), "W", "W is not M H with rows normalised")
        require(np.allclose(W.sum(1)[ok], 1), "rows", f"row sums {W.sum(1)}"); return
    else:
        w, U = np.linalg.eigh(V); k = w > 1e-20; r = (U[:, k] / np.sqrt(w[k])) @ U[:, k].conj().T; s = (r @ H).sum(1)
        if np.min(abs(s)) < 1e-3 * np.max(abs(r)) or np.min(w[k]) < 1e-8: raise Skip
        require(np.allclose(M, r / s[:, None], rtol=1e-6, atol=1e-9 * np.max(abs(M))), "M", "M is not the row-normalised V^-1/2"); require(np.allclose(W, M @ H), "W", "W is not M H")
    require(np.allclose(W.sum(1), 1), "rows", f"row sums {W.sum(1)}")
    return f"{mode} n={n}"
@PROP.case(quick=40, thorough=300)
def concrete_band_powers(rng):
    """random complex q (vector or matrix) and covariances of 1..6 times"""
    ds = object.__new__(PSpecData); g, n, M, H = mats(rng); t = rng.randint(1, 6)
    q = g.normal(size=(n, t)) + 1j * g.normal(size=(n, t)); C = g.normal(size=(t, n, n)) + 1j * g.normal(size=(t, n, n)); C0 = C.copy()
    require(np.allclose(ds.p_hat(M, q), M @ q), "p", "p is not M q"); require(np.allclose(ds.p_hat(M, q[:, 0]), M @ q[:, 0]), "p1", "")
    if rng.coin(): M = M + 1j * g.normal(size=(n, n))
    P = ds.cov_p_hat(M, C); require(P.shape == C.shape, "shape", str(P.shape))
    require(all(np.allclose(P[k], M @ C[k] @ M.conj().T) for k in range(t)), "cov", "cov p is not M C M^dagger at every time"); require(np.array_equal(C, C0), "inputs", "covariance modified")
