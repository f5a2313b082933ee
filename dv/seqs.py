"""Symbolic-length sequences, lists with runs (Seg), sets, and conversion to arrays."""
import numpy as np
import z3
from . import core, engine, arrays
from .core import *
from .engine import ENGINE as E
from .arrays import SArr

class Seg:
    """run of n elements fn(0..n-1) inside a python list"""
    __slots__ = ("n", "fn", "rag")
    def __init__(self, n, fn): self.n = as_int(n); self.fn = fn
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f"Seg<{self.n}>"
class SSeq:
    """symbolic-length iterable (range, zip, enumerate, dict keys ...)"""
    def __init__(self, n, fn, what="seq"): self.n = as_int(n); self.fn = fn; self.what = what
    def __repr__(self): return f"SSeq<{self.what},{self.n}>"
class SSet:
    def __init__(self, items): self.items = list(items); self.src = None
    def __repr__(self): return f"SSet<{self.items}>"
    __hash__ = None
class Fam:
    """family of dict entries: keys key(0..n-1) -> val(k)   (key is injective in k)"""
    __slots__ = ("n", "keyfn", "valfn", "solve", "writes")
    def __init__(self, n, keyfn, valfn, solve, writes=()): self.n, self.keyfn, self.valfn, self.solve, self.writes = as_int(n), keyfn, valfn, solve, list(writes)
class FamKey:
    """the native dict key under which a Fam is stored"""
    pass

def has_seg(l): return any(isinstance(x, Seg) for x in l)
def seq_len(l):
    n = 0
    for x in l: n = iadd(n, x.n) if isinstance(x, Seg) else iadd(n, 1)
    return n
def seq_get(l, i):
    """l[i] for list with segs; i raw int (non-negative position)"""
    off = 0; cases = []
    for x in l:
        ln = x.n if isinstance(x, Seg) else 1
        cases.append((off, ln, x)); off = iadd(off, ln)
    def val(off, x, i): return x.fn(isub(i, off)) if isinstance(x, Seg) else x
    if len(cases) == 1: return val(0, cases[0][2], i)
    res = None
    for off, ln, x in reversed(cases):
        c = And(ile(off, i), ilt(i, iadd(off, ln)))
        if z_false(c): continue
        if z_true(c): return val(off, x, i)
        if res is None: res = val(off, x, i)
        else: res = merge_vals(ilt(i, iadd(off, ln)), val(off, x, i), res)
    return res

def merge_vals(c, a, b):
    """structural if-then-else on arbitrary values"""
    if isinstance(c, Sym): c = to_bool(c)
    if z_true(c): return a
    if z_false(c): return b
    if a is b: return a
    if a is engine.MISSING or b is engine.MISSING: return b if a is engine.MISSING else a
    if is_scalar(a) and is_scalar(b): return ite(c, a, b)
    if isinstance(a, SArr) and isinstance(b, (SArr, np.ndarray)) or isinstance(b, SArr) and isinstance(a, np.ndarray):
        a, b = arrays.to_arr(a), arrays.to_arr(b)
        if len(a.shape_) != len(b.shape_): raise Unsupported("merge arrays of different rank")
        shp = []
        for x, y in zip(a.shape_, b.shape_): shp.append(x if ieq(x, y) is True else iite(c, x, y))
        ga, gb = a.snap(), b.snap()
        k = a.kind if KORD.get(a.kind, 9) >= KORD.get(b.kind, 9) else b.kind
        return arrays.new(shp, k, lambda idx: ite(c, ga(idx), gb(idx)))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        if a.dtype == b.dtype and np.array_equal(a, b): return a
        return merge_vals(c, arrays.from_np(a), b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_vals(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == len(b) and not has_seg(a) and not has_seg(b): return [merge_vals(c, x, y) for x, y in zip(a, b)]
        if a and b: return [Seg(iite(c, seq_len(a), seq_len(b)), lambda j, a=list(a), b=list(b): merge_vals(c, seq_get(a, j), seq_get(b, j)))]
    try:
        if type(a) is type(b) and not isinstance(a, (list, dict, SSet, SSeq)) and bool(a == b): return a
    except Exception: pass
    raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")

def subst_val(v, pairs):
    if isinstance(v, Sym): return subst(v, pairs)
    if v is None or is_scalar(v) or isinstance(v, (str, bytes, np.ndarray, slice)): return v
    if isinstance(v, SArr):
        g = v.snap()
        def fn(idx):
            # avoid capture: evaluate at fresh placeholders when an index mentions a substituted constant
            ph = []; back = []
            for i in idx:
                if not isinstance(i, int) and any(engine.contains(i, p[0]) for p in pairs):
                    b = E.bound(); ph.append(b); back.append((b, i))
                else: ph.append(i)
            r = g(tuple(ph))
            r = subst(r, pairs)
            for _ in back: E.unbound()
            if back: r = subst(r, back)
            return r
        r = arrays.new([isubst(d, pairs) for d in v.shape_], v.kind, fn)
        if v.meta.get('nonneg'): r.meta['nonneg'] = True
        return r
    if isinstance(v, tuple): return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, list): return [subst_val(x, pairs) for x in v]
    if isinstance(v, dict): return {k: subst_val(x, pairs) for k, x in v.items()}
    if isinstance(v, Seg):
        return Seg(isubst(v.n, pairs), lambda k, v=v: subst_val(v.fn(k), pairs))
    if isinstance(v, SSeq): return SSeq(isubst(v.n, pairs), lambda k, v=v: subst_val(v.fn(k), pairs), v.what)
    if isinstance(v, SSet): return SSet([subst_val(x, pairs) for x in v.items])
    if callable(v) or isinstance(v, type): return v
    raise Unsupported(f"substitute in {type(v).__name__}")

def list_to_arr(l):
    if len(l) == 0: return arrays.from_np(np.array([]))
    pieces = []; off = 0; probe = []
    for x in l:
        if isinstance(x, Seg):
            b = E.bound()
            try: p = x.fn(b)
            finally: E.unbound()
            pieces.append((off, x.n, x)); probe.append(p); off = iadd(off, x.n)
        else:
            pieces.append((off, 1, x)); probe.append(x); off = iadd(off, 1)
    def conv(x):
        if isinstance(x, (list, tuple)): return list_to_arr(list(x))
        if isinstance(x, np.ndarray): return arrays.from_np(x)
        if isinstance(x, SSeq): return arrays.to_arr(x)
        return x
    probe = [conv(p) for p in probe]
    if all(is_scalar(p) for p in probe):
        ks = [kind_of(p) for p in probe]
        kind = max(ks, key=lambda k: KORD[k])
        def fn(idx):
            return cast(seq_get(l, idx[0]), kind)
        if all(not isinstance(x, Seg) and not isinstance(x, Sym) for x in l): return arrays.from_np(np.array(l))
        return arrays.new((off,), kind, fn)
    if all(isinstance(p, SArr) or is_scalar(p) for p in probe):
        p0 = [p for p in probe if isinstance(p, SArr)][0]
        kind = max([p.kind if isinstance(p, SArr) else kind_of(p) for p in probe], key=lambda k: KORD.get(k, 9))
        for p in probe[1:]:
            if not isinstance(p, SArr) or len(p.shape_) != len(p0.shape_): raise Unsupported("inhomogeneous list to array")
            for a, b in zip(p.shape_, p0.shape_):
                if arrays.dim_eq(a, b) is not True: raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        snaps = [None if isinstance(x, Seg) else conv(x).snap() for x in l]
        def fn(idx):
            i, rest = idx[0], tuple(idx[1:])
            res = None
            for (o, n, x), s in reversed(list(zip(pieces, snaps))):
                c = And(ile(o, i), ilt(i, iadd(o, n)))
                if z_false(c): continue
                v = s(rest) if s is not None else conv(x.fn(isub(i, o))).at(*rest)
                if z_true(c): return cast(v, kind)
                res = v if res is None else ite(ilt(i, iadd(o, n)), v, res)
            return cast(res, kind)
        return arrays.new((off,) + p0.shape_, kind, fn)
    if all(isinstance(p, (str, np.str_)) or p is None for p in probe) and not has_seg(l): return arrays.from_np(np.array(l))
    raise Unsupported(f"list_to_arr of {[type(p).__name__ for p in probe][:4]}")

def pieces_of(it):
    """iteration plan: list of ('c', value) / ('g', n, fn)"""
    if isinstance(it, SSeq): return [('g', it.n, it.fn)] if not isinstance(it.n, int) else [('c', it.fn(k)) for k in range(it.n)]
    if isinstance(it, SArr):
        n = it.shape_[0]
        if isinstance(n, int): return [('c', arrays.getitem(it, k)) for k in range(n)]
        s = arrays.copy_(it)
        return [('g', n, lambda k: arrays.getitem_unchecked(s, k))]
    if isinstance(it, SSet): return pieces_of(sorted_unique(it)) if has_seg(it.items) else [('c', x) for x in it.items]
    if isinstance(it, dict):
        out = []
        for k in it:
            if isinstance(k, FamKey):
                f = it[k]; out.append(('g', f.n, f.keyfn))
            else: out.append(('c', k))
        return out
    if isinstance(it, (list, tuple)):
        out = []
        for x in it:
            if isinstance(x, Seg):
                if isinstance(x.n, int): out += [('c', x.fn(k)) for k in range(x.n)]
                else: out.append(('g', x.n, x.fn))
            else: out.append(('c', x))
        return out
    if isinstance(it, Sym): raise TypeError("iteration over a 0-d array")
    return [('c', x) for x in it]
def is_symbolic_seq(it):
    return any(p[0] == 'g' for p in pieces_of(it)) if isinstance(it, (SSeq, SArr, SSet, list, tuple, dict)) else False
def to_seq(it):
    """-> (n, fn) view over any iterable"""
    ps = pieces_of(it)
    if len(ps) == 1 and ps[0][0] == 'g': return ps[0][1], ps[0][2]
    l = [Seg(p[1], p[2]) if p[0] == 'g' else p[1] for p in ps]
    return seq_len(l), lambda k: seq_get(l, k)
def from_pieces(ps): return [Seg(p[1], p[2]) if p[0] == 'g' else p[1] for p in ps]

def eq_vals(a, b):
    """== on arbitrary values as bool/Sym"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b): return False
        if has_seg(a) or has_seg(b): raise Unsupported("equality of symbolic-length lists")
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b): r = bitop('&', r, eq_vals(x, y)) if not (r is False) else False
        return r
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return False
        r = True
        for k in a: r = bitop('&', r, eq_vals(a[k], b[k]))
        return r
    if is_scalar(a) and is_scalar(b): return cmp('==', a, b)
    if isinstance(a, SArr) or isinstance(b, SArr): return cmp('==', a, b)
    if isinstance(a, (Sym,)) or isinstance(b, (Sym,)): return False
    return a == b
def contains_val(seq, x):
    """x in seq -> bool/Sym"""
    if isinstance(seq, SArr):
        return arrays.any_(cmp('==', seq, x))
    if isinstance(seq, SSet): seq = seq.items
    if isinstance(seq, dict):
        r = False
        for k in seq:
            if isinstance(k, FamKey):
                f = seq[k]
                kk = f.solve(x)
                if kk is None: continue
                r = bitop('|', r, mk('b', And(ile(0, kk), ilt(kk, f.n))))
            else:
                e = eq_vals(k, x)
                if e is True: return True
                r = bitop('|', r, e)
        return r
    r = False
    for p in pieces_of(seq):
        if p[0] == 'c': e = eq_vals(p[1], x)
        else: e = arrays.quant(p[1], lambda k, p=p: eq_vals(p[2](k), x), False)
        if isinstance(e, (SArr, np.ndarray)): raise Unsupported("membership of arrays")
        if e is True: return True
        r = bitop('|', bool(r) if not isinstance(r, Sym) else r, e if isinstance(e, Sym) else bool(e))
    return r

# ---------------------------------------------------------------- sorted unique values
def unique_arr(a):
    """np.unique of a 1-d array with witnesses; returns (values SArr, count, first-index fn, inverse fn)"""
    a = arrays.ravel(a) if a.ndim != 1 else a
    n = a.shape_[0]; g = a.snap()
    if isinstance(n, int) and n <= 64:
        vals = [g((i,)) for i in range(n)]
        if all(not isinstance(v, Sym) for v in vals):
            u, fi, inv = np.unique(np.array(vals), return_index=True, return_inverse=True)
            return arrays.from_np(u), len(u), arrays.from_np(fi), arrays.from_np(inv)
    if a.kind == 'c' or a.kind == 'O': raise Unsupported("unique of complex/object")
    b = E.bound()
    try: v = zterms(g((b,)))[0]
    finally: E.unbound()
    v = z3.simplify(v); nz = zi(n); srt = v.sort(); I = z3.IntSort()
    if srt == z3.BoolSort(): raise Unsupported("unique of bool")
    key, ps, pl, bl, sk = E.skeleton([nz, v], [b])
    so = [p.sort() for p in ps]
    U = z3.Function(f"uniq_{key}", *so, I, srt); Wf = z3.Function(f"uidx_{key}", *so, I, I); R = z3.Function(f"uinv_{key}", *so, I, I)
    C = z3.Function(f"ucnt_{key}", *so, I) if ps else None
    qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]
    k, l = z3.Int("q!k"), z3.Int("q!l"); sub = list(zip(pl, qs))
    N = z3.substitute(sk[0], *sub) if sub else sk[0]
    V = lambda t: z3.substitute(sk[1], *sub, (bl[0], t))
    c = C(*qs) if ps else z3.Int(f"ucnt_{key}")
    uk, ul, wk, rk = U(*qs, k), U(*qs, l), Wf(*qs, k), R(*qs, k)
    E.fact(z3.ForAll(qs, z3.And(c >= 0, z3.Implies(N > 0, c >= 1), z3.Implies(N >= 0, c <= N)), patterns=[c]) if ps else z3.And(c >= 0, z3.Implies(N > 0, c >= 1), z3.Implies(N >= 0, c <= N)), key=f"uc{key}")
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < c), z3.And(wk >= 0, wk < N, V(wk) == uk)), patterns=[uk]), key=f"uw{key}")
    E.fact(z3.ForAll(qs + [k, l], z3.Implies(z3.And(k >= 0, k < l, l < c), uk < ul), patterns=[z3.MultiPattern(uk, ul)]), key=f"um{key}")
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < N), z3.And(rk >= 0, rk < c, U(*qs, rk) == V(k))), patterns=[rk]), key=f"ur{key}")
    # first occurrence
    E.fact(z3.ForAll(qs + [k, l], z3.Implies(z3.And(k >= 0, k < c, l >= 0, l < N, V(l) == uk), wk <= l)), key=f"uf{key}") if False else None
    cc = C(*ps) if ps else c
    out = arrays.new((cc,), a.kind, lambda idx: mk(a.kind, U(*ps, zi(idx[0]))))
    out.meta['unique'] = {'inv': lambda i: R(*ps, zi(i)), 'idx': lambda k: Wf(*ps, zi(k)), 'of': a, 'cnt': cc}
    idx = arrays.new((cc,), 'i', lambda ix: mk('i', Wf(*ps, zi(ix[0])))); idx.meta['nonneg'] = True
    inv = arrays.new((n,), 'i', lambda ix: mk('i', R(*ps, zi(ix[0])))); inv.meta['nonneg'] = True
    # a single distinct value: everything equals it; constant consecutive differences
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(c == 1, k >= 0, k < N), V(k) == U(*qs, 0))), key=f"u1{key}")
    d = a.meta.get('diff_of')
    if d is not None:
        x, gx = d
        b2 = E.bound()
        try: xv = zterms(gx((b2,)))[0]
        finally: E.unbound()
        x0 = z3.substitute(xv, (b2, z3.IntVal(0)))
        E.memo.setdefault('arith', []).append({'at': lambda t, gx=gx: zterms(gx((as_int(t),)))[0], 'last': nz, 'one': zi(cc), 'depth': E.bdepth, 'nonneg': bool(x.meta.get('nonneg'))})
        if has_pat(xv):
            E.fact(z3.ForAll([k], z3.Implies(z3.And(cc == 1, k >= 0, k <= nz), z3.substitute(xv, (b2, k)) == x0 + k * (U(*ps, 0))), patterns=[z3.substitute(xv, (b2, k))]), key=f"ulin{key}{xv.get_id()}")
        else:
            E.fact(z3.ForAll([k], z3.Implies(z3.And(cc == 1, k >= 0, k <= nz), z3.substitute(xv, (b2, k)) == x0 + k * (U(*ps, 0)))), key=f"ulin{key}{xv.get_id()}")
    return out, cc, idx, inv
def has_pat(e): return z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
def sorted_unique(s):
    """sorted(set(...)) of scalars"""
    a = arrays.to_arr(list(s.items) if isinstance(s, SSet) else s)
    return unique_arr(a)[0]
def set_len(s):
    ps = pieces_of(s.items)
    if all(p[0] == 'c' for p in ps):
        vals = [p[1] for p in ps]
        if all(not isinstance(v, Sym) and not (isinstance(v, tuple) and any(isinstance(x, Sym) for x in v)) for v in vals): return len(set(vals))
        # complete case analysis through equality branches
        reps = []
        for v in vals:
            if not any(E.truth(eq_vals(v, r)) for r in reps): reps.append(v)
        return len(reps)
    probe = ps[0][2](z3.Int('dum!i')) if ps[0][0] == 'g' else ps[0][1]
    if is_scalar(probe):
        return mk('i', unique_arr(s.src if s.src is not None else arrays.to_arr(s.items))[1])
    # tuples: number of distinct values is only bounded
    n = E.fresh('i', 'card'); m = seq_len(from_pieces(ps))
    E.assume(n >= 0, n <= zi(m), z3.Implies(zi(m) > 0, n >= 1))
    return mk('i', n)
