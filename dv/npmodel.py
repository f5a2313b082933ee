"""Models of Python builtins and numpy functions on symbolic values (the assumed library contracts).

Each model states the documented meaning of the library function; they are part of the trusted base and are
cross-checked against numpy itself by tools/selftest.py on random concrete inputs."""
import builtins, copy, math, numbers, operator, warnings, itertools, collections, collections.abc, functools
import numpy as np
import z3
from . import core, engine, arrays, seqs, interp
from .core import *
from .engine import ENGINE as E, Eff, log_local, log_attr, log_list
from .arrays import SArr, to_arr, new, elementwise, from_np
from .seqs import Seg, SSeq, SSet, Fam, FamKey
from .interp import MODELS, ALWAYS, METHODS, created, created_deep, call, is_symbolic, truth, demote

def model(*fns, always=False):
    def deco(f):
        for x in fns:
            if x is None: continue
            MODELS[x] = f
            if always: ALWAYS.add(x)
        return f
    return deco
def method(*names):
    def deco(f):
        for n in names: METHODS[n] = f
        return f
    return deco
def arr(x): return to_arr(x)
def scal(r): return r.at() if isinstance(r, SArr) and r.ndim == 0 else r

# ------------------------------------------------------------------ builtins
@model(len)
def m_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0: raise TypeError("len() of unsized object")
        return mk('i', x.shape_[0]) if not isinstance(x.shape_[0], int) else x.shape_[0]
    if isinstance(x, SSeq): return mk('i', x.n) if not isinstance(x.n, int) else x.n
    if isinstance(x, SSet): return seqs.set_len(x)
    if isinstance(x, dict):
        n = 0
        for k in x: n = iadd(n, x[k].n if isinstance(k, FamKey) else 1)
        return mk('i', n) if not isinstance(n, int) else n
    if isinstance(x, (list, tuple)):
        n = seqs.seq_len(x); return mk('i', n) if not isinstance(n, int) else n
    if isinstance(x, Sym): raise TypeError("object of type 'int' has no len()")
    if hasattr(type(x), '__len__'): return len(x)
    raise Unsupported(f"len {type(x)}")
def pyint(x): return arrays.unscalar(x) if isinstance(x, (SArr, np.ndarray)) else x
@model(range)
def m_range(*a):
    a = [pyint(x) for x in a]
    for x in a:
        if isinstance(x, Sym) and x.kind != 'i' or isinstance(x, (float, np.floating)): raise TypeError("'float' object cannot be interpreted as an integer")
    a = [as_int(x) for x in a]
    st, sp, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not isinstance(step, int):
        if not E.branch(step > 0): raise Unsupported("range step")
        n = idiv(iadd(isub(sp, st), isub(step, 1)), step)
    elif step > 0: n = idiv(iadd(isub(sp, st), step - 1), step) if step != 1 else isub(sp, st)
    else: n = idiv(iadd(isub(st, sp), -step - 1), -step) if step != -1 else isub(st, sp)
    n = arrays.nonneg(n)
    f = lambda k: (lambda r: r if isinstance(r, int) else mk('i', r))(iadd(st, imul(k, step)))
    return SSeq(n, f, "range")
def segs_of(it): return seqs.pieces_of(it)
@model(enumerate)
def m_enum(it, start=0):
    ps = segs_of(it); out = []; off = as_int(start)
    for p in ps:
        if p[0] == 'c':
            out.append((mk('i', off) if not isinstance(off, int) else off, p[1])); off = iadd(off, 1)
        else:
            out.append(Seg(p[1], lambda k, off=off, p=p: ((lambda r: r if isinstance(r, int) else mk('i', r))(iadd(off, k)), p[2](k)))); off = iadd(off, p[1])
    return created(out)
@model(zip)
def m_zip(*its):
    pss = [segs_of(i) for i in its]
    if all(all(p[0] == 'c' for p in ps) for ps in pss): return created(list(zip(*[[p[1] for p in ps] for ps in pss])))
    sq = [seqs.to_seq(i) for i in its]
    n = sq[0][0]
    for m, _ in sq[1:]: n = n if arrays.dim_eq(n, m) is True else imin(n, m)
    return SSeq(n, lambda k: tuple(f(k) for _, f in sq), "zip")
@model(list)
def m_list(x=()):
    if isinstance(x, (list, tuple)): return created(list(x))
    return created(seqs.from_pieces(segs_of(x)))
@model(tuple)
def m_tuple(x=()):
    return tuple(seqs.from_pieces(segs_of(x)))
@model(set, frozenset)
def m_set(x=()):
    r = SSet(seqs.from_pieces(segs_of(x)))
    if isinstance(x, SArr) and x.ndim == 1 and 'diff_of' in x.meta: r.src = x
    return r
@model(dict)
def m_dict(*a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict): d.update(a[0])
        else:
            for p in segs_of(a[0]):
                if p[0] == 'g': interp.add_family(d, p[1], lambda j: p[2](j)[0], lambda j: p[2](j)[1])
                else: interp.setitem_any(d, p[1][0], p[1][1])
    d.update(k)
    return created(d)
@model(sorted)
def m_sorted(x, key=None, reverse=False):
    if isinstance(x, SSet) and key is None and not reverse:
        ps = segs_of(x.items)
        probe = ps[0][2](z3.Int('dum!i')) if ps and ps[0][0] == 'g' else (ps[0][1] if ps else None)
        if is_scalar(probe):
            u = seqs.unique_arr(to_arr(x.items))[0]
            return created(seqs.from_pieces(segs_of(u)))
    if isinstance(x, SArr) and x.meta.get('unique') is not None and key is None and not reverse: return created(seqs.from_pieces(segs_of(x)))
    ps = segs_of(x)
    if all(p[0] == 'c' for p in ps) and len(ps) <= 4 and key is None and all(is_scalar(p[1]) for p in ps):
        # insertion sort by case split
        out = []
        for p in ps:
            i = len(out)
            while i > 0 and E.truth(cmp('<', p[1], out[i - 1])): i -= 1
            out.insert(i, p[1])
        return created(out[::-1] if reverse else out)
    raise Unsupported("sorted on symbolic data")
@model(reversed)
def m_reversed(x):
    ps = segs_of(x)[::-1]
    return created([p[1] if p[0] == 'c' else Seg(p[1], lambda k, p=p: p[2](isub(isub(p[1], 1), k))) for p in ps])
@model(str)
def m_str(x=""):
    if isinstance(x, Sym) and x.kind == 'i': return interp.DecStr(x)
    if isinstance(x, interp.DecStr): return x
    return "<symbolic>"
@model(int, np.int64, np.int32, np.intp)
def m_int(x=0): 
    if isinstance(x, interp.DecStr): return x.to_int()
    x = pyint(x)
    if isinstance(x, Sym):
        if x.kind == 'c': raise TypeError("int() of complex")
        return cast(x, 'i')
    if isinstance(x, SArr) and x.size == 1: return cast(x.at(*[0] * x.ndim), 'i')
    raise TypeError("only length-1 arrays can be converted")
@model(float, np.float64, np.float32)
def m_float(x=0.0):
    x = pyint(x); return cast(x, 'f') if is_scalar(x) else elementwise(lambda v: cast(v, 'f'), [x])
@model(complex, np.complex128)
def m_complex(a=0, b=0): return arith('+', cast(pyint(a), 'c'), arith('*', pyint(b), 1j))
@model(bool, np.bool_)
def m_bool(x=False): 
    if isinstance(x, Sym): return mk('b', to_bool(x))
    return truth(x)
@model(repr)
def m_repr(*a, **k): return "<symbolic>"
@model(abs, np.abs, np.absolute)
def m_abs(x): return absv(x) if is_scalar(x) else elementwise(absv, [x])
@model(builtins.round)
def m_round(x, nd=None):
    if nd is None: return cast(rint(cast(x, 'f')), 'i')
    return np_around(x, nd)
@model(sum)
def m_sum(x, start=0):
    r = start
    for p in segs_of(x):
        if p[0] == 'c': r = r + p[1] if not (isinstance(r, int) and not isinstance(r, bool) and r == 0 and is_scalar(p[1]) and kind_of(p[1]) != 'b') else p[1]
        else:
            v = p[2](z3.Int('dum!i'))
            if is_scalar(v): r = r + E.sum(p[1], lambda k, p=p: p[2](k), kind_of(v))
            else:
                va = to_arr(v)
                s = new(va.shape_, va.kind, lambda idx, p=p: E.sum(p[1], lambda k: to_arr(p[2](k)).at(*idx), va.kind))
                r = r + s
    return r
@model(all)
def m_all(x):
    r = True
    for p in segs_of(x):
        if p[0] == 'c': v = p[1]; v = v if isinstance(v, Sym) else truth(v)
        else: v = arrays.quant(p[1], lambda k: p[2](k), True)
        r = bitop('&', r, mk('b', to_bool(v)))
        if r is False: return False
    return r
@model(any)
def m_any(x):
    r = False
    for p in segs_of(x):
        if p[0] == 'c': v = p[1]; v = v if isinstance(v, Sym) else truth(v)
        else: v = arrays.quant(p[1], lambda k: p[2](k), False)
        r = bitop('|', r, mk('b', to_bool(v)))
        if r is True: return True
    return r
def _ext(args, ismax):
    it = args[0] if len(args) == 1 else list(args)
    ps = segs_of(it); r = None
    for p in ps:
        v = p[1] if p[0] == 'c' else arrays.extremum(p[1], p[2], ismax, kind_of(p[2](z3.Int('dum!i'))))
        v = pyint(v)
        r = v if r is None else ite(to_bool(cmp('>' if ismax else '<', v, r)), v, r)
    if r is None: raise ValueError("max() arg is an empty sequence")
    return r
@model(max)
def m_max(*a, **k):
    if k: raise Unsupported("max key")
    return _ext(a, True)
@model(min)
def m_min(*a, **k):
    if k: raise Unsupported("min key")
    return _ext(a, False)
@model(divmod)
def m_divmod(a, b): return a // b, a % b
@model(map)
def m_map(f, *its):
    out = []
    z = m_zip(*its)
    for p in segs_of(z):
        if p[0] == 'c': out.append(call(f, list(p[1]), {}))
        else:
            k, paths = interp.generic_paths(p[1], lambda k, p=p: call(f, list(p[2](k)), {}), "map")
            v = interp.merge_paths(paths)
            out.append(Seg(p[1], lambda j, v=v, k=k: interp.subst_val_(v, k, j)))
    return created(out)
@model(filter)
def m_filter(f, it):
    out = []
    for p in segs_of(it):
        if p[0] == 'c':
            if truth(call(f, [p[1]], {}) if f is not None else p[1]): out.append(p[1])
        else: raise Unsupported("filter")
    return created(out)
def tname(t): return getattr(t, '__name__', '')
INTS = (int, np.integer, np.int64, np.int32, np.signedinteger, numbers.Integral)
FLTS = (float, np.floating, np.float64, np.inexact)
CPX = (complex, np.complexfloating, np.complex128, np.inexact)
GEN = (numbers.Number, np.number, np.generic, object, numbers.Real, numbers.Complex)
@model(isinstance, always=True)
def m_isinstance(x, T):
    if isinstance(T, tuple): return builtins.any(m_isinstance(x, t) for t in T)
    if isinstance(x, interp.Poison): raise interp.PoisonRead(x.loc)
    if isinstance(x, Sym):
        if x.kind == 'i': return T in INTS or T in GEN
        if x.kind == 'f': return T in FLTS or T in GEN
        if x.kind == 'c': return T in CPX or T in (numbers.Number, np.number, np.generic, object, numbers.Complex)
        return T in (bool, np.bool_, object, int, np.generic)
    if isinstance(x, SArr): return T in (np.ndarray, object, collections.abc.Iterable)
    if isinstance(x, SSeq): return T in (range, object, list) if x.what != 'keys' else T in (object, type({}.keys()))
    if isinstance(x, SSet): return T in (set, object)
    if isinstance(x, interp.Func): return T in (object,) or tname(T) in ('function', 'Callable')
    return isinstance(x, T)
@model(type, always=True)
def m_type(x, *a):
    if a: raise Unsupported("type()")
    if isinstance(x, Sym): return {'i': int, 'f': float, 'c': complex, 'b': bool}[x.kind]
    if isinstance(x, SArr): return np.ndarray
    if isinstance(x, SSet): return set
    return type(x)
@model(hasattr, always=True)
def m_hasattr(o, n):
    try: interp.getattr_any(o, n); return True
    except AttributeError: return False
@model(getattr, always=True)
def m_getattr(o, n, *d):
    try: return interp.getattr_any(o, n)
    except AttributeError:
        if d: return d[0]
        raise
@model(setattr, always=True)
def m_setattr(o, n, v): interp.setattr_any(o, n, v)
@model(object.__setattr__, always=True)
def m_osetattr(o, n, v):
    log_attr(o, n); object.__setattr__(o, n, v)
@model(print, always=True)
def m_print(*a, **k): return None
@model(warnings.warn, always=True)
def m_warn(*a, **k): return None
@model(callable, always=True)
def m_callable(x): return isinstance(x, (interp.Func, interp.SMeth)) or callable(x)
@model(id, always=True)
def m_id(x): return id(x)
@model(copy.deepcopy, always=True)
def m_deepcopy(x, memo=None):
    r = copy.deepcopy(x)
    return created_deep(r)
@model(copy.copy, always=True)
def m_copy(x):
    if isinstance(x, SArr): return x.__copy__()
    return created(copy.copy(x)) if isinstance(x, (list, dict)) or hasattr(x, '__dict__') else copy.copy(x)
@model(slice)
def m_slice(*a): return slice(*[pyint(x) for x in a])
@model(operator.index)
def m_index(x): return x
@model(iter)
def m_iter(x): return x
@model(functools.reduce)
def m_reduce(f, it, *init):
    ps = segs_of(it)
    if builtins.any(p[0] == 'g' for p in ps): raise Unsupported("reduce over symbolic sequence")
    vals = [p[1] for p in ps]
    r = init[0] if init else vals.pop(0)
    for v in vals: r = call(f, [r, v], {})
    return r
@model(itertools.product)
def m_product(*its, repeat=1):
    pss = [segs_of(i) for i in its] * repeat
    if all(all(p[0] == 'c' for p in ps) for ps in pss): return created(list(itertools.product(*[[p[1] for p in ps] for ps in pss])))
    sq = [seqs.to_seq(i) for i in list(its) * repeat]
    n = 1
    for m, _ in sq: n = imul(n, m)
    def fn(k):
        out = []
        for m, f in sq[::-1]: out.append(f(imod(k, m))); k = idiv(k, m)
        return tuple(out[::-1])
    return SSeq(n, fn, "product")

# ------------------------------------------------------------------ array creation
def shape_arg(s):
    s = demote(s) if isinstance(s, SArr) else s
    if isinstance(s, (tuple, list)): return tuple(as_int(pyint(x)) for x in s)
    if isinstance(s, np.ndarray): return tuple(int(x) for x in np.atleast_1d(s))
    return (as_int(pyint(s)),)
def kind_arg(dt, default='f'):
    if dt is None: return default
    if dt in (bool, np.bool_): return 'b'
    return kind_of_type(dt)
ZERO = {'b': False, 'i': 0, 'f': 0.0, 'c': 0j, 'O': None, 'U': ''}
ONE = {'b': True, 'i': 1, 'f': 1.0, 'c': 1 + 0j}
@model(np.zeros, np.empty, always=True)
def np_zeros(shape, dtype=None, order=None): k = kind_arg(dtype); return arrays.full(shape_arg(shape), ZERO[k], k)
@model(np.ones, always=True)
def np_ones(shape, dtype=None, order=None): k = kind_arg(dtype); return arrays.full(shape_arg(shape), ONE[k], k)
@model(np.full, always=True)
def np_full(shape, v, dtype=None):
    v = pyint(v)
    if is_scalar(v): k = kind_arg(dtype, kind_of(v)); return arrays.full(shape_arg(shape), cast(v, k), k)
    g = to_arr(v); shp = shape_arg(shape); gg = arrays.bget(g.snap(), g.shape_, len(shp))
    return new(shp, g.kind, gg)
def like(x): return x if isinstance(x, SArr) else to_arr(x)
@model(np.zeros_like, np.empty_like)
def np_zl(a, dtype=None): a = like(a); k = kind_arg(dtype, a.kind); return arrays.full(a.shape_, ZERO[k], k)
@model(np.ones_like)
def np_ol(a, dtype=None): a = like(a); k = kind_arg(dtype, a.kind); return arrays.full(a.shape_, ONE[k], k)
@model(np.full_like)
def np_fl(a, v, dtype=None): a = like(a); k = kind_arg(dtype, a.kind); return arrays.full(a.shape_, cast(v, k), k)
@model(np.array, np.asarray, np.asanyarray, np.ascontiguousarray)
def np_array(x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, SArr): r = arrays.copy_(x); r.meta.update(x.meta)
    elif is_scalar(x): r = to_arr(x)
    else: r = seqs.list_to_arr(list(x)) if isinstance(x, (list, tuple)) else to_arr(x)
    if dtype is not None:
        k = kind_arg(dtype)
        if k != r.kind and k in 'bifc': r = arrays.astype(r, k)
    while r.ndim < ndmin: r = arrays.getitem(r, (None, Ellipsis))
    return r
def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and (dtype is None or kind_arg(dtype) == x.kind): return x
    return np_array(x, dtype)
MODELS[np.asarray] = MODELS[np.asanyarray] = MODELS[np.ascontiguousarray] = np_asarray
@model(np.copy)
def np_copy(x): return np_array(x)
@model(np.arange)
def np_arange(*a, dtype=None):
    a = [pyint(x) for x in a]
    if dtype is not None and kind_arg(dtype) == 'i': a = a
    if builtins.all(kind_of(x) in 'bi' for x in a):
        s = m_range(*a); k = 'i'
        r = new((s.n,), 'i', lambda idx: s.fn(idx[0]))
        st = a[0] if len(a) > 1 else 0
        if isinstance(st, int) and st >= 0: r.meta['nonneg'] = True
        return arrays.astype(r, kind_arg(dtype)) if dtype is not None and kind_arg(dtype) != 'i' else r
    st, sp, step = (0.0, a[0], 1.0) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1.0)
    n = ceil(arith('/', arith('-', sp, st), step))
    n = as_int(cast(n, 'i')) if is_scalar(n) else n
    return new((arrays.nonneg(n),), 'f', lambda idx: arith('+', cast(st, 'f'), arith('*', mk('i', idx[0]), step)))
@model(np.linspace)
def np_linspace(a, b, num=50, endpoint=True, **kw):
    n = as_int(pyint(num))
    den = isub(n, 1) if endpoint else n
    d = mk('i', den) if not isinstance(den, int) else den
    return new((n,), 'f', lambda idx: ite(ieq(n, 1), cast(a, 'f'), arith('+', cast(a, 'f'), arith('/', arith('*', mk('i', idx[0]), arith('-', b, a)), d))))
@model(np.eye, np.identity, always=True)
def np_eye(n, M=None, k=0, dtype=None):
    n = as_int(pyint(n)); kd = kind_arg(dtype)
    return new((n, n if M is None else as_int(M)), kd, lambda ix: ite(ieq(ix[0] if k == 0 else iadd(ix[0], k), ix[1]), ONE[kd], ZERO[kd]))
@model(np.diag)
def np_diag(v, k=0):
    v = arr(v)
    if k != 0: raise Unsupported("diag k")
    if v.ndim == 1:
        g = v.snap(); n = v.shape_[0]
        return new((n, n), v.kind, lambda ix: ite(ieq(ix[0], ix[1]), g((ix[0],)), ZERO[v.kind]))
    g = v.snap(); return new((imin(v.shape_[0], v.shape_[1]) if not arrays.same_dim(*v.shape_) else v.shape_[0],), v.kind, lambda ix: g((ix[0], ix[0])))
@model(np.diagonal)
def np_diagonal(v, offset=0, axis1=0, axis2=1):
    v = arr(v); nd = v.ndim; a1, a2 = axis1 % nd, axis2 % nd
    rest = [d for i, d in enumerate(v.shape_) if i not in (a1, a2)]; g = v.snap()
    n = v.shape_[a1] if arrays.dim_eq(v.shape_[a1], v.shape_[a2]) else imin(v.shape_[a1], v.shape_[a2])
    def fn(ix):
        out = []; r = list(ix[:-1])
        for i in range(nd): out.append(ix[-1] if i in (a1, a2) else r.pop(0))
        return g(tuple(out))
    return new(tuple(rest) + (n,), v.kind, fn)
@model(np.meshgrid)
def np_meshgrid(*xs, indexing='xy'):
    xs = [arr(x) for x in xs]
    if len(xs) != 2: raise Unsupported("meshgrid")
    a, b = xs; ga, gb = a.snap(), b.snap()
    if indexing == 'xy': shp = (b.shape_[0], a.shape_[0]); return [new(shp, a.kind, lambda ix: ga((ix[1],))), new(shp, b.kind, lambda ix: gb((ix[0],)))]
    shp = (a.shape_[0], b.shape_[0]); return [new(shp, a.kind, lambda ix: ga((ix[0],))), new(shp, b.kind, lambda ix: gb((ix[1],)))]

# ------------------------------------------------------------------ elementwise
def keep_where(r, out, where):
    """what an operation with where= leaves in out"""
    if out is None: raise Unsupported("ufunc where without out")
    return elementwise(lambda c, x, y: ite(to_bool(c), x, y), [where, r, out])
def _bin(op):
    def f(a, b, out=None, where=None, dtype=None, **kw):
        if is_scalar(a) and is_scalar(b) and out is None: return arith(op, a, b)
        r = elementwise(lambda x, y: arith(op, x, y), [a, b])
        if where is not None and where is not True: r = keep_where(r, out, where)
        if out is not None: arrays.assign_view(out, r); return out
        return r
    return f
for op, fs in {'+': [np.add, operator.add], '-': [np.subtract, operator.sub], '*': [np.multiply, operator.mul], '/': [np.true_divide, np.divide, operator.truediv], '//': [np.floor_divide], '%': [np.mod, np.remainder]}.items():
    for x in fs: MODELS[x] = _bin(op)
@model(np.power)
def np_power(a, b): return power(a, b) if is_scalar(a) and is_scalar(b) else elementwise(power, [a, b])
def _un(f, kind=None):
    def g(a, out=None, where=None, **kw):
        a = pyint(a)
        if out is not None:
            r = elementwise(f, [a], kind=None)
            if where is not None and where is not True: r = keep_where(r, out, where)
            arrays.assign_view(out, r); return out
        if where is not None and where is not True: raise Unsupported("ufunc where without out")
        return f(a) if is_scalar(a) else elementwise(f, [a], kind=None)
    return g
def sq(x): return arith('*', x, x)
for fs, f in (((np.sqrt, math.sqrt), sqrt), ((np.exp, math.exp), exp), ((np.conj, np.conjugate), conj), ((np.log, math.log), log), ((np.sin, math.sin), sin), ((np.sinh, math.sinh), sinh), ((np.cosh, math.cosh), cosh), ((np.tanh, math.tanh), tanh), ((np.cos, math.cos), cos),
              ((np.negative,), neg), ((np.square,), sq), ((np.invert, np.logical_not), lambda v: invert(mk('b', to_bool(v)) if isinstance(v, Sym) else bool(v))), ((np.isnan,), lambda v: False), ((np.isinf,), lambda v: False), ((np.isfinite,), lambda v: True),
              ((np.rint,), rint), ((np.real,), re_), ((np.imag,), im_), ((np.sign,), lambda v: ite(to_bool(cmp('>', v, 0)), 1, ite(to_bool(cmp('<', v, 0)), -1, 0)) if kind_of(v) == 'i' else ite(to_bool(cmp('>', v, 0)), 1.0, ite(to_bool(cmp('<', v, 0)), -1.0, 0.0)))):
    for x in fs: MODELS[x] = _un(f)
MODELS[math.floor] = lambda x: cast(floor(x), 'i')
MODELS[math.ceil] = lambda x: cast(ceil(x), 'i')
MODELS[np.floor] = _un(floor); MODELS[np.ceil] = _un(ceil)
def trunc_(v):
    if kind_of(v) in 'bi': return cast(v, 'f')
    return cast(cast(v, 'i'), 'f')
MODELS[np.trunc] = _un(trunc_)
def np_around(a, decimals=0):
    d = int(decimals)
    if d == 0: f = rint
    else: f = lambda v: arith('/', rint(arith('*', v, 10.0 ** d)), 10.0 ** d)
    return f(a) if is_scalar(a) else elementwise(f, [a])
MODELS[np.around] = MODELS[np.round] = np_around
def _cmpf(op):
    return lambda a, b, **k: cmp(op, a, b) if is_scalar(a) and is_scalar(b) else elementwise(lambda x, y: cmp(op, x, y), [a, b], kind='b')
for op, x in {'==': np.equal, '!=': np.not_equal, '<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal}.items(): MODELS[x] = _cmpf(op)
def tb(v): return mk('b', to_bool(v)) if isinstance(v, Sym) else bool(v)
def _log(op):
    return lambda a, b, **k: bitop(op, tb(a), tb(b)) if is_scalar(a) and is_scalar(b) else elementwise(lambda x, y: bitop(op, tb(x), tb(y)), [a, b], kind='b')
MODELS[np.logical_and] = _log('&'); MODELS[np.logical_or] = _log('|'); MODELS[np.logical_xor] = _log('^')
MODELS[np.bitwise_and] = _log('&'); MODELS[np.bitwise_or] = _log('|')
def above(x, y):
    """numpy's order: complex numbers by real part, then by imaginary part"""
    if core._c(x, y) != 3 or core.both_concrete(x, y): return to_bool(cmp('>', x, y))
    (a, b), (c, d) = core.to_cplx(x), core.to_cplx(y)
    a, c, b, d = (mk('f', v) for v in (a, c, b, d)); return to_bool(bitop('|', cmp('>', a, c), bitop('&', cmp('==', a, c), cmp('>', b, d))))
def mx(x, y): return ite(above(x, y), x, y)
def mn(x, y): return ite(above(y, x), x, y)
MODELS[np.maximum] = lambda a, b: mx(a, b) if is_scalar(a) and is_scalar(b) else elementwise(mx, [a, b])
MODELS[np.minimum] = lambda a, b: mn(a, b) if is_scalar(a) and is_scalar(b) else elementwise(mn, [a, b])
@model(np.clip)
def np_clip(a, lo, hi, **k):
    f = lambda v: mn(mx(v, lo) if lo is not None else v, hi) if hi is not None else mx(v, lo)
    return f(a) if is_scalar(a) else elementwise(f, [a])
def iscl(x, y, rtol, atol):
    return cmp('<=', absv(arith('-', x, y)), arith('+', atol, arith('*', rtol, absv(y))))
@model(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: iscl(x, y, rtol, atol)
    a, b = pyint(a), pyint(b)
    return f(a, b) if is_scalar(a) and is_scalar(b) else elementwise(f, [a, b], kind='b')
@model(np.allclose)
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol); return r if is_scalar(r) else arrays.all_(r)
@model(np.array_equal)
def np_array_equal(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape_, b.shape_):
        r = arrays.dim_eq(x, y)
        if r is False or (r is None and not E.branch(ieq(x, y))): return False
    return arrays.all_(cmp('==', a, b))
@model(np.where)
def np_where(c, *ab):
    if not ab:
        c = arr(c)
        if c.ndim != 1: raise Unsupported("where on n-d")
        return (arrays.mask_to_idx(c if c.kind == 'b' else cmp('!=', c, 0)),)
    f = lambda x, p, q: ite(to_bool(x), p, q)
    if is_scalar(c) and is_scalar(ab[0]) and is_scalar(ab[1]): return f(c, *ab)
    ks = [kind_of(v) if is_scalar(v) else to_arr(v).kind for v in ab]
    k = max(ks, key=lambda x: KORD.get(x, 9)) if builtins.all(x in KORD for x in ks) else 'O'
    return elementwise(lambda x, p, q: cast(f(x, p, q), k), [c, *ab], kind=k)
@model(np.nonzero, np.flatnonzero, np.argwhere)
def np_nonzero(c): return np_where(c)
MODELS[np.flatnonzero] = lambda c: np_where(arrays.ravel(arr(c)))[0]
@model(np.nan_to_num)
def np_n2n(a, *r, **k): return np_array(a)
@model(np.angle)
def np_angle(a): raise Unsupported("angle")
@model(np.sinc)
def np_sinc(x): raise Unsupported("sinc")

# ------------------------------------------------------------------ reductions
def red(f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **kw):
        if is_scalar(a): a = to_arr(a)
        if where is not None and where is not True: raise Unsupported("where=")
        return f(arr(a), pyint(axis) if axis is not None and not isinstance(axis, (tuple, list)) else axis, bool(keepdims))
    return g
np_sum = red(arrays.sum_); np_mean = red(arrays.mean_)
MODELS[np.sum] = MODELS[np.nansum] = MODELS[np.add.reduce] = np_sum
MODELS[np.mean] = MODELS[np.nanmean] = np_mean
MODELS[np.all] = red(lambda a, ax, kd: arrays.all_(a, ax, kd)); MODELS[np.any] = red(lambda a, ax, kd: arrays.any_(a, ax, kd))
MODELS[np.max] = MODELS[np.amax] = MODELS[np.nanmax] = red(lambda a, ax, kd: arrays.max_(a, ax, kd, True))
MODELS[np.min] = MODELS[np.amin] = MODELS[np.nanmin] = red(lambda a, ax, kd: arrays.max_(a, ax, kd, False))
for x, f in {'logical_or': any, 'logical_and': all}.items():
    def mk_red(isor):
        def g(a, axis=0, **kw):
            a = list(a) if isinstance(a, (list, tuple)) and not seqs.has_seg(a) else arr(a)
            if isinstance(a, list):
                if axis != 0: a = arr(a)
                else:
                    r = a[0]
                    for y in a[1:]: r = _log('|' if isor else '&')(r, y)
                    return r if isinstance(r, SArr) or is_scalar(r) else arr(r)
            return (arrays.any_ if isor else arrays.all_)(a, axis)
        return g
    MODELS[getattr(np, x).reduce] = mk_red(x == 'logical_or')
def np_prod(a, axis=None, **k):
    if isinstance(a, (list, tuple)) and builtins.all(is_scalar(x) for x in a):
        r = 1
        for x in a: r = arith('*', r, x)
        return r
    a = arr(a)
    def f(n, body, inner):
        if not isinstance(n, int): raise Unsupported("product over symbolic length")
        r = 1
        for i in range(n): r = arith('*', r, body(i))
        return r
    return arrays.reduce(a, axis, False, f, a.kind)
MODELS[np.prod] = np_prod
def np_count_nonzero(a, axis=None, **k):
    a = arr(a); return arrays.sum_(elementwise(tb, [a], kind='b'), axis)
MODELS[np.count_nonzero] = np_count_nonzero
def argext(a, axis, ismax):
    a = arr(a)
    if axis is None and a.ndim != 1: raise Unsupported("argmax n-d")
    ax = 0 if axis is None else axis % a.ndim
    g = a.snap(); n = a.shape_[ax]
    rest = [d for i, d in enumerate(a.shape_) if i != ax]
    def fn(ix):
        body = lambda t: g(tuple(ix[:ax]) + (t,) + tuple(ix[ax:]))
        if isinstance(n, int):
            if n == 0: raise ValueError("attempt to get argmax of an empty sequence")
            r, w = body(0), 0
            for i in range(1, n):
                v = body(i); c = to_bool(cmp('>' if ismax else '<', v, r)); r, w = ite(c, v, r), iite(c, i, w)
            return w if isinstance(w, int) else mk('i', w)
        v = arrays.extremum(n, body, ismax, a.kind)
        rec = E.memo.get('argext', {}).get(v.e.get_id()) if isinstance(v, Sym) else None
        if rec is None: return 0
        return mk('i', rec[1])
    r = new(rest, 'i', fn); r.meta['nonneg'] = True
    return r.at() if r.ndim == 0 else r
MODELS[np.argmax] = MODELS[np.nanargmax] = lambda a, axis=None: argext(a, axis, True)
MODELS[np.argmin] = MODELS[np.nanargmin] = lambda a, axis=None: argext(a, axis, False)
def np_median(a, axis=None, **k):
    a = arr(a); return _opaque_reduce('median', a, axis)
def _opaque_reduce(name, a, axis):
    ax = range(a.ndim) if axis is None else [axis % a.ndim]
    ax = list(ax); g = a.snap(); rest = [i for i in range(a.ndim) if i not in ax]
    def fn(ix):
        bs = [E.bound() for _ in ax]
        try:
            full = [None] * a.ndim
            for p, i in zip(rest, ix): full[p] = i
            for p, b in zip(ax, bs): full[p] = b
            v = g(tuple(full))
        finally:
            for _ in bs: E.unbound()
        ex = [zi(a.shape_[p]) for p in ax] + [z3.simplify(t) for t in zterms(v)]
        return mk('f', E.opaque(name, ex, bs, [])[0])
    r = new([a.shape_[i] for i in rest], 'f', fn)
    return r.at() if r.ndim == 0 else r
MODELS[np.median] = MODELS[np.nanmedian] = np_median
def np_var(a, axis=None, ddof=0, **k):
    a = arr(a); m = arrays.mean_(a, axis, keepdims=True)
    d = a - m if isinstance(m, SArr) else elementwise(lambda x: arith('-', x, m), [a])
    d2 = elementwise(lambda x: (arith('+', arith('*', re_(x), re_(x)), arith('*', im_(x), im_(x))) if kind_of(x) == 'c' else arith('*', x, x)), [d])
    s = arrays.sum_(d2, axis); n = arrays.count(a, arrays.norm_axes(a, axis))
    return arith('/', s, arith('-', n, ddof) if ddof else n)
MODELS[np.var] = np_var
MODELS[np.std] = lambda a, axis=None, ddof=0, **k: _un(sqrt)(np_var(a, axis, ddof))
@model(np.average)
def np_average(a, axis=None, weights=None, returned=False):
    a = arr(a)
    if weights is None: return arrays.mean_(a, axis)
    w = arr(weights)
    if w.ndim != a.ndim:
        if w.ndim != 1 or axis is None: raise TypeError("1D weights expected")
        ax = axis % a.ndim; w = arrays.getitem(w, tuple(slice(None) if i == ax else None for i in range(a.ndim)))
    s = arrays.sum_(w + arrays.full(a.shape_, 0, 'i') if w.shape_ != a.shape_ else w, axis); r = arith('/', arrays.sum_(a * w, axis), s)
    return (r, s) if returned else r
@model(np.trapz if hasattr(np, 'trapz') else None, getattr(np, 'trapezoid', None))
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = arr(y); axis = axis % y.ndim
    n = y.shape_[axis]
    sl = lambda s: tuple(s if i == axis else slice(None) for i in range(y.ndim))
    hi, lo = arrays.getitem(y, sl(slice(1, None))), arrays.getitem(y, sl(slice(None, -1)))
    if x is None: d = dx
    else:
        x = arr(x); d = arrays.getitem(x, slice(1, None)) - arrays.getitem(x, slice(None, -1))
        if y.ndim > 1: d = arrays.getitem(d, tuple(slice(None) if i == axis else None for i in range(y.ndim)))
    return arrays.sum_((hi + lo) * d / 2.0, axis)
@model(np.cumsum)
def np_cumsum(a, axis=None):
    a = arr(a)
    if a.ndim != 1: raise Unsupported("cumsum")
    g = a.snap()
    return new(a.shape_, 'i' if a.kind == 'b' else a.kind, lambda ix: E.sum(iadd(ix[0], 1), lambda k: g((k,)), a.kind))
@model(np.diff)
def np_diff(a, n=1, axis=-1):
    a = arr(a); axis = axis % a.ndim
    if n != 1: raise Unsupported("diff n")
    sl = lambda s: tuple(s if i == axis else slice(None) for i in range(a.ndim))
    r = arrays.getitem(a, sl(slice(1, None))) - arrays.getitem(a, sl(slice(None, -1)))
    if a.ndim == 1: r.meta['diff_of'] = (a, a.snap())
    return r
@model(np.ediff1d)
def np_ediff(a): return np_diff(arrays.ravel(arr(a)))

# ------------------------------------------------------------------ linear algebra
def matmul(a, b):
    a, b = arr(a), arr(b)
    k = a.kind if KORD[a.kind] >= KORD[b.kind] else b.kind
    if k == 'b': raise Unsupported("bool matmul")
    a1, b1 = a.ndim == 1, b.ndim == 1
    ka, kb = a.shape_[-1], b.shape_[0 if b1 else b.ndim - 2]
    d = arrays.dim_eq(ka, kb)
    if d is False: raise ValueError("matmul: mismatch in core dimension")
    if d is None and not E.branch(ieq(ka, kb)): raise ValueError("matmul: mismatch")
    ga, gb = a.snap(), b.snap()
    ba = a.shape_[:-1] if a1 else a.shape_[:-2]; bb = () if b1 else b.shape_[:-2]
    if a1: ba = ()
    bsh = arrays.bshape([ba, bb]) if ba or bb else ()
    nb = len(bsh)
    out = tuple(bsh) + (() if a1 else (a.shape_[-2],)) + (() if b1 else (b.shape_[-1],))
    fa = arrays.bget(lambda ix: ix, ba, nb) if ba else (lambda ix: ())
    fb = arrays.bget(lambda ix: ix, bb, nb) if bb else (lambda ix: ())
    def fn(ix):
        bi = tuple(ix[:nb]); rest = list(ix[nb:])
        i = () if a1 else (rest.pop(0),); j = () if b1 else (rest.pop(0),)
        return E.sum(ka, lambda t: arith('*', ga(tuple(fa(bi)) + i + (t,)), gb(tuple(fb(bi)) + (t,) + j)), k)
    r = new(out, k, fn)
    return r.at() if r.ndim == 0 else r
MODELS[np.matmul] = matmul
@model(np.dot)
def np_dot(a, b):
    if is_scalar(a) or is_scalar(b): return arith('*', a, b)
    a, b = arr(a), arr(b)
    if b.ndim > 2: raise Unsupported("dot n-d")
    if a.ndim > 2:
        L = "abcdef"[:a.ndim - 1]; return np_einsum(f"{L}y,y{'z' * (b.ndim - 1)}->{L}{'z' * (b.ndim - 1)}", a, b)
    return matmul(a, b)
@model(np.outer)
def np_outer(a, b):
    a, b = arrays.ravel(arr(a)), arrays.ravel(arr(b)); ga, gb = a.snap(), b.snap()
    return new((a.shape_[0], b.shape_[0]), a.kind if KORD[a.kind] >= KORD[b.kind] else b.kind, lambda ix: arith('*', ga((ix[0],)), gb((ix[1],))))
@model(np.trace)
def np_trace(a, offset=0, axis1=0, axis2=1):
    if offset: raise Unsupported("trace with an offset")
    return arrays.sum_(np_diagonal(a, 0, axis1, axis2), -1)
@model(np.einsum)
def np_einsum(spec, *ops, optimize=None, **kw):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(','); ops = [arr(o) for o in ops]
    if builtins.any('...' in s for s in ins):
        L = [c for c in "ZYXWVU" if c not in spec]; n = [o.ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]; m = builtins.max(n)
        if m > len(L) or builtins.any(x < 0 for x in n): raise Unsupported("einsum ellipsis")
        ins = [s.replace('...', ''.join(L[m - x:m])) for s, x in zip(ins, n)]
        if out is not None: out = out.replace('...', ''.join(L[:m]))
        else: raise Unsupported("einsum ellipsis without output")
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise ValueError("einstein sum subscripts string does not match operand")
    if out is None:
        allc = ''.join(ins); out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape_):
            if c in dims:
                if isinstance(dims[c], int) and dims[c] == 1: dims[c] = d; continue
                if isinstance(d, int) and d == 1: continue
                r = arrays.dim_eq(dims[c], d)
                if r is False or (r is None and not E.branch(ieq(dims[c], d))): raise ValueError("einsum dimension mismatch")
            else: dims[c] = d
    summed = [c for c in dict.fromkeys(''.join(ins)) if c not in out]
    gs = [(s, arrays.bget(o.snap(), o.shape_, o.ndim)) for s, o in zip(ins, ops)]
    k = max([o.kind for o in ops], key=lambda x: KORD[x])
    def fn(ix):
        env = dict(zip(out, ix))
        def rec(cs):
            if not cs:
                r = None
                for s, g in gs:
                    v = g(tuple(env[c] for c in s)); r = v if r is None else arith('*', r, v)
                return r
            def body(t):
                env[cs[0]] = t; return rec(cs[1:])
            return E.sum(dims[cs[0]], body, k)
        return rec(summed)
    r = new([dims[c] for c in out], k, fn)
    return r.at() if r.ndim == 0 else r
def opaque_matrix(name, a, kind):
    """uninterpreted matrix function of a 2-d array (inverse, square root, Cholesky ...), a function of its entries"""
    a = arr(a); g = a.snap()
    if a.ndim != 2: raise Unsupported(f"{name} of {a.ndim}-d array")
    def fn(ix):
        b1, b2 = E.bound(), E.bound()
        try: v = g((b1, b2))
        finally: E.unbound(); E.unbound()
        ex = [zi(a.shape_[0]), zi(a.shape_[1])] + [z3.simplify(t) for t in zterms(v)]
        re = E.opaque(name + "_re", ex, [b1, b2], ix)[0]
        if kind == 'f' or a.kind != 'c': return mk('f', re)
        return mk('c', re, E.opaque(name + "_im", ex, [b1, b2], ix)[0])
    return new((a.shape_[0], a.shape_[1]), 'f' if (kind == 'f' or a.kind != 'c') else 'c', fn)
MODELS[np.linalg.inv] = lambda a: opaque_matrix("inv", a, None)
MODELS[np.linalg.pinv] = lambda a, *r, **k: opaque_matrix("pinv", a, None)
MODELS[np.linalg.cholesky] = lambda a: opaque_matrix("chol", a, None)

# ------------------------------------------------------------------ structure
@model(np.moveaxis)
def np_moveaxis(a, s, d): return arrays.moveaxis(arr(a), s, d)
@model(np.transpose)
def np_transpose(a, axes=None): return arrays.transpose(arr(a), axes)
@model(np.swapaxes)
def np_swapaxes(a, i, j):
    a = arr(a); ax = list(range(a.ndim)); ax[i], ax[j] = ax[j], ax[i]; return arrays.transpose(a, ax)
@model(np.reshape)
def np_reshape(a, s, **k): return arrays.reshape(arr(a), s)
@model(np.ravel)
def np_ravel(a): return arrays.ravel(arr(a))
@model(np.squeeze)
def np_squeeze(a, axis=None):
    a = arr(a)
    key = []
    for i, d in enumerate(a.shape_):
        if axis is None: key.append(0 if isinstance(d, int) and d == 1 else slice(None))
        else: key.append(0 if i == axis % a.ndim else slice(None))
    return arrays.view(a, tuple(key)) if builtins.any(k == 0 for k in key if not isinstance(k, slice)) else a
@model(np.expand_dims)
def np_expand(a, axis):
    a = arr(a); axis = axis % (a.ndim + 1)
    return arrays.getitem(a, tuple([slice(None)] * axis + [None]))
@model(np.atleast_1d)
def np_atleast1(a): a = arr(a); return a if a.ndim else arrays.getitem(a, (None,))
@model(np.atleast_2d)
def np_atleast2(a):
    a = arr(a)
    return a if a.ndim >= 2 else (arrays.getitem(a, (None, slice(None))) if a.ndim == 1 else arrays.getitem(a, (None, None)))
@model(np.shape)
def np_shape(a): return arr(a).shape
@model(np.ndim)
def np_ndim(a): return 0 if is_scalar(a) else arr(a).ndim
@model(np.size)
def np_size(a, axis=None):
    a = arr(a); return a.size if axis is None else a.shape[axis]
@model(np.concatenate)
def np_concat(parts, axis=0, **kw):
    ps = [arr(x) for x in (seqs.from_pieces(seqs.pieces_of(parts)) if not isinstance(parts, (list, tuple)) else parts) if not isinstance(x, Seg)]
    if seqs.has_seg(parts): raise Unsupported("concatenate of symbolic list")
    if axis is None: ps = [arrays.ravel(x) for x in ps]; axis = 0
    axis = axis % ps[0].ndim
    ps2 = [p for p in ps if not (isinstance(p.shape_[axis], int) and p.shape_[axis] == 0)] or ps[:1]
    kinds = [p.kind for p in ps2]
    k = max(kinds, key=lambda x: KORD.get(x, 9))
    off = []; tot = 0
    for p in ps2: off.append(tot); tot = iadd(tot, p.shape_[axis])
    shp = list(ps2[0].shape_)
    for p in ps2[1:]:
        for i, (x, y) in enumerate(zip(shp, p.shape_)):
            if i != axis and arrays.dim_eq(x, y) is not True:
                if arrays.dim_eq(x, y) is False or not E.branch(ieq(x, y)): raise ValueError("all the input array dimensions must match")
    shp[axis] = tot; gs = [p.snap() for p in ps2]
    def fn(ix):
        i = ix[axis]; r = None
        for o, p, g in reversed(list(zip(off, ps2, gs))):
            c = ilt(i, iadd(o, p.shape_[axis])) if r is not None else True
            if z_false(c if isinstance(c, bool) else z3.simplify(c)): continue
            v = cast(g(tuple(ix[:axis]) + (isub(i, o),) + tuple(ix[axis + 1:])), k)
            lo = ile(o, i)
            r = v if r is None else ite(c, v, r)
        return r
    return new(shp, k, fn)
def _finite(f):
    def g(*a, **k):
        if any(not isinstance(x, (list, tuple)) or seqs.has_seg(x) for x in a if not isinstance(x, int)): raise Unsupported(f"{f.__name__} of a symbolic-length sequence")
        return created(list(f(*a, **k)))
    return g
for _f in (itertools.combinations, itertools.permutations, itertools.product): MODELS[_f] = _finite(_f)
@model(np.insert)
def np_insert(a, i, v, axis=None):
    a = arr(a)
    if axis is not None or a.ndim != 1 or i != 0 or not isinstance(v, (Sym, numbers.Number)): raise Unsupported("insert")
    return np_concat([np_atleast1(cast(v, a.kind)), a])
@model(np.append)
def np_append(a, b, axis=None): return np_concat([arr(a), np_atleast1(b)], axis)
@model(np.hstack)
def np_hstack(xs): xs = [np_atleast1(x) for x in xs]; return np_concat(xs, 0 if xs[0].ndim == 1 else 1)
@model(np.vstack)
def np_vstack(xs): return np_concat([np_atleast2(x) for x in seqs.from_pieces(seqs.pieces_of(xs))], 0)
@model(np.stack)
def np_stack(xs, axis=0):
    if isinstance(xs, (list, tuple)) and seqs.has_seg(xs): 
        a = seqs.list_to_arr(list(xs)); return arrays.moveaxis(a, 0, axis)
    a = seqs.list_to_arr(list(xs)); return arrays.moveaxis(a, 0, axis) if axis else a
@model(np.tile)
def np_tile(a, reps):
    a = arr(a); reps = shape_arg(reps)
    nd = max(a.ndim, len(reps)); reps = (1,) * (nd - len(reps)) + reps
    g = a.snap(); sh = (1,) * (nd - a.ndim) + a.shape_; off = nd - a.ndim
    return new([imul(d, r) for d, r in zip(sh, reps)], a.kind, lambda ix: g(tuple(i if isinstance(r, int) and r == 1 else imod(i, d) for i, d, r in list(zip(ix, sh, reps))[off:])))
@model(np.repeat)
def np_repeat(a, r, axis=None):
    a = arr(a)
    if axis is None: a = arrays.ravel(a); axis = 0
    axis = axis % a.ndim; r = pyint(r)
    if not is_scalar(r): raise Unsupported("repeat array")
    r = as_int(r); g = a.snap(); shp = list(a.shape_)
    one = isinstance(shp[axis], int) and shp[axis] == 1
    shp[axis] = imul(shp[axis], r)
    return new(shp, a.kind, lambda ix: g(tuple((0 if one else idiv(i, r)) if d == axis else i for d, i in enumerate(ix))))
@model(np.broadcast_to)
def np_bto(a, shape):
    a = arr(a); shp = shape_arg(shape); arrays.check_assign_shape(a.shape_, shp); return new(shp, a.kind, arrays.bget(a.snap(), a.shape_, len(shp)))
@model(np.flip, np.flipud)
def np_flip(a, axis=0): a = arr(a); return arrays.getitem(a, tuple(slice(None, None, -1) if i == axis % a.ndim else slice(None) for i in range(a.ndim)))
MODELS[np.fliplr] = lambda a: np_flip(a, 1)
@model(np.roll)
def np_roll(a, s, axis=None):
    a = arr(a)
    if axis is None and a.ndim != 1: raise Unsupported("roll")
    ax = (axis or 0) % a.ndim; g = a.snap(); n = a.shape_[ax]; s = as_int(s)
    return new(a.shape_, a.kind, lambda ix: g(tuple(imod(isub(i, s), n) if d == ax else i for d, i in enumerate(ix))))
@model(np.split, np.array_split)
def np_split(a, n, axis=0): raise Unsupported("split")
@model(np.fft.fftfreq)
def fftfreq(n, d=1.0):
    n = as_int(pyint(n)); N = idiv(iadd(n, 1), 2)
    return new((n,), 'f', lambda ix: arith('/', mk('i', iite(ilt(ix[0], N), ix[0], isub(ix[0], n))), arith('*', mk('i', n) if not isinstance(n, int) else n, d)))
@model(np.fft.fftshift)
def fftshift(a, axes=None):
    a = arr(a); axs = range(a.ndim) if axes is None else ([axes] if isinstance(axes, int) else axes)
    g = a.snap(); axs = [x % a.ndim for x in axs]
    def fn(ix):
        out = list(ix)
        for x in axs:
            n = a.shape_[x]; h = idiv(n, 2); s = isub(n, h)
            # out[i] = a[(i - n//2) mod n] = a[i + ceil(n/2)] if i < n//2 else a[i - n//2]
            out[x] = iite(ilt(ix[x], h), iadd(ix[x], s), isub(ix[x], h))
        return g(tuple(out))
    return new(a.shape_, a.kind, fn)
@model(np.fft.ifftshift)
def ifftshift(a, axes=None):
    a = arr(a); axs = range(a.ndim) if axes is None else ([axes] if isinstance(axes, int) else axes)
    g = a.snap(); axs = [x % a.ndim for x in axs]
    def fn(ix):
        out = list(ix)
        for x in axs:
            n = a.shape_[x]; h = idiv(n, 2)
            out[x] = iite(ilt(ix[x], isub(n, h)), iadd(ix[x], h), isub(ix[x], isub(n, h)))
        return g(tuple(out))
    return new(a.shape_, a.kind, fn)
def _dft(name):
    """discrete Fourier transforms are opaque linear operators along the axis: the same opaque function of the same
    input column (equality of inputs gives equality of outputs)"""
    def f(a, n=None, axis=-1, **k):
        a = arr(a); axis = axis % a.ndim; g = a.snap()
        def fn(ix):
            b = E.bound()
            try: v = g(tuple(ix[:axis]) + (b,) + tuple(ix[axis + 1:]))
            finally: E.unbound()
            ex = [zi(a.shape_[axis])] + [z3.simplify(t) for t in to_cplx(v)]
            return mk('c', E.opaque(name + "_re", ex, [b], [ix[axis]])[0], E.opaque(name + "_im", ex, [b], [ix[axis]])[0])
        return new(a.shape_, 'c', fn)
    return f
for nm in ('fft', 'ifft'): MODELS[getattr(np.fft, nm)] = _dft(nm)

# ------------------------------------------------------------------ sets / searching
@model(np.unique)
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    if k.get('axis') is not None: raise Unsupported("unique axis")
    u, c, fi, inv = seqs.unique_arr(arr(a) if not isinstance(a, SSet) else arr(a.items))
    if return_counts: raise Unsupported("unique counts")
    out = [u] + ([fi] if return_index else []) + ([inv] if return_inverse else [])
    return out[0] if len(out) == 1 else tuple(out)
@model(np.isin)
def np_isin(a, b, invert=False, assume_unique=False):
    if isinstance(b, SSet): b = b.items
    if isinstance(b, (Sym, numbers.Number)): b = [b]
    if isinstance(b, (Sym, numbers.Number)): b = [b]
    f = (lambda x: seqs.contains_val(b, x)) if not isinstance(b, (np.ndarray,)) else (lambda x: seqs.contains_val(from_np(b), x))
    g = (lambda x: core.invert(f(x)) if isinstance(f(x), Sym) else not f(x)) if invert else f
    return g(a) if is_scalar(a) else elementwise(g, [arr(a)], kind='b')
if hasattr(np, 'in1d'): MODELS[np.in1d] = lambda a, b, **k: np_isin(arrays.ravel(arr(a)), b)
@model(np.argsort)
def np_argsort(a, **k):
    a = arr(a)
    if a.ndim == 1 and isinstance(a.shape_[0], int) and a.shape_[0] <= 4:
        idx = []
        g = a.snap()
        for i in range(a.shape_[0]):
            j = len(idx)
            while j > 0 and E.truth(cmp('<', g((i,)), g((idx[j - 1],)))): j -= 1
            idx.insert(j, i)
        return from_np(np.array(idx, dtype=int))
    if a.ndim == 1 and a.kind in 'fi' and not k: return arrays.sort_perm(a)
    raise Unsupported("argsort on symbolic data")
@model(np.sort)
def np_sort(a, **k):
    a = arr(a)
    if a.meta.get('unique') is not None: return arrays.copy_(a)
    return arrays.getitem(a, np_argsort(a))
@model(np.searchsorted)
def np_ss(*a, **k): raise Unsupported("searchsorted")
@model(np.ix_)
def np_ix(*a): raise Unsupported("ix_")
@model(np.vectorize)
def np_vec(*a, **k): raise Unsupported("vectorize")
@model(np.iscomplexobj)
def np_iscomplexobj(a): return arr(a).kind == 'c' if not is_scalar(a) else kind_of(a) == 'c'
@model(np.isreal)
def np_isreal(a): return elementwise(lambda x: cmp('==', im_(x), 0.0), [a], kind='b')
@model(np.isscalar)
def np_isscalar(a): return isinstance(a, Sym)

# ------------------------------------------------------------------ array methods
for nm, f in {'sum': np_sum, 'mean': np_mean, 'all': MODELS[np.all], 'any': MODELS[np.any], 'max': MODELS[np.max], 'min': MODELS[np.min], 'prod': np_prod,
              'argmax': MODELS[np.argmax], 'argmin': MODELS[np.argmin], 'var': np_var, 'std': MODELS[np.std], 'cumsum': np_cumsum, 'dot': np_dot,
              'conj': MODELS[np.conj], 'conjugate': MODELS[np.conj], 'squeeze': np_squeeze, 'ravel': np_ravel, 'clip': np_clip, 'repeat': np_repeat,
              'swapaxes': np_swapaxes, 'round': np_around, 'diagonal': np_diagonal, 'nonzero': np_nonzero, 'sort': None}.items():
    if f is not None: METHODS[nm] = f
@method('copy', '__copy__')
def a_copy(a, *x): r = arrays.copy_(a); r.meta.update({k: v for k, v in a.meta.items()}); return r
@method('flatten')
def a_flatten(a): return arrays.copy_(arrays.ravel(a))
@method('astype')
def a_astype(a, t, copy=True):
    if t in (str, object) or isinstance(t, str) and t not in ('float', 'int', 'complex', 'bool'): raise Unsupported(f"astype {t}")
    return arrays.astype(a, kind_arg(t))
@method('reshape')
def a_reshape(a, *s, **k): return arrays.reshape(a, s[0] if len(s) == 1 else s)
@method('transpose')
def a_transpose(a, *ax): return arrays.transpose(a, (ax[0] if len(ax) == 1 else ax) if ax else None)
@method('tolist')
def a_tolist(a):
    if a.ndim == 0: return a.at()
    if a.ndim == 1: return created(seqs.from_pieces(seqs.pieces_of(a)))
    return created([a_tolist(x[1]) if x[0] == 'c' else Seg(x[1], lambda k, x=x: a_tolist(x[2](k))) for x in seqs.pieces_of(a)])
@method('item')
def a_item(a, *k):
    if k: return arrays.getitem(a, tuple(k))
    return a.at(*[0] * a.ndim)
@method('fill')
def a_fill(a, v): arrays.assign_view(a, v)
@method('keys', 'values', 'items', 'append', 'extend', 'get', 'lower', 'startswith', 'endswith', 'split', 'strip', 'index', 'encode', 'decode')
def a_none(a, *k): raise AttributeError("'numpy.ndarray' object has no such attribute")
for nm in ('keys', 'values', 'items', 'append', 'extend', 'get', 'lower', 'startswith', 'endswith', 'split', 'strip', 'index', 'encode', 'decode'):
    METHODS.pop(nm)
@method('__len__')
def a_len(a): return m_len(a)
def nxt(x, *d):
    """next() of a generator expression (held here as the list of its values)"""
    if not isinstance(x, list): return next(x, *d)
    if any(isinstance(y, seqs.Seg) for y in x): raise Unsupported("next() of a symbolic sequence")
    if x: return x.pop(0)
    if d: return d[0]
    raise StopIteration()
MODELS[next] = nxt
interp.ALWAYS.add(next)
