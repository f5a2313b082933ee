"""Arrays with symbolic shapes: element functions over buffers, numpy views with write-through."""
import builtins
import numpy as np
import z3
from . import core, engine
from .core import *
from .engine import ENGINE as E, log_buf

def dim_eq(a, b):
    """are two dimensions provably equal (True/False); None = undecided"""
    c = ieq(a, b)
    if c is True or c is False: return c
    for p in E.pc:
        if p.eq(c): return True
    if E.valid_quick(c): return True
    return None

class Buf:
    __slots__ = ("fn", "shape", "kind", "memo", "tag")
    def __init__(self, fn, shape, kind):
        self.fn = fn; self.shape = tuple(shape); self.kind = kind; self.memo = {}; self.tag = None
    def get(self, idx):
        key = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = (self.fn(idx), idx)     # keep idx alive: ids are only unique while referenced
            self.memo[key] = r
        return r[0]

class SArr:
    """view on a Buf. spec: per buffer dim ('f', i) or ('a', axis, start, step)"""
    __array_ufunc__ = None
    __hash__ = None
    def __init__(self, buf, spec=None, shape=None):
        self.buf = buf
        self.spec = spec if spec is not None else [('a', k, 0, 1) for k in range(len(buf.shape))]
        self.shape_ = tuple(shape if shape is not None else buf.shape)
        self.meta = {}
    # ---- access
    @property
    def kind(self): return self.buf.kind
    def bidx(self, idx):
        out = []
        for s in self.spec:
            if s[0] == 'f': out.append(s[1])
            elif s[0] == 'g': out.append(s[4](iadd(s[2], imul(idx[s[1]], s[3]))))
            else:
                _, ax, st, step = s
                i = idx[ax]
                if not (isinstance(step, int) and step == 1): i = imul(i, step)
                out.append(iadd(st, i))
        return tuple(out)
    def at(self, *idx):
        return self.buf.get(self.bidx(idx))
    def snap(self):
        """immutable element function of the current contents"""
        buf, fn = self.buf, self.buf.fn
        ident = all(s[0] == 'a' and s[1] == k and isinstance(s[2], int) and s[2] == 0 and s[3] == 1 for k, s in enumerate(self.spec)) and len(self.spec) == len(self.shape_)
        memo = {}
        def get(idx):
            b = idx if ident else self.bidx(idx)
            if buf.fn is fn: return buf.get(tuple(b))
            key = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in b)
            r = memo.get(key)
            if r is None:
                r = (fn(tuple(b)), b); memo[key] = r
            return r[0]
        return get
    # ---- numpy surface
    @property
    def shape(self): return tuple(mk('i', d) if not isinstance(d, int) else d for d in self.shape_)
    @property
    def ndim(self): return len(self.shape_)
    @property
    def size(self):
        n = 1
        for d in self.shape_: n = imul(n, d)
        return mk('i', n) if not isinstance(n, int) else n
    @property
    def dtype(self): return KDT[self.kind]
    @property
    def T(self): return transpose(self, None)
    @property
    def real(self): return elementwise(re_, [self], kind='f' if self.kind == 'c' else self.kind)
    @property
    def imag(self): return elementwise(im_, [self], kind='f' if self.kind == 'c' else self.kind)
    def __len__(self):
        d = self.shape_[0]
        if isinstance(d, int): return d
        raise Unsupported("len() of symbolic array in native code")
    def __iter__(self):
        d = self.shape_[0]
        if isinstance(d, int):
            for k in range(d): yield self[k]
            return
        raise Unsupported("native iteration over symbolic array")
    def __repr__(self): return f"SArr<{self.kind},{self.shape_}>"
    def __deepcopy__(self, memo):
        r = copy_(self); r.meta = dict(self.meta); return r
    def __copy__(self):
        r = copy_(self); r.meta = dict(self.meta); return r
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, val): setitem(self, key, val)
    def __add__(s, o): return arith('+', s, o)
    def __radd__(s, o): return arith('+', o, s)
    def __sub__(s, o): return arith('-', s, o)
    def __rsub__(s, o): return arith('-', o, s)
    def __mul__(s, o): return arith('*', s, o)
    def __rmul__(s, o): return arith('*', o, s)
    def __truediv__(s, o): return arith('/', s, o)
    def __rtruediv__(s, o): return arith('/', o, s)
    def __floordiv__(s, o): return arith('//', s, o)
    def __mod__(s, o): return arith('%', s, o)
    def __pow__(s, o): return arith('**', s, o)
    def __neg__(s): return neg(s)
    def __abs__(s): return absv(s)
    def __invert__(s): return invert(s)
    def __and__(s, o): return bitop('&', s, o)
    def __rand__(s, o): return bitop('&', o, s)
    def __or__(s, o): return bitop('|', s, o)
    def __ror__(s, o): return bitop('|', o, s)
    def __eq__(s, o): return cmp('==', s, o)
    def __ne__(s, o): return cmp('!=', s, o)
    def __lt__(s, o): return cmp('<', s, o)
    def __le__(s, o): return cmp('<=', s, o)
    def __gt__(s, o): return cmp('>', s, o)
    def __ge__(s, o): return cmp('>=', s, o)
    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1: return E.truth(self.at(*[0] * self.ndim))
        raise Unsupported("truth value of symbolic array")

def from_np(a):
    """numpy array -> SArr (values stay concrete; lookups at symbolic indices become ite chains)"""
    a = np.asarray(a)
    k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c', 'O': 'O', 'U': 'O', 'S': 'O'}[a.dtype.kind]
    a = a.copy()
    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            v = a[idx]
            return v.item() if isinstance(v, np.generic) else v
        def rec(pre, rest):
            if not rest: 
                v = a[tuple(pre)]
                return v.item() if isinstance(v, np.generic) else v
            i = rest[0]
            if isinstance(i, int): return rec(pre + [i], rest[1:])
            n = a.shape[len(pre)]
            if n > 600: raise Unsupported("symbolic index into large concrete array")
            v = rec(pre + [n - 1], rest[1:])
            for j in range(n - 2, -1, -1): v = ite(ieq(i, j), rec(pre + [j], rest[1:]), v)
            return v
        if a.size == 0: return {'b': False, 'i': 0, 'f': 0.0, 'c': 0j}.get(k)
        return rec([], list(idx))
    r = SArr(Buf(fn, a.shape, k)); r.meta['np'] = a
    return r

def new(shape, kind, fn):
    """fresh array; fn(idx tuple)->scalar"""
    shape = tuple(as_int(d) for d in shape)
    return SArr(Buf(fn, shape, kind))
def full(shape, v, kind): return new(shape, kind, lambda idx: v)
def is_arr(x): return isinstance(x, SArr)
def concrete(a):
    """SArr with integer shape -> list-of-elements object (nested) if small"""
    return all(isinstance(d, int) for d in a.shape_)

def to_arr(x, kind=None):
    """anything array-like -> SArr"""
    from . import seqs
    if isinstance(x, SArr): return x
    if isinstance(x, np.ndarray): return from_np(x)
    if is_scalar(x): return new((), kind_of(x), lambda idx, x=x: x)
    if isinstance(x, (list, tuple)) : return seqs.list_to_arr(x)
    if isinstance(x, range): return from_np(np.array(x))
    if isinstance(x, seqs.SSeq): return seqs.list_to_arr([seqs.Seg(x.n, x.fn)])
    if hasattr(x, '__array__'): return from_np(np.asarray(x))
    raise Unsupported(f"to_arr {type(x)}")

def bshape(shapes):
    """numpy broadcasting on symbolic dims"""
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dims = [s[len(s) - nd + k] for s in shapes if len(s) - nd + k >= 0]
        cur = 1
        for d in dims:
            if isinstance(d, int) and d == 1: continue
            if isinstance(cur, int) and cur == 1: cur = d; continue
            r = dim_eq(cur, d)
            if r is True:
                if isinstance(d, int): cur = d
                continue
            if r is False:
                raise ValueError("operands could not be broadcast together")
            # undecided: could still be 1 at run time
            if E.branch(ieq(cur, d)): continue
            raise ValueError("operands could not be broadcast together (symbolic shapes)")
        out.append(cur)
    return tuple(out)
def bget(get, shape, nd):
    off = nd - len(shape)
    ones = [k for k, d in enumerate(shape) if isinstance(d, int) and d == 1]
    if not ones and off == 0: return get
    def g(idx):
        idx = list(idx[off:])
        for k in ones: idx[k] = 0
        return get(tuple(idx))
    return g
_KMAP = {}
def elementwise(f, args, kind=None, where=None):
    arrs = []
    for a in args:
        if isinstance(a, SArr): arrs.append(a)
        elif isinstance(a, np.ndarray): arrs.append(from_np(a))
        elif is_scalar(a): arrs.append(a)
        else: arrs.append(to_arr(a))
    shp = bshape([a.shape_ for a in arrs if isinstance(a, SArr)])
    nd = len(shp)
    gets = []
    for a in arrs:
        if isinstance(a, SArr):
            gets.append(bget(a.snap(), a.shape_, nd))
        else: gets.append(lambda idx, a=a: a)
    if kind is None: kind = probe_kind(f, arrs)
    return new(shp, kind, lambda idx: f(*[g(idx) for g in gets]))
_DUM = {'b': lambda: Sym('b', z3.Bool('dum!b')), 'i': lambda: Sym('i', z3.Int('dum!i')), 'f': lambda: Sym('f', z3.Real('dum!f')), 'c': lambda: Sym('c', z3.Real('dum!f'), z3.Real('dum!g'))}
def probe_kind(f, arrs):
    sv = (list(E.facts), E.div_mode, core.FP["mode"], list(E.pc))
    try:
        E.div_mode = None; core.FP["mode"] = None
        v = f(*[_DUM[a.kind]() if isinstance(a, SArr) and a.kind in _DUM else (a if not isinstance(a, SArr) else Sym('f', z3.Real('dum!f'))) for a in arrs])
        return kind_of(v)
    finally:
        E.facts[:] = sv[0]; E.div_mode = sv[1]; core.FP["mode"] = sv[2]; E.pc[:] = sv[3]

def copy_(a):
    g = a.snap()
    r = new(a.shape_, a.kind, g)
    return r
def astype(a, kind):
    if kind == a.kind or kind in ('O', 'U'): return copy_(a)
    g = a.snap()
    return new(a.shape_, kind, lambda idx: cast(g(idx), kind))

# --------------------------------------------------------------------------- indexing
def norm_slice(s, n):
    """python slice on length n -> (start, length, step) with symbolic ints; step a non-zero int (or symbolic > 0)"""
    st = 1 if s.step is None else as_int(s.step)
    if not isinstance(st, int):
        # positive symbolic step; start/stop must be given
        a = 0 if s.start is None else clampidx(as_int(s.start), n)
        b = n if s.stop is None else clampidx(as_int(s.stop), n)
        ln = idiv(iadd(isub(b, a), isub(st, 1)), st)
        return a, imax(ln, 0), st
    if st > 0:
        a = 0 if s.start is None else clampidx(as_int(s.start), n)
        b = n if s.stop is None else clampidx(as_int(s.stop), n)
        d = isub(b, a)
        ln = d if st == 1 else idiv(iadd(d, st - 1), st)
        return a, nonneg(ln), st
    # negative step
    def clampneg(v):
        v = as_int(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0: v += n
            return max(-1, min(v, n - 1))
        w = wrapneg(v, n)
        return imax(-1, imin(w, isub(n, 1)))
    a = isub(n, 1) if s.start is None else clampneg(s.start)
    b = -1 if s.stop is None else clampneg(s.stop)
    d = isub(a, b)
    ln = d if st == -1 else idiv(iadd(d, -st - 1), -st)
    return a, nonneg(ln), st
def wrapneg(v, n):
    if isinstance(v, int):
        return iadd(n, v) if v < 0 else v
    if E.valid_quick(v >= 0, 0.7): return v
    return as_int(z3.If(v < 0, v + zi(n), v))
def clampidx(v, n):
    """numpy slice bound normalisation"""
    if isinstance(v, int) and isinstance(n, int):
        if v < 0: v += n
        return max(0, min(v, n))
    w = wrapneg(v, n)
    lo = ile(0, w); hi = ile(w, n)
    if (lo is True or E.valid_quick(lo, 0.7)):
        if hi is True or E.valid_quick(hi, 0.7): return w
        return imin(w, n)
    if hi is True or E.valid_quick(hi, 0.7): return imax(w, 0)
    return imax(0, imin(w, n))
def nonneg(ln):
    if isinstance(ln, int): return max(ln, 0)
    if E.valid_quick(ln >= 0, 0.7): return ln
    return imax(ln, 0)

def expand_key(key, nd):
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    def consumed(k):
        if k is None or k is Ellipsis: return 0
        if isinstance(k, (SArr, np.ndarray)) and k_is_bool(k): return k.ndim
        return 1
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        miss = nd - sum(consumed(k) for k in key)
        key[p:p + 1] = [slice(None)] * miss
    miss = nd - sum(consumed(k) for k in key)
    if miss < 0: raise IndexError("too many indices for array")
    return key + [slice(None)] * miss
def k_is_bool(k):
    return k.kind == 'b' if isinstance(k, SArr) else k.dtype.kind == 'b'
def norm_index(i, n, check=True):
    i = as_int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n: raise IndexError(f"index {i} is out of bounds for axis with size {n}")
        return i + n if i < 0 else i
    j = wrapneg(i, n)
    if check:
        ok = And(ile(0, j), ilt(j, n))
        if not E.valid_quick(ok, 1.0):
            if not E.branch(ok): raise IndexError("index out of bounds (symbolic)")
    return j
def prep_fancy(k):
    from . import seqs
    if isinstance(k, (list, tuple)) or isinstance(k, seqs.SSeq):
        return to_arr(k)
    if isinstance(k, range): return from_np(np.arange(k.start, k.stop, k.step))
    if isinstance(k, np.ndarray): return from_np(k)
    return k

def is_basic(k):
    return k is None or k is Ellipsis or isinstance(k, (slice, int, np.integer)) or (isinstance(k, Sym) and k.kind == 'i') or (isinstance(k, SArr) and k.ndim == 0 and k.kind == 'i') or (isinstance(k, np.ndarray) and k.ndim == 0 and k.dtype.kind in 'iu')
def unscalar(k):
    if isinstance(k, SArr) and k.ndim == 0: return k.at()
    if isinstance(k, np.ndarray) and k.ndim == 0: return k.item()
    return k

def arith_slice(k, n):
    """slice with a symbolic step that runs exactly through the elements of an evenly spaced index array seen before -> (length, element function)"""
    if isinstance(k.step, int) or k.step is None or isinstance(as_int(k.step), int) or k.start is None or k.stop is None: return None
    st, sp, step = zi(as_int(k.start)), zi(as_int(k.stop)), zi(as_int(k.step))
    for r in E.memo.get('arith', []):
        x, last = r['at'], r['last']
        if r['depth'] != E.bdepth or not r['nonneg']: continue
        q = z3.Int("q!ar")
        # one distinct difference (hence evenly spaced), starts, stops and steps as the array does, all inside the axis
        ck = (st.get_id(), sp.get_id(), step.get_id(), zi(n).get_id())
        hit = r.setdefault('ok', {}).get(ck)
        if hit is not None and len(hit[0]) <= len(E.pc) and all(p.eq(q) for p, q in zip(hit[0], E.pc)): return hit[1]
        if E.valid_quick(z3.And(r['one'] == 1, last >= 1, st == x(0), sp == x(last) + 1, step == x(1) - x(0), x(0) >= 0, x(1) > x(0), x(last) < zi(n)), 4.0):
            r['ok'][ck] = (list(E.pc), (as_int(last + 1), lambda i, x=x: as_int(x(zi(i)))), (st, sp, step, zi(n)))
            return r['ok'][ck][1]
    return None
def view(a, key):
    """basic indexing -> SArr view (0-d views too)"""
    key = [unscalar(k) for k in expand_key(key, a.ndim)]
    newshape = []; axmap = {}; fixed = {}
    ax = 0
    for k in key:
        if k is None:
            newshape.append(1); continue
        n = a.shape_[ax]
        if isinstance(k, slice):
            ar = arith_slice(k, n)
            if ar is not None: axmap[ax] = (len(newshape), 0, 1, ar[1]); newshape.append(ar[0]); ax += 1; continue
            st, ln, step = norm_slice(k, n)
            axmap[ax] = (len(newshape), st, step, None); newshape.append(ln)
        else:
            fixed[ax] = norm_index(k, n)
        ax += 1
    spec = []
    for s in a.spec:
        if s[0] == 'f': spec.append(s); continue
        _, ax, st, step = s[:4]; f1 = s[4] if s[0] == 'g' else None
        if ax in fixed: p = iadd(st, imul(fixed[ax], step)); spec.append(('f', p if f1 is None else f1(p)))
        else:
            nax, st2, step2, f2 = axmap[ax]
            if f2 is not None: spec.append(('g', nax, 0, 1, lambda i, f1=f1, f2=f2, st=st, step=step: (lambda p: p if f1 is None else f1(p))(iadd(st, imul(f2(i), step)))))
            elif f1 is not None: spec.append(('g', nax, iadd(st, imul(st2, step)), imul(step, step2), f1))
            else: spec.append(('a', nax, iadd(st, imul(st2, step)), imul(step, step2)))
    return SArr(a.buf, spec, newshape)

def getitem(a, key):
    key0 = key if isinstance(key, tuple) else (key,)
    if all(is_basic(k) for k in key0):
        v = view(a, key)
        if v.ndim == 0 and not any(k is Ellipsis for k in key0): return v.at()
        if a.ndim == 1 and v.ndim > 1 and ('emb' in a.meta or 'picked' in a.meta) and all(k is None or isinstance(k, slice) and k == slice(None) for k in key0): v.meta['flat'] = (a, [i for i, k in enumerate(key0) if k is not None][0] - v.ndim)
        return v
    return fancy(a, [prep_fancy(k) if not is_basic(k) else k for k in key0])

def fancy(a, key):
    key = expand_key(tuple(key), a.ndim)
    key = [unscalar(k) for k in key]
    adv = [k for k in key if isinstance(k, SArr)]
    # boolean masks
    if any(k.kind == 'b' for k in adv):
        if len(adv) == 1 and adv[0].ndim == 1:
            pos = [i for i, k in enumerate(key) if isinstance(k, SArr)][0]
            ax = sum(1 for k in key[:pos] if k is not None)
            d = dim_eq(adv[0].shape_[0], a.shape_[ax])
            if d is not True: raise IndexError("boolean index did not match indexed array along dimension")
            key[pos] = mask_to_idx(adv[0])
        elif len(adv) == 1 and all(isinstance(k, slice) or k is adv[0] for k in key):
            m = adv[0]
            if concrete(m) and all(z_true(zb_(m.at(*ix))) or z_false(zb_(m.at(*ix))) for ix in np.ndindex(*m.shape_)):
                mm = np.array([bool(m.at(*ix)) for ix in np.ndindex(*m.shape_)]).reshape(m.shape_)
                idxs = np.nonzero(mm)
                pos = [i for i, k in enumerate(key) if k is m][0]
                key[pos:pos + 1] = [from_np(x) for x in idxs]
            else:
                pos = [i for i, k in enumerate(key) if k is m][0]
                for j in range(m.ndim):
                    if dim_eq(m.shape_[j], a.shape_[pos + j]) is not True: raise IndexError("boolean index did not match indexed array")
                key[pos:pos + 1] = mask_nd(m)[0]
        else:
            nk = []
            for k in key:
                if isinstance(k, SArr) and k.kind == 'b':
                    if k.ndim != 1: raise Unsupported("N-d boolean index mix")
                    nk.append(mask_to_idx(k))
                else: nk.append(k)
            key = nk
    adv = [k for k in key if isinstance(k, SArr)]
    bs = bshape([k.shape_ for k in adv])
    # ints count as advanced when mixed with arrays
    positions = [i for i, k in enumerate(key) if isinstance(k, SArr) or (not isinstance(k, slice) and k is not None)]
    contiguous = positions == list(range(positions[0], positions[-1] + 1)) if positions else True
    out = []; plan = []; inserted = False; ax = 0
    if not contiguous: out += list(bs); inserted = True; boff = 0
    for i, k in enumerate(key):
        if k is None:
            plan.append(('n', len(out))); out.append(1); continue
        n = a.shape_[ax]
        if isinstance(k, slice):
            ar = arith_slice(k, n)
            if ar is not None: plan.append(('m', ax, len(out), ar[1])); out.append(ar[0]); ax += 1; continue
            st, ln, step = norm_slice(k, n)
            plan.append(('s', ax, len(out), st, step)); out.append(ln)
        elif isinstance(k, SArr):
            if not inserted: boff = len(out); out += list(bs); inserted = True
            g = bget(k.snap(), k.shape_, len(bs))
            plan.append(('g', ax, g, n, k.meta.get('nonneg', False)))
        else:
            if not inserted: boff = len(out); out += list(bs); inserted = True
            plan.append(('i', ax, norm_index(k, n)))
        ax += 1
    src = a.snap(); nb = len(bs); nd = a.ndim
    def fn(idx):
        b = tuple(idx[boff:boff + nb])
        ii = [None] * nd
        for p in plan:
            if p[0] == 's': ii[p[1]] = iadd(p[3], imul(idx[p[2]], p[4]))
            elif p[0] == 'g':
                v = as_int(p[2](b)); 
                if not p[4]:
                    if isinstance(v, int):
                        if v < 0: v = iadd(p[3], v)
                    else: v = as_int(z3.If(v < 0, v + zi(p[3]), v))
                ii[p[1]] = v
            elif p[0] == 'm': ii[p[1]] = p[3](idx[p[2]])
            elif p[0] == 'i': ii[p[1]] = p[2]
        return src(tuple(ii))
    r = new(out, a.kind, fn)
    if nd == 1 and len(adv) == 1 and ('emb' in adv[0].meta or 'perm' in adv[0].meta): r.meta['picked'] = (a, adv[0])
    return r
def zb_(v): return to_bool(v) if isinstance(v, Sym) else bool(v)

def setitem(a, key, val):
    key0 = key if isinstance(key, tuple) else (key,)
    if all(is_basic(k) for k in key0):
        v = view(a, key)
        assign_view(v, val); return
    key = expand_key(tuple(prep_fancy(k) if not is_basic(k) else k for k in key0), a.ndim)
    key = [unscalar(k) for k in key]
    adv = [(i, k) for i, k in enumerate(key) if isinstance(k, SArr)]
    if len(adv) == 1 and adv[0][1].kind == 'b' and all(isinstance(k, slice) and k == slice(None) or isinstance(k, SArr) for k in key):
        m = adv[0][1]; pos = adv[0][0]
        if is_scalar(val) or (isinstance(val, (SArr, np.ndarray)) and val.ndim == 0):
            val = unscalar(val)
            g = m.snap(); old = a.snap(); nd = m.ndim
            kind = a.kind
            write(a, lambda idx: to_bool(g(tuple(idx[pos:pos + nd]))), lambda idx: cast(val, kind))
            return
        if m.ndim == 1:
            ix = mask_to_idx(m)
            vv = to_arr(val); rank = ix.meta['emb']['rank']
            g = m.snap(); kind = a.kind
            def valfn(idx):
                i2 = list(idx); i2[pos] = rank(idx[pos])
                sh = [d for d in a.shape_]; sh[pos] = ix.shape_[0]
                return cast(bget(vv.snap(), vv.shape_, a.ndim)(tuple(i2)), kind)
            write(a, lambda idx: to_bool(g((idx[pos],))), valfn)
            return
        nd = m.ndim
        for j in range(nd):
            if dim_eq(m.shape_[j], a.shape_[pos + j]) is not True: raise IndexError("boolean index did not match indexed array")
        ix, rank = mask_nd(m); vv = to_arr(val); g = m.snap(); kind = a.kind
        if vv.ndim and not (isinstance(vv.shape_[-1], int) and vv.shape_[-1] == 1) and pos + nd == a.ndim:
            r = dim_eq(vv.shape_[-1], ix[0].shape_[0])
            if r is False or (r is None and not E.branch(ieq(vv.shape_[-1], ix[0].shape_[0]))): raise ValueError("NumPy boolean array indexing assignment: sizes differ")
        def valfn(idx):
            i2 = tuple(idx[:pos]) + (rank(*idx[pos:pos + nd]),) + tuple(idx[pos + nd:])
            return cast(bget(vv.snap(), vv.shape_, a.ndim - nd + 1)(i2), kind)
        write(a, lambda idx: to_bool(g(tuple(idx[pos:pos + nd]))), valfn)
        return
    if len(adv) == 1 and adv[0][1].ndim == 1:
        pos, k = adv[0]
        if k.kind == 'b': k = mask_to_idx(k)
        n = k.shape_[0]; g = k.snap(); kind = a.kind
        # split other entries
        shp = []; plan = []; ax = 0; kax = None
        for i, kk in enumerate(key):
            if kk is None: raise Unsupported("None in fancy assignment")
            if i == pos: kax = len(shp); shp.append(n); plan.append(('k', len(shp) - 1))
            elif isinstance(kk, slice):
                st, ln, step = norm_slice(kk, a.shape_[ax]); shp.append(ln); plan.append(('s', len(shp) - 1, st, step, ln))
            else: plan.append(('i', norm_index(kk, a.shape_[ax])))
            ax += 1
        ints = [i for i, p in enumerate(plan) if p[0] == 'i']
        if ints:
            # numpy: int + array are both advanced; result dims: broadcast dim goes first if separated by slices
            posn = sorted(ints + [pos])
            if posn != list(range(posn[0], posn[-1] + 1)):
                perm = [kax] + [x for x in range(len(shp)) if x != kax]
            else: perm = list(range(len(shp)))
        else: perm = list(range(len(shp)))
        vv = val if is_scalar(val) else to_arr(val)
        if isinstance(vv, SArr):
            tshape = [shp[p] for p in perm]
            check_assign_shape(vv.shape_, tshape)
            vget = bget(vv.snap(), vv.shape_, len(tshape))
        inv = inverse_index(k, a.shape_[pos])
        def guard(idx):
            cs = []
            for d, p in enumerate(plan):
                if p[0] == 'i': cs.append(ieq(idx[d], p[1]))
                elif p[0] == 's':
                    cs.append(slice_member(idx[d], p[2], p[3], p[4]))
                else: cs.append(inv['has'](idx[d]))
            return And(*cs)
        def valfn(idx):
            if not isinstance(vv, SArr): return cast(vv, kind)
            vi = [None] * len(shp)
            for d, p in enumerate(plan):
                if p[0] == 's': vi[p[1]] = slice_pos(idx[d], p[2], p[3])
                elif p[0] == 'k': vi[p[1]] = inv['pos'](idx[d])
            return cast(vget(tuple(vi[p] for p in perm)), kind)
        write(a, guard, valfn)
        return
    # several index arrays (ix_ style or paired), concrete small
    if all(concrete(k) for _, k in adv) and all(isinstance(d, int) for _, k in adv for d in k.shape_):
        ks = [k if k.kind != 'b' else mask_to_idx(k) for _, k in adv]
        if all(concrete(k) for k in ks):
            bs = bshape([k.shape_ for k in ks])
            vv = val; at = [i for i, k in enumerate(key) if not isinstance(k, slice)]     # where numpy puts the broadcast axes: in place if adjacent, else first
            lead = at[0] if at == list(range(at[0], at[-1] + 1)) else 0
            for ix in np.ndindex(*bs):
                kk = list(key)
                for (p, _), k in zip(adv, ks):
                    kk[p] = bget(k.snap(), k.shape_, len(bs))(tuple(ix))
                if is_scalar(vv): v1 = vv
                else:
                    va = to_arr(vv); 
                    nd_t = len(bs) + sum(isinstance(k, slice) for k in key)
                    if va.ndim < nd_t: va = getitem(va, (None,) * (nd_t - va.ndim) + (Ellipsis,))
                    v1 = getitem(va, (slice(None),) * lead + tuple(0 if (isinstance(va.shape_[lead + d], int) and va.shape_[lead + d] == 1) else ix[d] for d in range(len(bs))))
                setitem(a, tuple(kk), v1)
            return
    # one value stored at the outer product of index arrays that vary along different axes
    if is_scalar(val) and not any(k is None for k in key):
        plan = []; axes = []
        for d, k in enumerate(key):
            if isinstance(k, slice): st, ln, step = norm_slice(k, a.shape_[d]); plan.append(lambda i, st=st, step=step, ln=ln: slice_member(i, st, step, ln))
            elif isinstance(k, SArr):
                if k.kind == 'b' and k.ndim == 1: k = mask_to_idx(k)
                base, ax = k.meta.get('flat', (k, -1))
                if base.ndim != 1 or ax in axes: raise Unsupported("assignment with paired index arrays")
                axes.append(ax); inv = inverse_index(base, a.shape_[d]); plan.append(lambda i, inv=inv: inv['has'](i))
            else: plan.append(lambda i, k=norm_index(k, a.shape_[d]): ieq(i, k))
        kind = a.kind
        write(a, lambda idx: And(*[p(i) for p, i in zip(plan, idx)]), lambda idx: cast(val, kind)); return
    raise Unsupported(f"assignment with index {key}")

def slice_member(i, st, step, ln):
    if isinstance(step, int) and step == 1:
        return And(ile(st, i), ilt(i, iadd(st, ln)))
    if isinstance(step, int) and step == -1:
        return And(ile(i, st), ilt(isub(st, ln), i))
    d = isub(i, st)
    q = idiv(d, step)
    return And(ieq(imul(q, step), d), ile(0, q), ilt(q, ln))
def slice_pos(i, st, step):
    d = isub(i, st)
    if isinstance(step, int) and step == 1: return d
    if isinstance(step, int) and step == -1: return isub(st, i)
    return idiv(d, step)
def check_assign_shape(vs, ts):
    vs = list(vs)
    while len(vs) > len(ts) and isinstance(vs[0], int) and vs[0] == 1: vs = vs[1:]
    if len(vs) > len(ts): raise ValueError("could not broadcast input array into shape")
    for v, t in zip(vs[::-1], list(ts)[::-1]):
        if isinstance(v, int) and v == 1: continue
        r = dim_eq(v, t)
        if r is True: continue
        if r is None and E.branch(ieq(v, t)): continue
        raise ValueError(f"could not broadcast input array from shape {vs} into shape {ts}")

def assign_view(v, val):
    """v[...] = val through the view"""
    kind = v.buf.kind
    if is_scalar(val): vget = lambda idx: val
    else:
        va = to_arr(val)
        check_assign_shape(va.shape_, v.shape_)
        sh = list(va.shape_)
        g0 = va.snap()
        while len(sh) > v.ndim:
            sh = sh[1:]; g0 = (lambda g: (lambda idx: g((0,) + tuple(idx))))(g0)
        vget = bget(g0, tuple(sh), v.ndim)
    write(v, None, lambda idx: cast(vget(idx), kind), whole=True)

def write(v, guard, valfn, whole=False):
    """write through view v: for view index idx with guard(idx): element := valfn(idx)"""
    buf = v.buf; old = buf.fn
    spec = v.spec; shape = v.shape_
    oldget = SArr(buf, v.spec, v.shape_)
    def inv(b):
        cs = []; vi = [0] * len(shape)
        for d, s in enumerate(spec):
            if s[0] == 'f': cs.append(ieq(b[d], s[1]))
            elif s[0] == 'g': raise Unsupported("write through a slice with a symbolic step")
            else:
                _, ax, st, step = s
                n = shape[ax]
                full_ = isinstance(st, int) and st == 0 and isinstance(step, int) and step == 1 and same_dim(n, buf.shape[d])
                if not full_: cs.append(slice_member(b[d], st, step, n))
                vi[ax] = slice_pos(b[d], st, step)
        return cs, tuple(vi)
    def g(b):
        cs, vi = inv(b)
        c = And(*cs)
        if z_false(c): return False
        if guard is not None:
            c = And(c, guard(vi))
        return c
    def val(b):
        _, vi = inv(b)
        return valfn(vi)
    memo_old = {}
    def fn(b):
        c = g(b)
        if not isinstance(c, bool):
            c = z3.simplify(c); 
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        if z_true(c): return val(b)
        if z_false(c): return old(b)
        return ite(c, val(b), old(b))
    log_buf(buf, g, val)
    buf.fn = fn; buf.memo = {}

def same_dim(a, b):
    c = ieq(a, b)
    return c is True or (not isinstance(a, int) and not isinstance(b, int) and a.eq(b))

# --------------------------------------------------------------------------- masks as embeddings
def mask_to_idx(m):
    """np.where(m)[0] for a 1-d boolean array: increasing enumeration of its true positions"""
    n = m.shape_[0]
    g = m.snap()
    if isinstance(n, int):
        vals = [zb_(g((i,))) for i in range(n)]
        if all(isinstance(v, bool) or z_true(v) or z_false(v) for v in vals):
            idx = np.array([i for i, v in enumerate(vals) if z_true(v)], dtype=int)
            r = from_np(idx); r.meta['nonneg'] = True
            pos = {int(x): k for k, x in enumerate(idx)}
            r.meta['emb'] = {'rank': lambda i: pos.get(i, 0) if isinstance(i, int) else _rank_chain(pos, i), 'mask': new(m.shape_, m.kind, g), 'n': n}
            return r
    b = E.bound()
    try: v = to_bool(g((b,)))
    finally: E.unbound()
    v = z3.simplify(zb(v)); nz = zi(n)
    # try to identify with a previously seen mask (pointwise equal under the path condition)
    reg = E.memo.setdefault('masks', [])
    for rec in reg:
        if rec['n'].eq(nz) or ieq(rec['nn'], n) is True:
            vb = z3.substitute(rec['v'], (rec['b'], b))
            if vb.eq(v): return _mk_emb(rec, m)
    for rec in reg:
        if dim_eq(rec['nn'], n) is True and E.bdepth == rec['depth']:
            k = E.fresh('i', 'mk')
            E.pc += [k >= 0, k < nz]
            try: ok = E._discharge(z3.substitute(rec['v'], (rec['b'], k)) == z3.substitute(v, (b, k)), 2.0, 1)[0] == "proved"
            finally: del E.pc[-2:]
            if ok: return _mk_emb(rec, m)
    key, ps, pl, bl, sk = E.skeleton([nz, v], [b])
    isorts = [p.sort() for p in ps]
    I = z3.IntSort()
    cnt = z3.Function(f"cnt_{key}", *isorts, I) if ps else None
    cntt = cnt(*ps) if ps else z3.Int(f"cnt_{key}")
    emb = z3.Function(f"emb_{key}", *isorts, I, I)
    rnk = z3.Function(f"rank_{key}", *isorts, I, I)
    # quantified definition (over the parameters, so that it also holds after substitution)
    qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]
    k, l = z3.Int("q!k"), z3.Int("q!l")
    sub = list(zip(pl, qs))
    N = z3.substitute(sk[0], *sub) if sub else sk[0]
    V = lambda t: z3.substitute(sk[1], *sub, (bl[0], t))
    C = cnt(*qs) if ps else cntt
    ek = emb(*qs, k); el = emb(*qs, l); rk = rnk(*qs, k)
    if ps: E.fact(z3.ForAll(qs, z3.And(C >= 0, z3.Implies(N >= 0, C <= N)), patterns=[C]), key=f"cntr{key}")
    else: E.fact(z3.And(C >= 0, z3.Implies(N >= 0, C <= N)), key=f"cntr{key}")
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < C), z3.And(ek >= 0, ek < N, V(ek), rnk(*qs, ek) == k, ek >= k, N - ek >= C - k)), patterns=[ek]), key=f"emb{key}")
    E.fact(z3.ForAll(qs + [k, l], z3.Implies(z3.And(k >= 0, k < l, l < C), ek < el), patterns=[z3.MultiPattern(ek, el)]), key=f"mono{key}")
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < N, V(k)), z3.And(rk >= 0, rk < C, emb(*qs, rk) == k)), patterns=[rk]), key=f"rank{key}")
    rec = {'v': v, 'b': b, 'n': nz, 'nn': n, 'cnt': cntt, 'emb': lambda t, emb=emb, ps=ps: emb(*ps, zi(t)), 'rank': lambda t, rnk=rnk, ps=ps: rnk(*ps, zi(t)), 'depth': E.bdepth,
           'mk': g, 'key': key}
    reg.append(rec)
    return _mk_emb(rec, m)
def mask_nd(m):
    """np.nonzero of an n-d boolean array: row-major enumeration of its true positions, one index array per dimension, and its inverse"""
    g = m.snap(); nd = m.ndim; bs = [E.bound() for _ in range(nd)]
    try: v = to_bool(g(tuple(bs)))
    finally:
        for _ in bs: E.unbound()
    v = z3.simplify(zb(v)); ns = [zi(n) for n in m.shape_]
    key, ps, pl, bl, sk = E.skeleton(ns + [v], bs); I = z3.IntSort(); isorts = [p.sort() for p in ps]
    cnt = z3.Function(f"cntN_{key}", *isorts, I) if ps else None
    cntt = cnt(*ps) if ps else z3.Int(f"cntN_{key}")
    emb = [z3.Function(f"embN{d}_{key}", *isorts, I, I) for d in range(nd)]; rnk = z3.Function(f"rankN_{key}", *isorts, *([I] * nd), I)
    qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]; sub = list(zip(pl, qs))
    k = z3.Int("q!k"); xs = [z3.Int(f"q!x{d}") for d in range(nd)]
    N = [z3.substitute(x, *sub) if sub else x for x in sk[:nd]]; V = lambda ts: z3.substitute(sk[nd], *sub, *list(zip(bl, ts)))
    C = cnt(*qs) if ps else cntt; ek = [f(*qs, k) for f in emb]; rk = rnk(*qs, *xs)
    E.fact(z3.ForAll(qs, C >= 0, patterns=[C]) if ps else C >= 0, key=f"cntN{key}")
    body = z3.Implies(z3.And(k >= 0, k < C), z3.And(*[z3.And(e >= 0, e < n) for e, n in zip(ek, N)], V(ek), rnk(*qs, *ek) == k))
    for d in range(nd): E.fact(z3.ForAll(qs + [k], body, patterns=[ek[d]]), key=f"embN{d}{key}")
    E.fact(z3.ForAll(qs + xs, z3.Implies(z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(xs, N)], V(xs)), z3.And(rk >= 0, rk < C, *[f(*qs, rk) == x for f, x in zip(emb, xs)])), patterns=[rk]), key=f"rankN{key}")
    out = []
    for d in range(nd):
        r = new((cntt,), 'i', lambda idx, f=emb[d]: mk('i', f(*ps, zi(idx[0])))); r.meta['nonneg'] = True; out.append(r)
    return out, lambda *ix: rnk(*ps, *[zi(i) for i in ix])
def _rank_chain(pos, i):
    r = 0
    for x, k in pos.items(): r = iite(ieq(i, x), k, r)
    return r
def _mk_emb(rec, m):
    r = new((rec['cnt'],), 'i', lambda idx: mk('i', rec['emb'](idx[0])))
    r.meta['nonneg'] = True
    r.meta['emb'] = {'rank': rec['rank'], 'mask': copy_(m), 'n': rec['nn'], 'rec': rec}      # frozen: m may be overwritten later
    return r

def is_identity(a):
    if a.ndim != 1: return False
    i = z3.Int("id!probe"); return z3.is_true(z3.simplify(zi(as_int(a.at(i))) == i))
def known_inj(k):
    """an index array built from masks and sorting orders, whose inverse is known"""
    if 'emb' in k.meta or 'perm' in k.meta: return True
    if 'picked' in k.meta:
        a, j = k.meta['picked']; return not isinstance(a.shape_[0], int) and known_inj(j) and (known_inj(a) or is_identity(a))
    return False
def sort_perm(a):
    """np.argsort of a 1-d array: a permutation of its positions that puts the values in non-decreasing order (which one, among equals, is left open)"""
    n = a.shape_[0]; g = a.snap(); b = E.bound()
    try: v = z3.simplify(core.to_real(g((b,))))
    finally: E.unbound()
    nz = zi(n); key, ps, pl, bl, sk = E.skeleton([nz, v], [b]); I = z3.IntSort(); isorts = [p.sort() for p in ps]
    P, Q = z3.Function(f"order_{key}", *isorts, I, I), z3.Function(f"place_{key}", *isorts, I, I)
    qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]; k, l = z3.Int("q!k"), z3.Int("q!l"); sub = list(zip(pl, qs))
    N = z3.substitute(sk[0], *sub) if sub else sk[0]; V = lambda t: z3.substitute(sk[1], *sub, (bl[0], t)); pk, qk, pl_ = P(*qs, k), Q(*qs, k), P(*qs, l)
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < N), z3.And(pk >= 0, pk < N, Q(*qs, pk) == k)), patterns=[pk]), key=f"ord{key}")
    E.fact(z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < N), z3.And(qk >= 0, qk < N, P(*qs, qk) == k)), patterns=[qk]), key=f"plc{key}")
    E.fact(z3.ForAll(qs + [k, l], z3.Implies(z3.And(k >= 0, k < l, l < N), V(pk) <= V(pl_)), patterns=[z3.MultiPattern(pk, pl_)]), key=f"sorted{key}")
    r = new((n,), 'i', lambda ix: mk('i', P(*ps, zi(ix[0])))); r.meta['nonneg'] = True; r.meta['perm'] = lambda i: Q(*ps, zi(i))
    return r
def inverse_index(k, n):
    """for an index array k (1-d) into a dimension n: membership and (last) position of an index"""
    if 'emb' in k.meta:
        m = k.meta['emb']['mask'].snap(); rank = k.meta['emb']['rank']
        return {'has': lambda i: to_bool(m((i,))), 'pos': lambda i: as_int(rank(i))}
    if isinstance(k.shape_[0], int):
        g = k.snap(); c = k.shape_[0]
        vals = [as_int(g((j,))) for j in range(c)]
        vals = [v if not isinstance(v, int) or v >= 0 else iadd(n, v) for v in vals]
        def has(i): return Or(*[ieq(i, v) for v in vals])
        def pos(i):
            r = 0
            for j, v in enumerate(vals): r = iite(ieq(i, v), j, r)
            return r
        return {'has': has, 'pos': pos}
    if 'perm' in k.meta: return {'has': lambda i: And(ile(0, i), ilt(i, n)), 'pos': lambda i: k.meta['perm'](i)}
    if 'picked' in k.meta and known_inj(k):
        a, j = k.meta['picked']; i2 = inverse_index(j, a.shape_[0])
        if is_identity(a): return {'has': lambda i: And(ile(0, i), ilt(i, a.shape_[0]), i2['has'](i)), 'pos': lambda i: i2['pos'](i)}
        i1 = inverse_index(a, n)
        return {'has': lambda i: And(i1['has'](i), i2['has'](i1['pos'](i))), 'pos': lambda i: i2['pos'](i1['pos'](i))}
    # general: definitional 'last position' function
    g = k.snap(); nz = zi(k.shape_[0])
    b = E.bound()
    try: v = zi(as_int(g((b,))))
    finally: E.unbound()
    key, ps, pl, bl, sk = E.skeleton([nz, z3.simplify(v)], [b])
    f = z3.Function(f"lastpos_{key}", *[p.sort() for p in ps], z3.IntSort(), z3.IntSort())
    qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]
    i, j = z3.Int("q!i"), z3.Int("q!j")
    sub = list(zip(pl, qs))
    N = z3.substitute(sk[0], *sub) if sub else sk[0]
    V = lambda t: z3.substitute(sk[1], *sub, (bl[0], t))
    fi = f(*qs, i)
    E.fact(z3.ForAll(qs + [i], z3.Or(fi == -1, z3.And(fi >= 0, fi < N, V(fi) == i)), patterns=[fi]), key=f"lp1{key}")
    E.fact(z3.ForAll(qs + [i, j], z3.Implies(z3.And(j >= 0, j < N, V(j) == i), j <= fi), patterns=[z3.MultiPattern(fi, V(j))] if not z3.is_var(V(j)) and has_app(V(j)) else [fi]) if has_app(V(j)) else z3.ForAll(qs + [i, j], z3.Implies(z3.And(j >= 0, j < N, V(j) == i), j <= fi)), key=f"lp2{key}")
    return {'has': lambda i: f(*ps, zi(i)) >= 0, 'pos': lambda i: f(*ps, zi(i))}
def has_app(e):
    return z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED

# --------------------------------------------------------------------------- reshaping
def transpose(a, axes):
    nd = a.ndim
    axes = list(range(nd))[::-1] if axes is None else [int(x) % nd for x in axes]
    inv = {old: newp for newp, old in enumerate(axes)}
    spec = [s if s[0] == 'f' else (s[0], inv[s[1]]) + tuple(s[2:]) for s in a.spec]
    return SArr(a.buf, spec, [a.shape_[x] for x in axes])
def moveaxis(a, src, dst):
    nd = a.ndim
    src = [src] if isinstance(src, int) else list(src); dst = [dst] if isinstance(dst, int) else list(dst)
    src = [s % nd for s in src]; dst = [d % nd for d in dst]
    order = [n for n in range(nd) if n not in src]
    for d, s in sorted(zip(dst, src)): order.insert(d, s)
    return transpose(a, order)
def ravel(a):
    if a.ndim == 1: return a
    return reshape(a, (-1,))
def reshape(a, shape):
    shape = [as_int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]
    total = 1
    for d in a.shape_: total = imul(total, d)
    if any(isinstance(s, int) and s == -1 for s in shape):
        rest = 1
        for s in shape:
            if not (isinstance(s, int) and s == -1): rest = imul(rest, s)
        if len(shape) == a.ndim:
            # -1 replaces a dimension left unchanged
            p = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        m = idiv(total, rest) if not (isinstance(rest, int) and rest == 1) else total
        shape = [m if (isinstance(s, int) and s == -1) else s for s in shape]
    # drop/insert unit dims only -> view
    core_a = [(k, d) for k, d in enumerate(a.shape_) if not (isinstance(d, int) and d == 1)]
    core_s = [(k, d) for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(core_a) == len(core_s) and all(same_dim(x[1], y[1]) or dim_eq(x[1], y[1]) is True for x, y in zip(core_a, core_s)):
        mp = {x[0]: y[0] for x, y in zip(core_a, core_s)}
        spec = []
        for s in a.spec:
            if s[0] == 'f': spec.append(s)
            elif s[1] in mp: spec.append((s[0], mp[s[1]]) + tuple(s[2:]))
            else: spec.append(('f', s[2] if s[0] == 'a' else s[4](s[2])))
        return SArr(a.buf, spec, shape)
    g = a.snap(); ash = a.shape_
    def fn(idx):
        flat = 0
        for i, d in zip(idx, shape): flat = iadd(imul(flat, d), i)
        out = []
        for d in ash[::-1]:
            out.append(imod(flat, d)); flat = idiv(flat, d)
        return g(tuple(out[::-1]))
    return new(shape, a.kind, fn)

# --------------------------------------------------------------------------- reductions
def norm_axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, (tuple, list)): return [int(x) % a.ndim for x in axis]
    return [int(axis) % a.ndim]
def reduce(a, axis, keepdims, f, kind):
    """f(n, body) folds one axis; several axes nest (last axis innermost)"""
    axes = sorted(norm_axes(a, axis))
    g = a.snap(); shp = a.shape_
    keep = [k for k in range(a.ndim) if k not in axes]
    oshape = [(1 if k in axes else shp[k]) for k in range(a.ndim)] if keepdims else [shp[k] for k in keep]
    def fn(idx):
        full_ = [None] * a.ndim
        if keepdims:
            for k in keep: full_[k] = idx[k]
        else:
            for k, i in zip(keep, idx): full_[k] = i
        def rec(ax, cur):
            if not ax: return g(tuple(cur))
            def body(t):
                c = list(cur); c[ax[0]] = t
                return rec(ax[1:], c)
            return f(shp[ax[0]], body, len(ax) == 1)
        return rec(axes, full_)
    r = new(oshape, kind, fn)
    if r.ndim == 0: return r.at()
    return r
def sum_(a, axis=None, keepdims=False):
    k = 'i' if a.kind == 'b' else a.kind
    return reduce(a, axis, keepdims, lambda n, body, inner: E.sum(n, body, a.kind if inner else k), k)
def count(a, axes):
    n = 1
    for k in axes: n = imul(n, a.shape_[k])
    return mk('i', n) if not isinstance(n, int) else n
def mean_(a, axis=None, keepdims=False):
    s = sum_(a, axis, keepdims)
    return arith('/', s, count(a, norm_axes(a, axis)))
def shift_of(v, b):
    """s, if b occurs in sums that are arguments of uninterpreted functions only as b + s, with one and the same s (renaming the bound variable to b + s, which is always sound, leaves terms a solver can match)"""
    offs, seen, st = [], set(), [v]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): return None
        if not z3.is_app(t): continue
        uf = t.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for c in t.children():
            if uf and engine.contains(c, b):
                if c.decl().kind() == z3.Z3_OP_ADD and sum(x.eq(b) for x in c.children()) == 1 and not any(engine.contains(x, b) for x in c.children() if not x.eq(b)):
                    o = z3.simplify(c - b)
                    if not any(o.eq(x) for x in offs): offs.append(o)
            st.append(c)
    return offs[0] if len(offs) == 1 else None
def quant(n, body, forall):
    if isinstance(n, int) and n <= 256:
        vs = [to_bool(body(k)) for k in range(n)]
        return mk('b', And(*vs) if forall else Or(*vs))
    b = E.bound()
    try: v = zb(to_bool(body(b)))
    finally: E.unbound()
    v = z3.simplify(v)
    if not engine.contains(v, b):
        c = zi(n) > 0
        return mk('b', Or(Not(c), v) if forall else And(c, v))
    q = z3.Int(f"q!{b.decl().name()}"); off = shift_of(v, b)
    if off is not None:
        g = E.bound()
        try: v = z3.simplify(zb(to_bool(body(z3.simplify(g - off)))))
        finally: E.unbound()
        b = g
    v = z3.substitute(v, (b, q))
    rng = z3.And(q >= 0, q < zi(n)) if off is None else z3.And(q >= off, q < zi(n) + off)
    return mk('b', z3.ForAll([q], z3.Implies(rng, v)) if forall else z3.Exists([q], z3.And(rng, v)))
def all_(a, axis=None, keepdims=False): return reduce(a, axis, keepdims, lambda n, body, inner: quant(n, body, True), 'b')
def any_(a, axis=None, keepdims=False): return reduce(a, axis, keepdims, lambda n, body, inner: quant(n, body, False), 'b')
def extremum(n, body, ismax, kind):
    if isinstance(n, int) and n <= 256:
        if n == 0: raise ValueError("zero-size array to reduction operation")
        r = body(0)
        for k in range(1, n):
            v = body(k); r = ite(to_bool(cmp('>' if ismax else '<', v, r)), v, r)
        return r
    b = E.bound()
    try: v = zterms(body(b))[0]
    finally: E.unbound()
    v = z3.simplify(v); nz = zi(n)
    if not engine.contains(v, b): return mk(kind, v)
    key, ps, pl, bl, sk = E.skeleton([nz, v], [b])
    nm = f"{'max' if ismax else 'min'}_{key}"
    f = z3.Function(nm, *[p.sort() for p in ps], v.sort()) if ps else None
    t = f(*ps) if ps else z3.Const(nm, v.sort())
    w = z3.Function("arg" + nm, *[p.sort() for p in ps], z3.IntSort()) if ps else None
    wt = w(*ps) if ps else z3.Int("arg" + nm)
    qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]
    k = z3.Int("q!k"); sub = list(zip(pl, qs))
    N = z3.substitute(sk[0], *sub) if sub else sk[0]
    V = lambda x: z3.substitute(sk[1], *sub, (bl[0], x))
    T = f(*qs) if ps else t; W = w(*qs) if ps else wt
    A = z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < N), V(k) <= T if ismax else V(k) >= T))
    B = z3.Implies(N > 0, z3.And(W >= 0, W < N, V(W) == T, ))
    C = z3.ForAll(qs + [k], z3.Implies(z3.And(k >= 0, k < W, N > 0), V(k) < T if ismax else V(k) > T))
    E.fact(A, key="A" + nm); E.fact(z3.ForAll(qs, B) if qs else B, key="B" + nm); E.fact(C, key="C" + nm)
    r = mk(kind, t)
    E.memo.setdefault('argext', {})[t.get_id()] = (t, wt)
    return r
def max_(a, axis=None, keepdims=False, ismax=True):
    if a.kind == 'b':
        if axis is not None and not (isinstance(a.shape_[int(axis)], int) and a.shape_[int(axis)] > 0):
            n = a.shape_[int(axis)]
            if (n == 0 if isinstance(n, int) else not E.branch(zi(n) > 0)): raise ValueError("zero-size array to reduction operation")
        return (any_ if ismax else all_)(a, axis, keepdims)
    return reduce(a, axis, keepdims, lambda n, body, inner: extremum(n, body, ismax, a.kind), a.kind)

def getitem_unchecked(a, k):
    """a[k] for an index known to be in range (iteration)"""
    spec = []
    for s in a.spec:
        if s[0] == 'f': spec.append(s)
        elif s[1] == 0: p = iadd(s[2], imul(k, s[3])); spec.append(('f', p if s[0] == 'a' else s[4](p)))
        else: spec.append((s[0], s[1] - 1) + tuple(s[2:]))
    v = SArr(a.buf, spec, a.shape_[1:])
    return v.at() if v.ndim == 0 else v
