"""AST interpreter of the real functions over symbolic values (the program logic of the verifier).

Source text is read from the module files of the tree under test on every run.  Loops over
sequences of symbolic length are summarised by a generic iteration (see `summarise`)."""
import ast, builtins, inspect, types, copy, functools, itertools, numbers, warnings as _warnings, operator, os, sys
import collections, collections.abc
import numpy as np
import z3
from . import core, engine, arrays, seqs
from .core import *
from .engine import ENGINE as E, Eff, MISSING, log_local, log_attr, log_item, log_dict, log_list, undo, effects
from .arrays import SArr, Buf
from .seqs import Seg, SSeq, SSet, Fam, FamKey

PKG = "hera_pspec"
MODELS = {}          # callable object -> model(args, kwargs)
ALWAYS = set()       # models applied even when all arguments are concrete
CONTRACTS = {}       # real function object -> contract model (modular use at call sites)
METHODS = {}         # SArr method name -> fn(arr, *args, **kw)
NATIVE_OK = set()    # extra modules whose functions may be called natively with concrete args

class DecStr:
    """decimal string of a symbolic integer, or a constant prefix/suffix slice of it"""
    def __init__(s, n, what=None, k=0): s.n, s.what, s.k = n, what, k
    def getslice(s, sl):
        if s.what is None and isinstance(sl, slice) and sl.step is None:
            if sl.start is None and isinstance(sl.stop, int) and sl.stop < 0: return DecStr(s.n, 'pre', -sl.stop)
            if sl.stop is None and isinstance(sl.start, int) and sl.start < 0: return DecStr(s.n, 'suf', -sl.start)
        raise Unsupported("decimal string operation")
    def to_int(s):
        n = s.n; a = absv(n); P = 10 ** s.k
        if s.what is None: return n
        if s.what == 'pre':
            if not E.truth(cmp('>=', a, P)): raise ValueError("invalid literal for int()")
            q = arith('//', a, P)
            return ite(cmp('<', n, 0), neg(q), q)
        whole = bitop('&', cmp('<', n, 0), cmp('<', a, P // 10))
        return ite(whole, n, arith('%', a, P))
class Poison:
    def __init__(s, loc): s.loc = loc
class PoisonRead(DVBase):
    def __init__(s, loc): super().__init__("poison"); s.loc = loc
class Retry(DVBase): pass

_serial = itertools.count(1)
class Frame:
    __slots__ = ("vars", "glob", "parent", "name", "gdecl", "nldecl", "serial", "cells")
    def __init__(s, glob, parent=None, name="?", cells=None):
        s.vars = {}; s.glob = glob; s.parent = parent; s.name = name; s.gdecl = set(); s.nldecl = set(); s.serial = next(_serial); s.cells = cells or {}
class Func:
    """interpreted closure"""
    def __init__(s, node, glob, parent, defaults, kwdefaults, name, cells=None, owner=None):
        s.node, s.glob, s.parent, s.defaults, s.kwdefaults, s.__name__ = node, glob, parent, defaults, kwdefaults, name
        s.cells = cells; s.owner = owner
    def __call__(s, *a, **k): return call_func(s, list(a), dict(k))
class SMeth:
    def __init__(s, obj, name): s.obj, s.name = obj, name
    def __call__(s, *a, **k): return call(s, list(a), dict(k))

# creation register: lists/dicts/objects created while interpreting
NEW = {}
def created(o):
    NEW[id(o)] = (next(_serial), o); return o
def created_deep(o, seen=None):
    seen = set() if seen is None else seen
    if id(o) in seen: return o
    seen.add(id(o))
    if isinstance(o, list):
        created(o)
        for x in o: created_deep(x, seen)
    elif isinstance(o, dict):
        created(o)
        for x in o.values(): created_deep(x, seen)
    elif isinstance(o, tuple):
        for x in o: created_deep(x, seen)
    elif hasattr(o, '__dict__') and type(o).__module__.startswith(PKG):
        created(o); 
        for x in o.__dict__.values(): created_deep(x, seen)
    return o
_old_buf_init = Buf.__init__
def _buf_init(self, fn, shape, kind):
    _old_buf_init(self, fn, shape, kind); self.tag = next(_serial)
Buf.__init__ = _buf_init
def serial_of(o):
    if isinstance(o, (Frame,)): return o.serial
    if isinstance(o, Buf): return o.tag
    r = NEW.get(id(o))
    return r[0] if r is not None and r[1] is o else 0

# ------------------------------------------------------------------ sources
_trees = {}
def module_tree(path):
    if path not in _trees:
        with open(path) as f: txt = f.read()
        tree = ast.parse(txt)
        by = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list: ln = min(ln, min(d.lineno for d in n.decorator_list))
                by.setdefault((ln, getattr(n, 'name', '<lambda>')), n)
        _trees[path] = by
    return _trees[path]
_funcs = {}
def func_of(f):
    """real function object -> Func over its source AST"""
    r = _funcs.get(f)
    if r is None:
        code = f.__code__
        node = module_tree(code.co_filename).get((code.co_firstlineno, code.co_name))
        if node is None: raise Unsupported(f"source of {f.__qualname__} not found")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)): raise Unsupported(f"generator {f.__qualname__}")
        cells = {n: c.cell_contents for n, c in zip(code.co_freevars, f.__closure__ or ())}
        owner = None
        q = f.__qualname__.split('.')
        if len(q) == 2:
            owner = f.__globals__.get(q[0])
        r = Func(node, f.__globals__, None, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), f.__name__, cells, owner)
        _funcs[f] = r
    E.used.add(f"{f.__module__.split('.')[-1]}.{f.__qualname__}")
    return r

# ------------------------------------------------------------------ symbolic detection
def is_symbolic(x, depth=0):
    if isinstance(x, (Sym, SArr, Seg, SSeq, SSet, FamKey, Poison, Fam, DecStr)): return True
    if x is None or isinstance(x, (str, bytes, numbers.Number, np.ndarray, np.generic, type, types.FunctionType, types.ModuleType)): return False
    if depth > 4: return False
    if isinstance(x, (list, tuple, set, frozenset)): return any(is_symbolic(y, depth + 1) for y in x)
    if isinstance(x, dict): return any(is_symbolic(k, depth + 1) or is_symbolic(v, depth + 1) for k, v in x.items())
    if isinstance(x, slice): return any(is_symbolic(y, depth + 1) for y in (x.start, x.stop, x.step))
    if isinstance(x, (Func, SMeth)): return True
    if hasattr(x, '__dict__') and type(x).__module__.startswith((PKG, 'contracts', 'dv')):
        return any(is_symbolic(v, depth + 2) for v in x.__dict__.values())
    return False

def demote(x):
    """SArr with concrete shape and contents -> ndarray (for native calls)"""
    if isinstance(x, SArr):
        if arrays.concrete(x):
            n = 1
            for d in x.shape_: n *= d
            if n <= 4096:
                out = np.empty(x.shape_, dtype=object)
                for ix in np.ndindex(*x.shape_):
                    v = x.at(*ix)
                    if isinstance(v, Sym): return x
                    out[ix] = v
                if x.kind in 'bifc': return out.astype(KDT[x.kind])
                if x.kind == 'O': return np.array(out.tolist()) if n and isinstance(out.flat[0], str) else out
        return x
    if isinstance(x, list) and any(isinstance(y, (SArr, list, tuple)) for y in x): return [demote(y) for y in x]
    if isinstance(x, tuple) and any(isinstance(y, (SArr, list, tuple)) for y in x): return tuple(demote(y) for y in x)
    if isinstance(x, dict) and any(isinstance(y, (SArr, list, tuple)) for y in x.values()): return {k: demote(v) for k, v in x.items()}
    return x

# ------------------------------------------------------------------ calls
def bind(fn, args, kw):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    rest = []
    for i, v in enumerate(args):
        if i < len(names): out[names[i]] = v
        else: rest.append(v)
    if rest and not a.vararg: raise TypeError(f"{fn.__name__}() takes {len(names)} positional arguments but {len(args)} were given")
    if a.vararg: out[a.vararg.arg] = tuple(rest)
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = {}
    for k, v in kw.items():
        if k in names or k in kwonly:
            if k in out: raise TypeError(f"{fn.__name__}() got multiple values for argument '{k}'")
            out[k] = v
        else: extra[k] = v
    if extra and not a.kwarg: raise TypeError(f"{fn.__name__}() got an unexpected keyword argument '{list(extra)[0]}'")
    if a.kwarg: out[a.kwarg.arg] = created(extra)
    d = fn.defaults
    for n, v in zip(names[len(names) - len(d):], d):
        if n not in out: out[n] = v
    for n, v in fn.kwdefaults.items():
        if n not in out: out[n] = v
    for n in names + kwonly:
        if n not in out: raise TypeError(f"{fn.__name__}() missing required argument: '{n}'")
    return out
_depth = [0]
def call_func(fn, args, kw):
    _depth[0] += 1
    if _depth[0] > 60: _depth[0] = 0; raise Unsupported("recursion too deep")
    try:
        fr = Frame(fn.glob, fn.parent, fn.__name__, fn.cells)
        fr.vars.update(bind(fn, args, kw))
        fr.cells = dict(fr.cells or {})
        if fn.owner is not None: fr.cells.setdefault('__class__', fn.owner)
        if isinstance(fn.node, ast.Lambda): return ev(fn.node.body, fr)
        r = exec_block(fn.node.body, fr)
        return r[1] if r is not None and r[0] == 'return' else None
    finally:
        _depth[0] = max(0, _depth[0] - 1)

def call(fn, args, kw):
    if isinstance(fn, Func): return call_func(fn, args, kw)
    if isinstance(fn, SMeth):
        m = METHODS.get(fn.name)
        if m is None: raise Unsupported(f"array method {fn.name}")
        return m(fn.obj, *args, **kw)
    if isinstance(fn, Poison): raise PoisonRead(fn.loc)
    if isinstance(fn, functools.partial):
        return call(fn.func, list(fn.args) + args, {**fn.keywords, **kw})
    if isinstance(fn, types.MethodType):
        f = fn.__func__
        try: c = CONTRACTS.get(fn)
        except TypeError: c = None
        if c is not None:
            E.contract_uses.add(getattr(fn, '__qualname__', str(fn)))
            return c(*args, **kw)
        return call(f, [fn.__self__] + args, kw)
    try: c = CONTRACTS.get(fn)
    except TypeError: c = None
    if c is not None:
        E.contract_uses.add(f"{(getattr(fn, '__module__', '') or '').split('.')[-1]}.{getattr(fn, '__qualname__', fn)}")
        return c(*args, **kw)
    try: h = MODELS.get(fn)
    except TypeError: h = None
    if h is not None and (fn in ALWAYS or is_symbolic(args) or is_symbolic(kw)):
        return h(*args, **kw)
    if isinstance(fn, types.FunctionType):
        if fn.__module__ and fn.__module__.split('.')[0] in (PKG,):
            return call_func(func_of(fn), args, kw)
        if hasattr(fn, '__wrapped__') and getattr(fn.__wrapped__, '__module__', '').split('.')[0] == PKG:
            raise Unsupported(f"decorated {fn.__qualname__}")
    if isinstance(fn, type):
        if fn.__module__.split('.')[0] == PKG and not issubclass(fn, BaseException):
            init = fn.__init__
            if isinstance(init, types.FunctionType):
                o = created(object.__new__(fn))
                call(init, [o] + args, kw)
                return o
            return created(fn(*args, **kw))
        if issubclass(fn, BaseException):
            return fn(*[strish(a) for a in args])
    # bound builtin methods
    self = getattr(fn, '__self__', None)
    nm = getattr(fn, '__name__', None)
    if self is not None and not isinstance(self, types.ModuleType):
        r = method_builtin(self, nm, args, kw)
        if r is not NotImplemented: return r
        if isinstance(self, np.ndarray) and (is_symbolic(args) or is_symbolic(kw)):
            return METHODS[nm](arrays.from_np(self), *args, **kw)
    if is_symbolic(args) or is_symbolic(kw):
        a2, k2 = [demote(x) for x in args], {k: demote(v) for k, v in kw.items()}
        if is_symbolic(a2) or is_symbolic(k2):
            if isinstance(fn, types.FunctionType) and fn.__module__ and fn.__module__.split('.')[0] in ('contracts',): return fn(*args, **kw)
            if hasattr(fn, '__call__') and not isinstance(fn, (types.FunctionType, types.BuiltinFunctionType, type)) and getattr(fn, '_dv_ok', False): return fn(*args, **kw)
            raise Unsupported(f"no model for {getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)} on symbolic arguments")
        args, kw = a2, k2
    r = fn(*args, **kw)
    if isinstance(r, (list, dict)): created(r)
    return r
def strish(a):
    if is_symbolic(a): return "<symbolic>"
    return a

def method_builtin(self, nm, args, kw):
    """methods of native list/dict/set/str objects (with undo logging)"""
    if isinstance(self, list):
        if nm == 'append': log_list(self); self.append(args[0]); return None
        if nm == 'extend':
            log_list(self)
            v = args[0]
            self.extend(seqs.from_pieces(seqs.pieces_of(v))); return None
        if nm in ('insert', 'pop', 'remove', 'reverse', 'clear', 'sort'):
            if seqs.has_seg(self): raise Unsupported(f"list.{nm} with symbolic run")
            if nm == 'remove':
                for i, x in enumerate(self):
                    if E.truth(seqs.eq_vals(x, args[0])): log_list(self); del self[i]; return None
                raise ValueError("list.remove(x): x not in list")
            if nm == 'sort' and is_symbolic(self): raise Unsupported("sort of symbolic list")
            log_list(self); return getattr(self, nm)(*args, **kw)
        if nm == 'index':
            if seqs.has_seg(self): raise Unsupported("index with symbolic run")
            for i, x in enumerate(self):
                if E.truth(seqs.eq_vals(x, args[0])): return i
            raise ValueError("not in list")
        if nm == 'count' and not seqs.has_seg(self):
            n = 0
            for x in self: n = n + ite(to_bool(seqs.eq_vals(x, args[0])), 1, 0)
            return n
        if nm == 'copy': return created(list(self))
        return NotImplemented
    if isinstance(self, dict):
        if any(isinstance(k, FamKey) for k in self):
            if nm == 'keys': return SSeq(*seqs.to_seq(self), "keys")
            if nm == 'items': return SSeq(*fam_items(self), "items")
            if nm == 'values': return SSeq(*fam_values(self), "values")
        if nm == 'get':
            if is_symbolic(args[0]):
                c = seqs.contains_val(self, args[0])
                if E.truth(c): return getitem_any(self, args[0])
                return args[1] if len(args) > 1 else None
            return self.get(*args)
        if nm in ('keys', 'values', 'items'): return NotImplemented
        if nm in ('pop', 'setdefault', 'update', 'clear', 'popitem'):
            if is_symbolic(args[:1]) and nm != 'update': raise Unsupported(f"dict.{nm} with symbolic key")
            log_dict(self)
            return getattr(self, nm)(*args, **kw)
        if nm == 'copy': return created(dict(self))
        return NotImplemented
    if isinstance(self, set):
        if nm == 'add':
            if is_symbolic(args): raise Unsupported("set.add symbolic")
            old = set(self)
            def un(s=self, o=old): s.clear(); s.update(o)
            E.trail.append(Eff('call', self, None, un)); self.add(*args); return None
        return NotImplemented
    if isinstance(self, SSet):
        if nm in ('intersection', 'union', 'difference'):
            r = self
            for a in args: r = set_op({'intersection': '&', 'union': '|', 'difference': '-'}[nm], r, a)
            return r
    if isinstance(self, str):
        if is_symbolic(args) or is_symbolic(kw):
            if nm == 'format': return self
            if nm == 'join' : return "<symbolic>"
    return NotImplemented
def fam_items(d):
    ps = []
    for k in d:
        if isinstance(k, FamKey): f = d[k]; ps.append(Seg(f.n, lambda j, f=f: (f.keyfn(j), f.valfn(j))))
        else: ps.append((k, d[k]))
    if len(ps) == 1 and isinstance(ps[0], Seg): return ps[0].n, ps[0].fn
    return seqs.seq_len(ps), lambda j: seqs.seq_get(ps, j)
def fam_values(d):
    n, f = fam_items(d)
    return n, lambda j: f(j)[1]

def set_op(op, a, b):
    ia = a.items if isinstance(a, SSet) else list(a)
    ib = b.items if isinstance(b, SSet) else (list(b) if not isinstance(b, (SArr, SSeq)) else seqs.from_pieces(seqs.pieces_of(b)))
    if op == '|': return SSet(ia + ib)
    out = []
    for p in seqs.pieces_of(ia):
        if p[0] == 'g':
            n, fn = p[1], p[2]
            m = arrays.new((n,), 'b', lambda ix: (lambda c: c if op == '&' else invert(c))(seqs.contains_val(ib, fn(ix[0]))))
            idx = arrays.mask_to_idx(m)
            out.append(Seg(idx.shape_[0], lambda k, idx=idx, fn=fn: fn(as_int(idx.at(k)))))
        else:
            c = seqs.contains_val(ib, p[1])
            if op == '-': c = invert(c) if isinstance(c, Sym) else (not c)
            if E.truth(c): out.append(p[1])
    return SSet(out)

# ------------------------------------------------------------------ attribute / item access
def getattr_any(o, name):
    if isinstance(o, Poison): raise PoisonRead(o.loc)
    if isinstance(o, SArr):
        if name in ('shape', 'ndim', 'size', 'dtype', 'T', 'real', 'imag'): return getattr(o, name)
        if not hasattr(np.ndarray, name): raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")
        return SMeth(o, name)
    if isinstance(o, Sym):
        if name in ('real', 'imag', 'shape', 'ndim', 'size', 'dtype'): return getattr(o, name)
        return SMeth(arrays.to_arr(o), name) if name in METHODS and not hasattr(Sym, name) else getattr(o, name)
    if isinstance(o, SSet): return SetMeth(o, name)
    if isinstance(o, super): return getattr(o, name)
    if not isinstance(o, type):
        for c in type(o).__mro__:
            if name in c.__dict__:
                p = c.__dict__[name]
                if isinstance(p, property) and c.__module__.split('.')[0] == PKG: return call(p.fget, [o], {})
                break
    v = getattr(o, name)
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    return v
class SetMeth:
    def __init__(s, o, n): s.__self__, s.__name__ = o, n
    def __call__(s, *a, **k):
        r = method_builtin(s.__self__, s.__name__, list(a), k)
        if r is NotImplemented: raise Unsupported(f"set.{s.__name__}")
        return r
def setattr_any(o, name, v):
    if isinstance(o, SArr) and name == 'shape':
        r = arrays.reshape(o, v)
        if r.buf is not o.buf and o.meta.get('shared'): raise Unsupported("in-place reshape of a view")
        o.buf, o.spec, o.shape_ = r.buf, r.spec, r.shape_; o.meta = {}; return
    if isinstance(o, SArr) or isinstance(o, Sym): raise Unsupported("attribute assignment on array")
    for c in type(o).__mro__:
        p = c.__dict__.get(name)
        if isinstance(p, property) and c.__module__.split('.')[0] == PKG:
            if p.fset is None: raise AttributeError(f"can't set attribute '{name}'")
            call(p.fset, [o, v], {}); return
    log_attr(o, name)
    setattr(o, name, v)

def norm_key(k): return k
def getitem_any(o, k):
    if isinstance(o, Poison): raise PoisonRead(o.loc)
    if isinstance(k, Poison): raise PoisonRead(k.loc)
    if isinstance(o, SArr): return arrays.getitem(o, k)
    if isinstance(o, np.ndarray):
        if is_symbolic(k):
            return arrays.getitem(arrays.from_np(o), k)
        return o[k]
    if isinstance(o, dict):
        if not is_symbolic(k):
            try:
                if k in o:
                    v = o[k]
                    if isinstance(v, Poison): raise PoisonRead(v.loc)
                    return v
            except TypeError: raise
        for kk in sorted(o, key=lambda q: isinstance(o[q], HavocFam)):
            if isinstance(kk, FamKey):
                f = o[kk]; j = f.solve(k)
                if j is None: continue
                if E.branch(And(ile(0, j), ilt(j, f.n))): return f.valfn(j)
            else:
                e = seqs.eq_vals(kk, k)
                if e is False: continue
                if E.truth(e):
                    v = o[kk]
                    if isinstance(v, Poison): raise PoisonRead(v.loc)
                    return v
        if isinstance(o, collections.defaultdict): return o[k]
        raise KeyError("<symbolic>" if is_symbolic(k) else k)
    if isinstance(o, SSeq):
        if isinstance(k, slice):
            st, ln, step = arrays.norm_slice(k, o.n); f = o.fn
            return SSeq(ln, lambda j: f(iadd(st, imul(j, step))), o.what)
        return o.fn(arrays.norm_index(k, o.n))
    if isinstance(o, (list, tuple)):
        if isinstance(k, slice):
            if not seqs.has_seg(o) and not is_symbolic(k): r = o[k]; return created(r) if isinstance(r, list) else r
            n = seqs.seq_len(o); st, ln, step = arrays.norm_slice(k, n); src = list(o)
            return created([Seg(ln, lambda j: seqs.seq_get(src, iadd(st, imul(j, step))))])
        if isinstance(k, SArr): k = arrays.unscalar(k)
        if not is_symbolic(k) and not seqs.has_seg(o):
            v = o[k]
            if isinstance(v, Poison): raise PoisonRead(v.loc)
            return v
        i = arrays.norm_index(k, seqs.seq_len(o))
        return seqs.seq_get(list(o), i)
    if isinstance(o, DecStr): return o.getslice(k)
    if isinstance(o, str) and is_symbolic(k): raise Unsupported("symbolic string index")
    return o[k]
def same_view(a, b):
    """the very same view of the same buffer (storing it back is a no-op)"""
    if not (isinstance(a, SArr) and isinstance(b, SArr)) or a.buf is not b.buf or len(a.spec) != len(b.spec) or any(x[0] == 'g' for x in a.spec + b.spec): return False
    for x, y in zip(a.spec, b.spec):
        if x[0] != y[0] or len(x) != len(y): return False
        for p, q in zip(x[1:], y[1:]):
            if isinstance(p, int) and isinstance(q, int):
                if p != q: return False
            elif not (zi(p).eq(zi(q))): return False
    return True
def setitem_any(o, k, v):
    if isinstance(o, SArr): arrays.setitem(o, k, v); return
    if isinstance(o, np.ndarray):
        if is_symbolic(k) or is_symbolic(v): raise Unsupported("symbolic store into native ndarray")
        old = o.copy()
        def un(o=o, old=old): o[...] = old
        E.trail.append(Eff('call', o, None, un)); o[k] = v; return
    if isinstance(o, dict):
        if is_symbolic(k):
            for kk in list(o):
                if isinstance(o[kk], HavocFam): continue
                if isinstance(kk, FamKey):
                    j = o[kk].solve(k)
                    if j is None: continue
                    if E.branch(And(ile(0, j), ilt(j, o[kk].n))):
                        f = o[kk]; old = f.valfn
                        if same_view(v, old(j)): return
                        log_item(o, kk)
                        o[kk] = Fam(f.n, f.keyfn, lambda t, j=j, v=v, old=old: seqs.merge_vals(ieq(t, j), v, old(t)), f.solve, f.writes + [(j, v)]); return
                else:
                    e = seqs.eq_vals(kk, k)
                    if e is False: continue
                    if E.truth(e): log_item(o, kk); o[kk] = v; return
            fk = FamKey(); log_item(o, fk)
            E.trail[-1].extra = ('symkey', k, v)
            o[fk] = Fam(1, lambda t, k=k: k, lambda t, v=v: v, lambda key, k=k: (lambda e: 0 if e is True else (None if e is False else iite(to_bool(e), 0, -1)))(seqs.eq_vals(k, key)))
            return
        log_item(o, k); o[k] = v; return
    if isinstance(o, list):
        if isinstance(k, slice):
            if is_symbolic(k): raise Unsupported("symbolic slice store in list")
            log_list(o); o[k] = v; return
        if not is_symbolic(k) and not seqs.has_seg(o): log_list(o); o[k] = v; return
        i = arrays.norm_index(k, seqs.seq_len(o)); log_list(o)
        src = list(o); n = seqs.seq_len(o)
        if isinstance(n, int) and not seqs.has_seg(o):
            for j in range(n): o[j] = seqs.merge_vals(ieq(i, j), v, src[j])
        else:
            o[:] = [Seg(n, lambda t: seqs.merge_vals(ieq(t, i), v, seqs.seq_get(src, t)))]
        return
    o[k] = v
def delitem_any(o, k):
    if isinstance(o, dict): log_dict(o); del o[k]; return
    if isinstance(o, list) and not seqs.has_seg(o): log_list(o); del o[k]; return
    if type(o).__module__.startswith('contracts'): del o[k]; return      # assumed contract object
    raise Unsupported("del")

# ------------------------------------------------------------------ expressions
def lookup(name, fr):
    f = fr
    while f is not None:
        if name in f.vars:
            v = f.vars[name]
            if isinstance(v, Poison): raise PoisonRead(v.loc)
            return v
        if name in f.cells: return f.cells[name]
        f = f.parent
    if name in fr.glob: return fr.glob[name]
    if hasattr(builtins, name): return getattr(builtins, name)
    raise NameError(f"name '{name}' is not defined")

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift}
def binop(op, a, b):
    if isinstance(a, Poison): raise PoisonRead(a.loc)
    if isinstance(b, Poison): raise PoisonRead(b.loc)
    if op is ast.MatMult and (isinstance(a, SArr) or isinstance(b, SArr)):
        return MODELS[np.matmul](a, b)
    if op in (ast.BitAnd, ast.BitOr, ast.Sub) and (isinstance(a, SSet) or isinstance(b, SSet)):
        return set_op({ast.BitAnd: '&', ast.BitOr: '|', ast.Sub: '-'}[op], a, b)
    if op is ast.Mult and isinstance(a, list) and isinstance(b, Sym): a, b = a, b
    if op is ast.Mult and isinstance(a, (list, tuple)) and isinstance(b, Sym):
        if len(a) == 1 and not seqs.has_seg(a): x = a[0]; return created([Seg(as_int(b), lambda k: x)])
        raise Unsupported("list * symbolic")
    if op is ast.Mult and isinstance(b, (list, tuple)) and isinstance(a, Sym): return binop(op, b, a)
    if op is ast.Mod and isinstance(a, str):
        return a if is_symbolic(b) else a % b
    r = BIN[op](a, b)
    if isinstance(r, list): created(r)
    return r

def ev(n, fr):
    m = EV.get(type(n))
    if m is None: raise Unsupported(f"expression {type(n).__name__}")
    return m(n, fr)
def e_name(n, fr): return lookup(n.id, fr)
def e_const(n, fr): return n.value
def e_attr(n, fr): return getattr_any(ev(n.value, fr), n.attr)
def e_tuple(n, fr):
    vals = elts(n.elts, fr)
    return tuple(vals) if not seqs.has_seg(vals) else tuple(vals)
def e_list(n, fr): return created(elts(n.elts, fr))
def elts(es, fr):
    out = []
    for x in es:
        if isinstance(x, ast.Starred): out += seqs.from_pieces(seqs.pieces_of(ev(x.value, fr)))
        else: out.append(ev(x, fr))
    return out
def e_set(n, fr):
    v = elts(n.elts, fr)
    return SSet(v) if is_symbolic(v) else set(v)
def e_dict(n, fr):
    d = {}
    for k, v in zip(n.keys, n.values):
        if k is None: d.update(ev(v, fr))
        else: setitem_any(d, ev(k, fr), ev(v, fr))
    return created(d)
def e_bin(n, fr): return binop(type(n.op), ev(n.left, fr), ev(n.right, fr))
def e_unary(n, fr):
    v = ev(n.operand, fr)
    if isinstance(n.op, ast.Not):
        if isinstance(v, Sym): return invert(v) if v.kind == 'b' else (not E.truth(v))
        return not truth(v)
    if isinstance(n.op, ast.USub): return -v
    if isinstance(n.op, ast.UAdd): return +v
    return ~v
def truth(v):
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if isinstance(v, Sym): return E.truth(v)
    if isinstance(v, SArr): return bool(v)
    if isinstance(v, (list, tuple)) and seqs.has_seg(v): 
        n = seqs.seq_len(v); return E.branch(zi(n) > 0) if not isinstance(n, int) else n > 0
    if isinstance(v, SSeq): return E.branch(zi(v.n) > 0)
    if isinstance(v, SSet): return E.truth(mk('b', zi(seqs.seq_len(v.items)) > 0)) if v.items else False
    if isinstance(v, (Func, SMeth)): return True
    return bool(v)
def e_bool(n, fr):
    isand = isinstance(n.op, ast.And)
    v = None
    for i, x in enumerate(n.values):
        v = ev(x, fr)
        if i == len(n.values) - 1: return v
        t = truth(v)
        if isand and not t: return v
        if not isand and t: return v
    return v
def e_cmp(n, fr):
    left = ev(n.left, fr); res = None
    for op, r in zip(n.ops, n.comparators):
        right = ev(r, fr)
        c = compare(type(op), left, right)
        if res is None: res = c
        else: res = bitop('&', res, c)
        if len(n.ops) > 1 and not isinstance(res, (Sym, SArr, np.ndarray)) and not res: return res
        left = right
    return res
def compare(op, a, b):
    for x in (a, b):
        if isinstance(x, Poison): raise PoisonRead(x.loc)
    if op is ast.Is: return a is b
    if op is ast.IsNot: return a is not b
    if op in (ast.In, ast.NotIn):
        if isinstance(b, Poison): raise PoisonRead(b.loc)
        if is_symbolic(a) or is_symbolic(b): r = seqs.contains_val(b, a)
        else: r = a in b
        if op is ast.NotIn: r = invert(r) if isinstance(r, Sym) else (not r)
        return r
    if op in (ast.Eq, ast.NotEq):
        if isinstance(a, (SSet,)) or isinstance(b, SSet): raise Unsupported("set equality")
        if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
            if is_symbolic(a) or is_symbolic(b):
                if isinstance(a, SArr) or isinstance(b, SArr): r = cmp('==', arrays.to_arr(a), arrays.to_arr(b)) if True else None
                else: r = seqs.eq_vals(a, b)
            else: r = a == b
            if op is ast.NotEq: r = (invert(r) if isinstance(r, (Sym, SArr, np.ndarray)) else (not r))
            return r
        return a == b if op is ast.Eq else a != b
    f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op]
    if isinstance(a, tuple) and isinstance(b, tuple) and (is_symbolic(a) or is_symbolic(b)):
        # lexicographic
        lt = op in (ast.Lt, ast.LtE); r = op in (ast.LtE, ast.GtE) if len(a) == len(b) else ((len(a) < len(b)) == lt)
        for x, y in reversed(list(zip(a, b))):
            s = cmp('<' if lt else '>', x, y)
            r = bitop('|', s, bitop('&', cmp('==', x, y), r))
        return r
    return f(a, b)
def e_ifexp(n, fr): return ev(n.body if truth(ev(n.test, fr)) else n.orelse, fr)
def e_sub(n, fr): return getitem_any(ev(n.value, fr), ev(n.slice, fr))
def e_slice(n, fr):
    f = lambda x: None if x is None else ev(x, fr)
    def u(v): return arrays.unscalar(v) if isinstance(v, (SArr, np.ndarray)) else v
    return slice(u(f(n.lower)), u(f(n.upper)), u(f(n.step)))
def e_call(n, fr):
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
        cls = lookup('__class__', fr); f = fr
        return super(cls, fr.vars[next(iter(fr.vars))])
    if isinstance(n.func, ast.Name) and n.func.id == 'locals' : raise Unsupported("locals()")
    fn = ev(n.func, fr)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            ps = seqs.pieces_of(ev(a.value, fr))
            if any(p[0] == 'g' for p in ps): 
                args.append(StarSeg(seqs.from_pieces(ps))); continue
            args += [p[1] for p in ps]
        else: args.append(ev(a, fr))
    kw = {}
    for k in n.keywords:
        if k.arg is None: kw.update(ev(k.value, fr))
        else: kw[k.arg] = ev(k.value, fr)
    return call(fn, args, kw)
class StarSeg:
    def __init__(s, l): s.l = l
def e_lambda(n, fr):
    return Func(n, fr.glob, fr, [ev(d, fr) for d in n.args.defaults], {a.arg: ev(d, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, '<lambda>')
def e_fstr(n, fr):
    out = ""
    for v in n.values:
        if isinstance(v, ast.Constant): out += str(v.value)
        else:
            try: x = ev(v.value, fr)
            except PoisonRead: raise
            if is_symbolic(x): out += "<symbolic>"
            else:
                spec = e_fstr(v.format_spec, fr) if v.format_spec is not None else ""
                x = {ord('s'): str, ord('r'): repr, ord('a'): ascii}.get(v.conversion, lambda y: y)(x)
                out += format(x, spec)
    return out
def e_named(n, fr):
    v = ev(n.value, fr); assign(n.target, v, fr); return v
def e_starred(n, fr): raise Unsupported("starred")

# comprehensions
def comp(n, fr, kind):
    sub = Frame(fr.glob, fr, fr.name + ".<comp>", {})
    out = []
    def gen(i):
        if i == len(n.generators):
            if kind == 'dict': out.append((ev(n.key, sub), ev(n.value, sub)))
            else: out.append(ev(n.elt, sub))
            return
        g = n.generators[i]
        it = ev(g.iter, fr if i == 0 else sub)
        if isinstance(it, Poison): raise PoisonRead(it.loc)
        for p in seqs.pieces_of(it):
            if p[0] == 'c':
                assign(g.target, p[1], sub)
                if all(truth(ev(c, sub)) for c in g.ifs): gen(i + 1)
            else:
                generic(p[1], p[2], g, i)
    def generic(cnt, fn, g, i):
        nonlocal out
        save = out
        def body(k):
            nonlocal out
            out = []
            assign(g.target, fn(k), sub)
            if all(truth(ev(c, sub)) for c in g.ifs): gen(i + 1)
            return out
        k, paths = generic_paths(cnt, body, "comprehension")
        out = save
        lens = {len(p[1]) for p in paths}
        if any(seqs.has_seg(p[1]) for p in paths):
            # nested symbolic run: only when the inner list is the single element list of each path
            raise Unsupported("nested symbolic comprehension (flattened)")
        if not paths: return
        if lens == {1}:
            v = merge_paths([(c, o[0]) for c, o in paths])
            out.append(Seg(cnt, lambda j: subst_val_(v, k, j)))
        elif lens <= {0, 1}:
            keep = [(c, o[0]) for c, o in paths if len(o)]
            mask_c = Or(*[And(*c) for c, _ in keep])
            if not keep: return
            m = arrays.new((cnt,), 'b', lambda ix: mk('b', subst_c(mask_c, k, ix[0])))
            idx = arrays.mask_to_idx(m)
            v = merge_paths(keep)
            out.append(Seg(idx.shape_[0], lambda j: subst_val_(v, k, as_int(idx.at(j)))))
        else: raise Unsupported("comprehension with several elements per step")
    gen(0)
    return out
def subst_val_(v, k, j):
    return seqs.subst_val(v, [(k, zi(as_int(j)))])
def subst_c(c, k, j):
    if isinstance(c, bool): return c
    return z3.substitute(c, (k, zi(as_int(j))))
def merge_paths(ps):
    """[(conds, value)] exhaustive -> value"""
    v = ps[-1][1]
    for c, x in reversed(ps[:-1]): v = seqs.merge_vals(And(*c), x, v)
    return v
def e_listcomp(n, fr): return created(comp(n, fr, 'list'))
def e_setcomp(n, fr):
    v = comp(n, fr, 'list'); return SSet(v) if is_symbolic(v) else set(v)
def e_gen(n, fr): return created(comp(n, fr, 'list'))
def e_dictcomp(n, fr):
    d = {}
    for p in comp(n, fr, 'dict'):
        if isinstance(p, Seg): add_family(d, p.n, lambda j, p=p: p.fn(j)[0], lambda j, p=p: p.fn(j)[1])
        else: setitem_any(d, p[0], p[1])
    return created(d)
def add_family(d, n, keyfn, valfn):
    # only families whose key is the index itself (plus constant) or an injective embedding are representable
    b = E.bound()
    try: kb = keyfn(b)
    finally: E.unbound()
    solve = key_solver(kb, b, n, keyfn)
    if len(d): raise Unsupported("dict family merged into non-empty dict")
    d[FamKey()] = Fam(n, keyfn, valfn, solve)
def key_solver(kb, b, n, keyfn):
    if isinstance(kb, Sym) and kb.kind == 'i':
        d = z3.simplify(kb.e - b)
        if not engine.contains(d, b):
            return lambda key: isub(as_int(key), as_int(d)) if kind_of(key) in 'bi' else None
    raise Unsupported("dict family key is not an offset index")

EV = {ast.Name: e_name, ast.Constant: e_const, ast.Attribute: e_attr, ast.Tuple: e_tuple, ast.List: e_list, ast.Set: e_set, ast.Dict: e_dict,
      ast.BinOp: e_bin, ast.UnaryOp: e_unary, ast.BoolOp: e_bool, ast.Compare: e_cmp, ast.IfExp: e_ifexp, ast.Subscript: e_sub, ast.Slice: e_slice,
      ast.Call: e_call, ast.Lambda: e_lambda, ast.JoinedStr: e_fstr, ast.NamedExpr: e_named, ast.ListComp: e_listcomp, ast.SetComp: e_setcomp,
      ast.GeneratorExp: e_gen, ast.DictComp: e_dictcomp}

# ------------------------------------------------------------------ statements
def assign(t, v, fr):
    if isinstance(t, ast.Name):
        if t.id in fr.gdecl: raise Unsupported("assignment to global")
        f = fr
        if t.id in fr.nldecl:
            f = fr.parent
            while f is not None and t.id not in f.vars: f = f.parent
        log_local(f, t.id); f.vars[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        ps = seqs.pieces_of(v)
        if any(p[0] == 'g' for p in ps):
            n = seqs.seq_len(seqs.from_pieces(ps))
            if any(isinstance(x, ast.Starred) for x in t.elts) or not E.branch(ieq(n, len(t.elts))): raise Unsupported("unpacking symbolic-length sequence")
            l = seqs.from_pieces(ps)
            vals = [seqs.seq_get(l, i) for i in range(len(t.elts))]
        else: vals = [p[1] for p in ps]
        st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if st:
            i = st[0]; tail = len(t.elts) - i - 1
            if len(vals) < len(t.elts) - 1: raise ValueError("not enough values to unpack")
            vals = vals[:i] + [created(list(vals[i:len(vals) - tail]))] + vals[len(vals) - tail:]
        if len(vals) != len(t.elts): raise ValueError(f"cannot unpack {len(vals)} values into {len(t.elts)}")
        for x, y in zip(t.elts, vals): assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
    elif isinstance(t, ast.Attribute): setattr_any(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript): setitem_any(ev(t.value, fr), ev(t.slice, fr), v)
    else: raise Unsupported(f"assignment target {type(t).__name__}")

def exec_block(body, fr):
    for s in body:
        r = st(s, fr)
        if r is not None: return r
    return None
def st(n, fr):
    m = ST.get(type(n))
    if m is None: raise Unsupported(f"statement {type(n).__name__}")
    return m(n, fr)
def s_expr(n, fr):
    if isinstance(n.value, ast.Constant): return None
    ev(n.value, fr)
def s_assign(n, fr):
    v = ev(n.value, fr)
    for t in n.targets: assign(t, v, fr)
def s_ann(n, fr):
    if n.value is not None: assign(n.target, ev(n.value, fr), fr)
def s_aug(n, fr):
    t = n.target
    if isinstance(t, ast.Name):
        cur = lookup(t.id, fr); get = lambda: cur; put = lambda v: assign(t, v, fr)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr); cur = getattr_any(o, t.attr); put = lambda v: setattr_any(o, t.attr, v)
    else:
        o = ev(t.value, fr); k = ev(t.slice, fr); cur = getitem_any(o, k); put = lambda v: setitem_any(o, k, v)
    if isinstance(cur, Poison): raise PoisonRead(cur.loc)
    v = ev(n.value, fr)
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if isinstance(cur, SArr) and cur.ndim > 0:
        r = binop(type(n.op), cur, v)
        r = arrays.to_arr(r)
        if KORD.get(r.kind, 0) > KORD.get(cur.kind, 0) and not (cur.kind == 'i' and r.kind == 'b'):
            raise TypeError("Cannot cast ufunc output (same_kind)")
        if len(r.shape_) != cur.ndim: raise ValueError("non-broadcastable output operand")
        arrays.assign_view(cur, r)
        if isinstance(t, ast.Subscript): put(cur)     # numpy semantics: o[k] = (view updated in place)
        return None
    if isinstance(cur, list) and isinstance(n.op, ast.Add):
        method_builtin(cur, 'extend', [v], {}); 
        if isinstance(t, ast.Name) or (isinstance(t, ast.Subscript) and isinstance(o, list) and (seqs.has_seg(o) or is_symbolic(k))): put(cur)
        return None
    if isinstance(cur, np.ndarray) and cur.ndim > 0:
        if is_symbolic(v): raise Unsupported("in-place symbolic update of native array")
        old = cur.copy()
        def un(o=cur, old=old): o[...] = old
        E.trail.append(Eff('call', cur, None, un))
        IOP = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Pow: operator.ipow, ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.Mod: operator.imod}
        put(IOP[type(n.op)](cur, v)); return None
    if isinstance(cur, set) and not is_symbolic(v):
        put(BIN[type(n.op)](cur, v)); return None
    put(binop(type(n.op), cur, v))
def s_if(n, fr):
    return exec_block(n.body if truth(ev(n.test, fr)) else n.orelse, fr)
def s_return(n, fr): return ('return', ev(n.value, fr) if n.value is not None else None)
def s_raise(n, fr):
    if n.exc is None:
        raise fr.vars.get('__exc__') or RuntimeError("re-raise")
    x = ev(n.exc, fr)
    if isinstance(x, type): x = x()
    raise x
def s_assert(n, fr):
    if not truth(ev(n.test, fr)):
        raise AssertionError(ev(n.msg, fr) if n.msg is not None and False else "assertion failed")
def s_try(n, fr):
    mark = len(E.trail)
    try:
        try:
            r = exec_block(n.body, fr)
        except Exception as ex:
            for h in n.handlers:
                if h.type is None: ok = True
                else:
                    T = ev(h.type, fr); ok = isinstance(ex, T)
                if ok:
                    if h.name: log_local(fr, h.name); fr.vars[h.name] = ex
                    log_local(fr, '__exc__'); fr.vars['__exc__'] = ex
                    r = exec_block(h.body, fr)
                    break
            else: raise
        else:
            if r is None: r = exec_block(n.orelse, fr)
    finally:
        if n.finalbody:
            r2 = exec_block(n.finalbody, fr)
            if r2 is not None: return r2
    return r
def s_while(n, fr):
    for it in range(200):
        if not truth(ev(n.test, fr)): return exec_block(n.orelse, fr)
        r = exec_block(n.body, fr)
        if r is not None:
            if r[0] == 'break': return None
            if r[0] == 'continue': continue
            return r
    raise Unsupported("while loop without a static bound")
def s_func(n, fr):
    a = n.args
    f = Func(n, fr.glob, fr, [ev(d, fr) for d in a.defaults], {x.arg: ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, n.name)
    if n.decorator_list: raise Unsupported("decorated local function")
    log_local(fr, n.name); fr.vars[n.name] = f
def s_import(n, fr):
    import importlib
    if isinstance(n, ast.ImportFrom):
        mod = importlib.import_module('.' * n.level + (n.module or ''), fr.glob.get('__package__'))
        for a in n.names:
            log_local(fr, a.asname or a.name)
            try: v = getattr(mod, a.name)
            except AttributeError: v = importlib.import_module(mod.__name__ + '.' + a.name)
            fr.vars[a.asname or a.name] = v
    else:
        for a in n.names:
            m = importlib.import_module(a.name)
            nm = a.asname or a.name.split('.')[0]
            log_local(fr, nm); fr.vars[nm] = m if a.asname else sys.modules[nm]
def s_global(n, fr): fr.gdecl |= set(n.names)
def s_nonlocal(n, fr): fr.nldecl |= set(n.names)
def s_del(n, fr):
    for t in n.targets:
        if isinstance(t, ast.Name): log_local(fr, t.id); fr.vars.pop(t.id, None)
        elif isinstance(t, ast.Subscript): delitem_any(ev(t.value, fr), ev(t.slice, fr))
        elif isinstance(t, ast.Attribute): o = ev(t.value, fr); log_attr(o, t.attr); delattr(o, t.attr)
def s_with(n, fr):
    cms = []
    for it in n.items:
        cm = ev(it.context_expr, fr)
        if is_symbolic(cm): raise Unsupported("with on symbolic")
        v = cm.__enter__(); cms.append(cm)
        if it.optional_vars is not None: assign(it.optional_vars, v, fr)
    try: r = exec_block(n.body, fr)
    except BaseException as ex:
        for cm in reversed(cms): cm.__exit__(type(ex), ex, None)
        raise
    for cm in reversed(cms): cm.__exit__(None, None, None)
    return r
def s_for(n, fr):
    it = ev(n.iter, fr)
    if isinstance(it, Poison): raise PoisonRead(it.loc)
    if isinstance(it, (list,)) : it = list(it)
    broke = False
    for p in seqs.pieces_of(it):
        if p[0] == 'c':
            assign(n.target, p[1], fr)
            r = exec_block(n.body, fr)
            if r is not None:
                if r[0] == 'break': broke = True; break
                if r[0] == 'continue': continue
                return r
        else:
            r = summarise(p[1], p[2], n, fr)
            if r is not None:
                if r[0] == 'break': broke = True; break
                return r
    if not broke: return exec_block(n.orelse, fr)
ST = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_ann, ast.AugAssign: s_aug, ast.If: s_if, ast.Return: s_return, ast.Raise: s_raise,
      ast.Assert: s_assert, ast.Try: s_try, ast.While: s_while, ast.FunctionDef: s_func, ast.Import: s_import, ast.ImportFrom: s_import, ast.Global: s_global,
      ast.Nonlocal: s_nonlocal, ast.Delete: s_del, ast.With: s_with, ast.For: s_for, ast.Pass: lambda n, fr: None,
      ast.Break: lambda n, fr: ('break',), ast.Continue: lambda n, fr: ('continue',)}

# ------------------------------------------------------------------ generic iterations
def generic_paths(cnt, body, what):
    """evaluate body(k) for an arbitrary 0 <= k < cnt on every path; no effects on older state allowed.
    returns (k, [(conds, value)]); a raising path forks the caller on the existence of such a k."""
    k = E.fresh('i', 'it'); n = zi(cnt)
    ser = next(_serial)
    names0 = dict(E.names)
    def once():
        E.pc += [k >= 0, k < n]
        mark = len(E.trail)
        try: v = ('ok', body(k))
        except Exception as ex: v = ('raise', ex)
        for e in E.trail[mark:]:
            if e.kind == 'call': raise Unsupported(f"effect inside {what}")
            if serial_of(e.obj) < ser and not (e.kind == 'local' and e.obj.name.endswith('<comp>')):
                raise Unsupported(f"effect on outer state inside {what}")
        return v
    outs = E.explore_local(once)
    fresh_check(names0, outs and [o[1][1] for o in outs], k)
    paths = [(c[2:], o) for c, o, _ in outs]
    handle_raises([(c, o[1]) for c, o in paths if o[0] == 'raise'], k, n)
    return k, [(c, o[1]) for c, o in paths if o[0] == 'ok']
def handle_raises(rs, k, n):
    for c, ex in rs:
        q = z3.Int(f"q!{k.decl().name()}")
        cc = z3.substitute(zb(And(*c)), (k, q))
        E.pc += [q >= 0, q < n, cc]
        try: dead = E.valid_quick(z3.BoolVal(False), 3.0)
        finally: del E.pc[-3:]
        if dead: continue
        if E.branch(z3.Exists([q], z3.And(q >= 0, q < n, cc))):
            raise ex
def fresh_check(names0, vals, k):
    """constants invented during the iteration other than k would need Skolemisation"""
    newn = []
    for h, c in E.names.items():
        c0 = names0.get(h, 0)
        for j in range(c0, c):
            nm = f"{h}!{j}"
            if nm != k.decl().name(): newn.append(nm)
    E._iter_fresh = set(newn)
def check_no_fresh(exprs):
    bad = getattr(E, '_iter_fresh', set())
    if not bad: return
    for e in exprs:
        if isinstance(e, bool) or not z3.is_expr(e): continue
        if engine.decls_of(e) & bad: raise Unsupported("iteration-local unknown escapes the loop")

class Loc:
    def __init__(s, kind, obj, key): s.kind, s.obj, s.key = kind, obj, key
    def id(s): return (s.kind, id(s.obj), s.key)
    def get(s):
        if s.kind == 'local': return s.obj.vars.get(s.key, MISSING)
        if s.kind == 'attr': return s.obj.__dict__.get(s.key, MISSING)
        if s.kind == 'item': return s.obj.get(s.key, MISSING)
        if s.kind == 'list': return list(s.obj)
        if s.kind == 'buf': return s.obj.fn
    def put(s, v):
        if s.kind == 'local':
            log_local(s.obj, s.key)
            if v is MISSING: s.obj.vars.pop(s.key, None)
            else: s.obj.vars[s.key] = v
        elif s.kind == 'attr': log_attr(s.obj, s.key); object.__setattr__(s.obj, s.key, v)
        elif s.kind == 'item':
            log_item(s.obj, s.key)
            if v is MISSING: s.obj.pop(s.key, None)
            else: s.obj[s.key] = v
        elif s.kind == 'list': log_list(s.obj); s.obj[:] = v
        elif s.kind == 'buf':
            g = getattr(v, 'region', None)
            E.trail.append(Eff('buf', s.obj, None, s.obj.fn, ('whole', None) if g is None else (g, None))); s.obj.fn = v; s.obj.memo = {}
    def name(s): return f"{s.kind}:{s.key if s.kind in ('local', 'attr', 'item') else ''}"

def summarise(cnt, fn, node, fr):
    """for target in <cnt elements fn(k)>: body   with symbolic cnt"""
    n = zi(cnt)
    if not E.branch(n > 0): return None
    modes = {}      # loc id -> [Loc, mode, havoc symbol, kind]
    k = E.fresh('i', 'it')
    ser = next(_serial)
    for attempt in range(40):
        names0 = dict(E.names); restart = peel = False
        poisoned = []
        def once():
            E.pc += [k >= 0, k < n]
            for loc, mode, h, kd in modes.values():
                if mode == 'poison': loc.put(Poison(loc.id()))
                elif mode == 'carry': loc.put(h)
                elif mode == 'list': loc.put([HavocSeg(h)])
                elif mode == 'fam': loc.put(Fam(kd.n, kd.keyfn, lambda t, h=h, kd=kd: (h.append(t), kd.valfn(t))[1], kd.solve, []))
                elif mode == 'buf': loc.put(h)
                elif mode == 'newdict': loc.put(HavocFam())
            mark = len(E.trail)
            try:
                assign(node.target, fn(k), fr)
                r = exec_block(node.body, fr)
                out = ('ok', r)
            except PoisonRead as pr:
                if pr.loc in modes: poisoned.append(pr.loc); return ('poison', None, None)
                raise
            except Exception as ex:
                out = ('raise', ex)
            effs = []
            for e in E.trail[mark:]:
                if e.kind == 'call': raise Unsupported("native effect inside a symbolic loop")
                if serial_of(e.obj) > ser: continue
                if e.kind == 'dict': raise Unsupported("dict bulk update inside a symbolic loop")
                effs.append(e)
            fin = {}
            for e in effs:
                if e.kind == 'item' and e.extra is not None and e.extra[0] == 'symkey':
                    fin.setdefault(('newdict', id(e.obj)), [e.obj, [], []])[1].append(e.key)
            newfk = {fk for l, v in fin.items() if l[0] == 'newdict' for fk in v[1]}
            for l, v in fin.items(): v[1] = [(v[0][fk].keyfn(0), v[0][fk].valfn(0)) for fk in v[1] if fk in v[0]]
            for e in effs:
                loc = Loc(e.kind, e.obj, e.key); lid = loc.id()
                if e.kind == 'item' and isinstance(e.key, FamKey) and e.key in newfk: continue
                if lid not in fin: fin[lid] = [loc, None, []]
                if e.kind == 'buf': fin[lid][2].append(e.extra)
                if e.extra is not None and e.kind == 'item': fin[lid][2].append(e.extra)
            for l, f in fin.items():
                if l[0] != 'newdict': f[1] = f[0].get()
            return out + (fin,)
        outs = E.explore_local(once)
        if poisoned:
            for lid in set(poisoned):
                loc = modes[lid][0]; cur = loc.get()
                modes[lid] = carry_mode(loc, cur)
            continue
        # new touched locations?
        for c, (tag, r, fin), _ in outs:
            for lid, (loc, v, ex) in fin.items():
                if lid not in modes:
                    restart = True
                    if lid[0] == 'newdict':
                        if attempt == 0 and False: pass
                        modes[lid] = [Loc('item', loc, FamKey()), 'newdict', None, None]; continue
                    if loc.kind == 'item' and not isinstance(loc.key, FamKey) and loc.get() is MISSING:
                        peel = True
                    if loc.kind == 'list': modes[lid] = [loc, 'list', E.fresh('i', 'hl'), None]
                    elif loc.kind == 'buf':
                        hn = f"HB!{len(modes)}!{next(_serial)}"
                        kd = loc.obj.kind
                        modes[lid] = [loc, 'buf', havoc_buf(hn, loc.obj), hn]
                    elif loc.kind == 'item' and isinstance(loc.key, FamKey): modes[lid] = [loc, 'fam', [], loc.get()]
                    else: modes[lid] = [loc, 'poison', None, None]
        if peel:        # the first iteration creates an entry the others find: run it on its own
            assign(node.target, fn(0), fr)
            r = exec_block(node.body, fr)
            if r is not None and r[0] != 'continue': return r
            return summarise(isub(as_int(n), 1), lambda j: fn(iadd(j, 1)), node, fr)
        # kind promotion of carried scalars
        for c, (tag, r, fin), _ in outs:
            if tag != 'ok': continue
            for lid, (loc, v, ex) in fin.items():
                m = modes.get(lid)
                if m and m[1] == 'carry' and isinstance(m[2], Sym) and is_scalar(v) and KORD[kind_of(v)] > KORD[m[2].kind]:
                    modes[lid] = [loc, 'carry', E.fresh_sym(kind_of(v), 'hc'), kind_of(v)]; restart = True
        if not restart: break
    else: raise Unsupported("loop summarisation did not stabilise")
    fresh_check(names0, None, k)
    paths = [(c[2:], o) for c, o, _ in outs]
    raises = [(c, o[1]) for c, o in paths if o[0] == 'raise']
    rets = [(c, o) for c, o in paths if o[0] == 'ok' and o[1] is not None and o[1][0] in ('return', 'break')]
    if rets:
        # first iteration that leaves the loop
        other_eff = any(o[2] for c, o in paths if not (o[0] == 'ok' and o[1] is not None and o[1][0] in ('return', 'break')) and any(l.name() not in temp_names(node) for l, _, _ in o[2].values()))
        if other_eff: raise Unsupported("early exit from a loop with effects")
        if len(rets) > 1: raise Unsupported("several early exits in a symbolic loop")
        c, o = rets[0]
        cc = zb(And(*c)); q = z3.Int(f"q!{k.decl().name()}")
        ex = z3.Exists([q], z3.And(q >= 0, q < n, z3.substitute(cc, (k, q))))
        if E.branch(ex):
            w = E.fresh('i', 'first')
            E.pc += [w >= 0, w < n, z3.substitute(cc, (k, w)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.Not(z3.substitute(cc, (k, q)))))]
            for lid, (loc, v, ex_) in o[2].items():
                if modes[lid][1] != 'poison': raise Unsupported("early exit with carried state")
                loc.put(seqs.subst_val(v, [(k, w)]))
            r = o[1]
            return (r[0],) + tuple(seqs.subst_val(x, [(k, w)]) for x in r[1:])
        paths = [p for p in paths if p[1] is not o]
    handle_raises(raises, k, n)
    paths = [(c, o) for c, o in paths if o[0] == 'ok']
    if not paths: raise Infeasible()
    apply_summary(cnt, n, k, modes, paths, ser)
    return None
def temp_names(node):
    return {f"local:{x.id}" for t in [node] for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

class HavocSeg(Seg):
    def __init__(s, ln): super().__init__(ln, None); s.fn = s._bad
    def _bad(s, k): raise Unsupported("read of a loop-carried list")
def havoc_buf(hn, buf):
    nd = len(buf.shape); kd = buf.kind
    if kd == 'O': raise Unsupported("loop-carried object array")
    I = [z3.IntSort()] * nd
    if kd == 'c':
        fr_ = z3.Function(hn + "re", *I, z3.RealSort()); fi_ = z3.Function(hn + "im", *I, z3.RealSort())
        return lambda idx: mk('c', fr_(*[zi(i) for i in idx]), fi_(*[zi(i) for i in idx]))
    f = z3.Function(hn, *I, {'b': z3.BoolSort(), 'i': z3.IntSort(), 'f': z3.RealSort()}[kd])
    return lambda idx: mk(kd, f(*[zi(i) for i in idx]))
def carry_mode(loc, cur):
    if cur is MISSING: raise NameError(f"variable {loc.key} referenced before assignment")
    if is_scalar(cur):
        kd = kind_of(cur)
        return [loc, 'carry', E.fresh_sym(kd, 'hc'), kd]
    raise Unsupported(f"loop-carried {type(cur).__name__} in {loc.name()}")

def mentions(v, sym_names):
    """does a value mention havoc symbols (names)"""
    if isinstance(v, Sym): return any(engine.decls_of(t) & sym_names for t in zterms(v))
    if isinstance(v, SArr):
        bs = [E.bound() for _ in v.shape_]
        try: x = v.at(*bs)
        finally:
            for _ in bs: E.unbound()
        return mentions(x, sym_names) or any(not isinstance(d, int) and engine.decls_of(d) & sym_names for d in v.shape_)
    if isinstance(v, (list, tuple)): return any(mentions(x, sym_names) for x in v)
    if isinstance(v, dict): return any(mentions(x, sym_names) for x in v.values())
    if isinstance(v, Seg):
        b = E.bound()
        try: return mentions(v.fn(b), sym_names)
        finally: E.unbound()
    return False

def family_values(v, k, n, ser):
    """value of iteration t, as storage that later statements may modify in place"""
    if isinstance(v, SArr):
        if serial_of(v.buf) <= ser and any(sp[0] == 'g' for sp in v.spec): return lambda t, v=v: seqs.subst_val(v, [(k, zi(as_int(t)))])     # read-only view (writes to it are not supported)
        if serial_of(v.buf) <= ser:      # a view of older storage stays one
            sub = lambda x, t: x if isinstance(x, (int, str)) else as_int(z3.simplify(z3.substitute(x, (k, zi(t)))))
            def view(t, v=v):
                r = SArr(v.buf, [tuple(sub(x, t) for x in sp) for sp in v.spec], [sub(x, t) for x in v.shape_]); return r
            return view
        bs = [E.bound() for _ in v.shape_]
        try: x = v.at(*bs); check_no_fresh(list(zterms(x)) if isinstance(x, Sym) else [])
        finally:
            for _ in bs: E.unbound()
        check_no_fresh([x for x in v.shape_ if not isinstance(x, int)])
        g = v.snap(); frozen = SArr(Buf(lambda ix: g(tuple(ix)), v.shape_, v.kind))
        buf = Buf(lambda ix: subst_val_(frozen, k, ix[0]).at(*ix[1:]), [n] + list(v.shape_), v.kind)
        meta = {q: w for q, w in v.meta.items() if q == 'nonneg'}
        def fresh(t):
            r = SArr(buf, [('f', as_int(t))] + [('a', i, 0, 1) for i in range(len(v.shape_))], [x if isinstance(x, int) else as_int(z3.simplify(z3.substitute(x, (k, zi(t))))) for x in v.shape_])
            r.meta.update(meta); return r
        return fresh
    if isinstance(v, (dict, list, SSet)): raise Unsupported("container stored in a dictionary by a symbolic loop")
    if isinstance(v, Sym): check_no_fresh(zterms(v))
    return lambda t: subst_val_(v, k, t)
class HavocFam(Fam):
    """entries inserted by earlier iterations: may not be looked at"""
    def __init__(s): s.writes = []
    def _bad(s, *a): raise Unsupported("loop looks at dictionary entries inserted by other iterations")
    n = property(_bad); keyfn = valfn = solve = property(lambda s: s._bad)
def apply_summary(cnt, n, k, modes, paths, ser):
    # 1. carried scalars: h_final = h + e(k)
    hv = {}
    for lid, (loc, mode, h, kd) in modes.items():
        if mode == 'carry':
            hv[lid] = (loc, h, kd, loc.get())
    hnames = set()
    for loc, h, kd, init in hv.values(): hnames |= {t.decl().name() for t in zterms(h)}
    bufnames = set()
    for lid, (loc, mode, h, kd) in modes.items():
        if mode == 'buf': bufnames |= {kd, kd + "re", kd + "im"}
    prefix = []     # substitutions h -> value at iteration k
    finals = {}
    for lid, (loc, h, kd, init) in hv.items():
        incs = []
        allbool = kd == 'b'
        for c, o in paths:
            v = o[2][lid][1] if lid in o[2] else h
            if allbool:
                incs.append((c, v)); continue
            d = arith('-', v, h)
            ts = [z3.simplify(t, som=True) for t in zterms(d)]
            d = mk(kind_of(d), *ts) if isinstance(d, Sym) else d
            incs.append((c, d))
        if allbool:
            # v == h or cond:  sticky flag
            setc, clrc = [], []
            for c, v in incs:
                vz = zb(to_bool(v))
                if vz.eq(h.e): continue
                s = z3.simplify(vz)
                if z3.is_true(s): setc.append(And(*c))
                elif z3.is_false(s): clrc.append(And(*c))
                else:
                    # h or x / h and x
                    t1 = z3.simplify(z3.substitute(s, (h.e, z3.BoolVal(True)))); t0 = z3.simplify(z3.substitute(s, (h.e, z3.BoolVal(False))))
                    if z3.is_true(t1): setc.append(And(*c, t0))
                    elif z3.is_false(t0): clrc.append(And(*c, Not(t1)))
                    else: raise Unsupported("boolean loop-carried dependency")
            if setc and clrc: raise Unsupported("boolean loop-carried dependency")
            cc = zb(Or(*(setc or clrc))) if (setc or clrc) else z3.BoolVal(False)
            if engine.decls_of(cc) & (hnames | bufnames): raise Unsupported("boolean loop-carried dependency (state)")
            def upto(m, cc=cc, init=init, st_=bool(setc)):
                q = z3.Int(f"q!{k.decl().name()}")
                ex = z3.Exists([q], z3.And(q >= 0, q < m, z3.substitute(cc, (k, q))))
                return mk('b', Or(zb(to_bool(init)), ex) if st_ else And(zb(to_bool(init)), z3.Not(ex)))
            prefix.append((h, upto)); finals[lid] = (loc, upto)
            continue
        inc = merge_paths(incs)
        if mentions(inc, hnames | bufnames): raise Unsupported(f"loop-carried dependency in {loc.name()}")
        check_no_fresh(zterms(inc) if isinstance(inc, Sym) else [])
        def upto(m, inc=inc, init=init, kd=kd):
            s = E.sum(as_int(m), lambda j: subst_val_(inc, k, j) if isinstance(inc, Sym) else inc, kind_of(inc) if KORD[kind_of(inc)] >= KORD[kd] else kd)
            return arith('+', init, s)
        prefix.append((h, upto)); finals[lid] = (loc, upto)
    def close(v):
        """replace carried symbols by their value at the start of iteration k"""
        if not prefix or not mentions(v, hnames): return v
        pairs = []
        for h, upto in prefix:
            u = upto(k)
            if h.kind == 'c':
                a, b = to_cplx(u); pairs += [(h.e, a), (h.im, b)]
            elif h.kind == 'b': pairs.append((h.e, zb(to_bool(u))))
            elif h.kind == 'i': pairs.append((h.e, to_int(u)))
            else: pairs.append((h.e, to_real(u)))
        return seqs.subst_val(v, pairs)
    def closec(c):
        c = And(*c)
        if isinstance(c, bool): return c
        r = close(Sym('b', c)); return to_bool(r)
    if prefix:
        paths = [([closec(c)], o) for c, o in paths]
    for c, o in paths:
        if engine.decls_of(zb(And(*c))) & bufnames: raise Unsupported("control flow depends on an array updated in the loop")
    todo = []
    # 2. overwritten locations
    for lid, (loc, mode, h, kd) in modes.items():
        if mode != 'poison': continue
        ws = [(c, o[2][lid][1]) for c, o in paths if lid in o[2] and not isinstance(o[2][lid][1], Poison)]
        if len(ws) == len(paths):
            v = close(merge_soft(ws))
            if v is NOVALUE: todo.append((loc, Poison(('merged', loc.key)))); continue
            if mentions(v, bufnames): todo.append((loc, Poison(('stale', loc.key)))); continue      # depends on the state at iteration start: unreadable afterwards
            if isinstance(v, Sym): check_no_fresh(zterms(v))
            todo.append((loc, seqs.subst_val(v, [(k, n - 1)])))
        elif ws:
            v = merge_soft(ws)
            cur = loc.get()
            if v is NOVALUE: todo.append((loc, Poison(('merged', loc.key)))); continue
            v = close(v)
            if mentions(v, bufnames): todo.append((loc, Poison(('stale', loc.key)))); continue
            cc = zb(Or(*[And(*c) for c, _ in ws]))
            m = arrays.new((as_int(n),), 'b', lambda ix, cc=cc: mk('b', subst_c(cc, k, ix[0])))
            idx = arrays.mask_to_idx(m); cntt = idx.shape_[0]
            last = as_int(idx.at(isub(cntt, 1)))
            vl = seqs.subst_val(v, [(k, zi(last))])
            if cur is MISSING: todo.append((loc, Poison(('maybe', loc.key)))) if not E.branch(zi(cntt) > 0) else todo.append((loc, vl))
            else: 
                if is_scalar(cur) and is_scalar(vl): todo.append((loc, ite(zi(cntt) > 0, vl, cur)))
                else: todo.append((loc, vl if E.branch(zi(cntt) > 0) else cur))
    # 2b. entries of a keyed family, each replaced by the iteration of its own index
    for lid, (loc, mode, h, f0) in modes.items():
        if mode != 'fam': continue
        same = lambda t: z3.is_int_value(z3.simplify(zi(t) - k)) and z3.simplify(zi(t) - k).as_long() == 0
        if not all(same(t) for t in h): raise Unsupported("loop reads dictionary entries that another iteration may replace")
        vs = []
        for c, o in paths:
            w = o[2][lid][1].writes if lid in o[2] else []
            if not all(same(j) for j, _ in w): raise Unsupported("loop replaces dictionary entries out of step")
            vs.append((c, w[-1][1] if w else f0.valfn(k)))
        v = close(merge_paths(vs))
        if mentions(v, bufnames): raise Unsupported("replaced dictionary entry depends on an array updated in the loop")
        todo.append((loc, Fam(f0.n, f0.keyfn, lambda t, v=v, f0=f0: subst_val_(v, k, t) if E.valid_quick(z3.And(zi(t) >= 0, zi(t) < n), 1.0) else seqs.merge_vals(And(ile(0, t), ilt(t, as_int(n))), subst_val_(v, k, t), f0.valfn(t)), f0.solve)))
    # 2c. dictionary entries created by the loop: one family per inserting statement
    owners = {}
    for lid, (loc, mode, h, kd) in modes.items():
        if mode != 'newdict': continue
        d = loc.obj; ent = [(c, o[2][lid][1] if lid in o[2] else []) for c, o in paths]
        if len({len(x) for _, x in ent}) != 1: raise Unsupported("dictionary grows by a varying number of entries per iteration")
        for i in range(len(ent[0][1])):
            key = close(merge_paths([(c, x[i][0]) for c, x in ent])); vs = [(c, x[i][1]) for c, x in ent]
            if mentions(key, bufnames): raise Unsupported("dictionary key depends on an array updated in the loop")
            if isinstance(key, Sym): check_no_fresh(zterms(key))
            for _, v in vs:
                if isinstance(v, SArr):
                    if len(vs) > 1 and serial_of(v.buf) <= ser: raise Unsupported("view stored in a dictionary on one of several paths")
                    if owners.setdefault(id(v.buf), (lid, i)) != (lid, i) and serial_of(v.buf) > ser: raise Unsupported("one array stored in several dictionary entries")
            v = close(merge_paths(vs))
            if mentions(v, bufnames): raise Unsupported("dictionary entry depends on an array updated in the loop")
            b = E.bound()
            try: kb = subst_val_(key, k, b); solve = key_solver(kb, b, as_int(n), None)
            finally: E.unbound()
            todo.append((Loc('item', d, FamKey()), Fam(as_int(n), lambda t, key=key: subst_val_(key, k, t), family_values(v, k, as_int(n), ser), solve)))
    # 3. lists
    for lid, (loc, mode, h, kd) in modes.items():
        if mode != 'list': continue
        base = loc.get()
        segs = []
        for c, o in paths:
            l = o[2][lid][1] if lid in o[2] else [HavocSeg(h)]
            if not l or not isinstance(l[0], HavocSeg): raise Unsupported("list not only appended to in a symbolic loop")
            segs.append((c, l[1:]))
        lens = {len(x) for _, x in segs}
        if any(seqs.has_seg(x) for _, x in segs):
            todo.append((loc, base + flatten_runs(n, k, [(c, x) for c, x in segs], close)))
        elif lens == {1}:
            v = close(merge_paths([(c, x[0]) for c, x in segs]))
            todo.append((loc, base + [Seg(as_int(n), lambda j, v=v: subst_val_(v, k, j))]))
        elif lens <= {0, 1}:
            kp = [(c, x[0]) for c, x in segs if x]
            cc = zb(Or(*[And(*c) for c, _ in kp]))
            m = arrays.new((as_int(n),), 'b', lambda ix, cc=cc: mk('b', subst_c(cc, k, ix[0])))
            idx = arrays.mask_to_idx(m); v = close(merge_paths(kp))
            todo.append((loc, base + [Seg(idx.shape_[0], lambda j, v=v, idx=idx: subst_val_(v, k, as_int(idx.at(j))))]))
        elif len(lens) == 1:
            L = lens.pop()
            if len(segs) > 1: vs = [close(merge_paths([(c, x[i]) for c, x in segs])) for i in range(L)]
            else: vs = [close(v) for v in segs[0][1]]
            def fnl(j, vs=vs, L=L):
                r = vs[-1]; q = idiv(j, L); m = imod(j, L)
                r = subst_val_(vs[-1], k, q)
                for i in range(L - 2, -1, -1): r = seqs.merge_vals(ieq(m, i), subst_val_(vs[i], k, q), r)
                return r
            todo.append((loc, base + [Seg(imul(as_int(n), L), fnl)]))
        else: raise Unsupported("list grows by a varying number of elements per iteration")
    # 4. buffers
    others = {}
    for lid, (loc, mode, h, hn) in modes.items():
        if mode != 'buf': continue
        ws = [(c, o[2][lid][2] if lid in o[2] else []) for c, o in paths]
        for nm_ in (hn, hn + "re", hn + "im"): others[nm_] = (loc.obj, loc.get(), h, ws)
    for lid, (loc, mode, h, hn) in modes.items():
        if mode != 'buf': continue
        todo.append((loc, buf_summary(cnt, n, k, loc.obj, loc.get(), h, hn, [(c, o[2][lid][1] if lid in o[2] else None, o[2][lid][2] if lid in o[2] else []) for c, o in paths], close, bufnames, others)))
    for lid, (loc, upto) in finals.items(): todo.append((loc, upto(n)))
    for loc, v in todo: loc.put(v)
NOVALUE = object()
def merge_soft(ws):
    try: return merge_paths(ws)
    except Unsupported: return NOVALUE
def flatten_runs(n, k, segs, close):
    raise Unsupported("appending runs of symbolic length in a symbolic loop")

def buf_summary(cnt, n, k, buf, orig, hfn, hn, writes, close, bufnames, others):
    """final contents of a buffer updated by every iteration"""
    nd = len(buf.shape); own = {hn, hn + "re", hn + "im"}
    bs = [E.bound() for _ in range(nd)]
    try:
        entries = []
        for c, finfn, ws in writes:
            if not ws: entries.append((c, False, None)); continue
            g = Or(*[w[0](tuple(bs)) if not (isinstance(w[0], str)) else True for w in ws])
            entries.append((c, g, finfn(tuple(bs))))
        guard = zb(Or(*[And(*c, g) for c, g, v in entries if v is not None]))
        guard = z3.simplify(to_bool(close(Sym('b', guard))) if not isinstance(guard, bool) else zb(guard))
        H = hfn(tuple(bs))
        vals = [(c, v if v is not None else H) for c, g, v in entries]
        val = close(merge_paths(vals))
        kd = buf.kind
        # value must depend on this buffer only at the same position, on no other updated buffer
        names = set()
        for t in zterms(val): names |= engine.decls_of(t)
        foreign = []        # positions of other updated arrays read by the iteration: fine when no earlier iteration wrote them
        if names & (bufnames - own):
            for a_ in engine.apps_of(list(zterms(val))):
                if a_.decl().name() in bufnames - own:
                    if any(engine.decls_of(x) & bufnames for x in a_.children()): raise Unsupported("array update depends on another array updated in the same loop (nested)")
                    if not any(o_[0] == others[a_.decl().name()] and all(x.eq(y) for x, y in zip(a_.children(), o_[1])) for o_ in foreign): foreign.append((others[a_.decl().name()], list(a_.children())))
        if engine.decls_of(guard) & bufnames: raise Unsupported("array update guard depends on updated arrays")
        ph = [z3.Const(f"hole!{i}", t.sort()) for i, t in enumerate(zterms(H))] if isinstance(H, Sym) else []
        hp = list(zip(zterms(H), ph))
        val_h = seqs.subst_val(val, hp) if isinstance(val, Sym) else val
        names = set()
        for t in zterms(val_h): names |= engine.decls_of(t)
        reads = []
        if names & own:
            for a_ in engine.apps_of(list(zterms(val_h))):
                if a_.decl().name() in own and not any(all(x.eq(y) for x, y in zip(a_.children(), r)) for r in reads): reads.append(list(a_.children()))
            if any(engine.decls_of(x) & own for r in reads for x in r): raise Unsupported("array update reads other positions of the updated array (nested)")
        uses_hole = any(any(engine.contains(t, p) for p in ph) for t in zterms(val_h))
        check_no_fresh(list(zterms(val_h)) + [guard])
        bsl = list(bs)
    finally:
        for _ in bs: E.unbound()
    # can two different iterations write the same position?
    k2 = E.fresh('i', 'it2')
    fb = [E.fresh('i', 'pos') for _ in range(nd)]
    g1 = z3.substitute(guard, *[(b, f) for b, f in zip(bsl, fb)]); g2 = z3.substitute(g1, (k, k2))
    E.pc += [k >= 0, k < k2, k2 < n]
    try: disjoint = E._discharge(z3.Not(z3.And(g1, g2)), 3.0, 1)[0] == "proved"
    finally: del E.pc[-3:]
    for rd in reads:
        # a position read by iteration k must not be written by any other iteration
        rr = [z3.substitute(x, *[(b, f) for b, f in zip(bsl, fb)]) for x in rd]
        gw = z3.substitute(guard, *[(b, x) for b, x in zip(bsl, rr)], (k, k2))
        E.pc += [k >= 0, k < n, k2 >= 0, k2 < n, k2 != k, g1]
        try: ok = E._discharge(z3.Not(gw), 3.0, 1)[0] == "proved"
        finally: del E.pc[-6:]
        if not ok: raise Unsupported("array update reads positions updated by another iteration")
    for (obuf, oorig, ohfn, ows), rd in foreign:
        rr = [z3.substitute(x, *[(b, f) for b, f in zip(bsl, fb)]) for x in rd]
        pp = [E.fresh('i', 'gp') for _ in rr]      # placeholders: the read position is the reader's, the guard the writer's
        gw = zb(Or(*[And(*c, Or(*[w[0](tuple(pp)) if not isinstance(w[0], str) else True for w in ws])) for c, ws in ows if ws]))
        gw = z3.substitute(z3.substitute(zb(to_bool(close(Sym('b', gw)))), (k, k2)), *zip(pp, rr))
        if engine.decls_of(gw) & bufnames: raise Unsupported("array update guard depends on updated arrays")
        E.pc += [k >= 0, k < n, k2 >= 0, k2 < k, g1]
        try: ok = E._discharge(z3.Not(gw), 3.0, 1)[0] == "proved"
        finally: del E.pc[-5:]
        if not ok: raise Unsupported("array update depends on another array updated in the same loop")
    if reads and not disjoint: raise Unsupported("overlapping updates reading other positions")
    def at(expr_val, idx, kk):
        pairs = [(b, zi(i)) for b, i in zip(bsl, idx)] + ([(k, zi(kk))] if kk is not None else [])
        r = seqs.subst_val(expr_val, pairs)
        if reads and isinstance(r, Sym):
            sub = []
            for rd in reads:
                a = [z3.substitute(x, *pairs) for x in rd]
                hv, ov = hfn(tuple(a)), cast(orig(tuple(as_int(z3.simplify(x)) for x in a)), kd)
                sub += list(zip(zterms(hv), zterms(ov)))
            r = seqs.subst_val(r, sub)
        if foreign and isinstance(r, Sym):
            sub = []
            for (obuf, oorig, ohfn, ows), rd in foreign:
                a = [z3.substitute(x, *pairs) for x in rd]
                hv, ov = ohfn(tuple(a)), cast(oorig(tuple(as_int(z3.simplify(x)) for x in a)), obuf.kind)
                sub += list(zip(zterms(hv), zterms(ov)))
            r = seqs.subst_val(r, sub)
        return r
    if disjoint or not uses_hole:
        sol = solve_for(guard, k, bsl)
        if disjoint and sol is not None:
            def fnew(idx):
                kk = as_int(z3.substitute(zi(sol), *[(b, zi(i)) for b, i in zip(bsl, idx)]))
                c = And(ile(0, kk), ilt(kk, as_int(n)), z3.simplify(z3.substitute(guard, *[(b, zi(i)) for b, i in zip(bsl, idx)], (k, zi(kk)))))
                if z_false(c): return orig(idx)
                o = orig(idx)
                v = at(val_h, idx, kk)
                if uses_hole: v = seqs.subst_val(v, list(zip(ph, zterms(cast(o, kd)))))
                if z_true(c): return v
                return ite(c, v, o)
            def region(idx):
                sub = [(b, zi(i)) for b, i in zip(bsl, idx)]
                kk = z3.substitute(zi(sol), *sub)
                return And(ile(0, as_int(kk)), ilt(as_int(kk), as_int(n)), z3.simplify(z3.substitute(guard, *sub, (k, kk))))
            fnew.region = region
            return fnew
        # last writer as a definitional function
        nm_key, ps, pl, bl, sk = E.skeleton([n, guard], [k] + bsl)
        f = z3.Function(f"lastw_{nm_key}", *[p.sort() for p in ps], *[z3.IntSort()] * nd, z3.IntSort())
        qs = [z3.Const(f"q!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]
        qb = [z3.Int(f"q!b{j}") for j in range(nd)]; qj = z3.Int("q!j")
        sub = list(zip(pl, qs)) + list(zip(bl[1:], qb))
        N = z3.substitute(sk[0], *sub); G = lambda t: z3.substitute(sk[1], *sub, (bl[0], t))
        ft = f(*qs, *qb)
        E.fact(z3.ForAll(qs + qb, z3.Or(ft == -1, z3.And(ft >= 0, ft < N, G(ft))), patterns=[ft]), key=f"lw1{nm_key}")
        E.fact(z3.ForAll(qs + qb + [qj], z3.Implies(z3.And(qj >= 0, qj < N, G(qj)), qj <= ft)), key=f"lw2{nm_key}")
        def fnew(idx):
            kk = f(*ps, *[zi(i) for i in idx]); o = orig(idx)
            v = at(val_h, idx, kk)
            if uses_hole: v = seqs.subst_val(v, list(zip(ph, zterms(cast(o, kd)))))
            return ite(kk >= 0, v, o)
        fnew.region = lambda idx: f(*ps, *[zi(i) for i in idx]) >= 0
        return fnew
    # accumulation: value = hole + increment
    hole = mk(kd, *ph) if kd != 'b' else Sym('b', ph[0])
    if kd in 'ifc':
        inc = arith('-', val_h, hole)
        ts = [z3.simplify(t, som=True) for t in zterms(inc)]
        if any(any(engine.contains(t, p) for p in ph) for t in ts): raise Unsupported("overlapping array updates that are not sums")
        inc = mk(kind_of(inc), *ts) if isinstance(inc, Sym) else inc
        def fnew(idx):
            def body(j):
                g = z3.substitute(guard, *[(b, zi(i)) for b, i in zip(bsl, idx)], (k, zi(as_int(j))))
                return ite(z3.simplify(g), at(inc, idx, as_int(j)), {'i': 0, 'f': 0.0, 'c': 0.0}[kd])
            return arith('+', orig(idx), E.sum(as_int(n), body, kd))
        return fnew
    raise Unsupported("overlapping boolean array updates")
def solve_for(guard, k, bs):
    """k as a function of the written position, from an equality conjunct of the guard"""
    if z3.is_or(guard):
        sols = [solve_for(c, k, bs) for c in guard.children()]
        if sols and all(x is not None for x in sols) and all(x.eq(sols[0]) for x in sols): return sols[0]
        return None
    cs = guard.children() if z3.is_and(guard) else [guard]
    for c in cs:
        if z3.is_or(c) or z3.is_and(c):
            r = solve_for(c, k, bs)
            if r is not None: return r
            continue
        if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
            d = z3.simplify(c.arg(0) - c.arg(1))
            e1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - z3.substitute(d, (k, z3.IntVal(0))))
            if z3.is_int_value(e1) and e1.as_long() in (1, -1):
                d0 = z3.substitute(d, (k, z3.IntVal(0)))
                # verify linearity
                chk = z3.simplify(d - (e1 * k + d0), som=True)
                if z3.is_int_value(chk) and chk.as_long() == 0:
                    return z3.simplify(-d0 if e1.as_long() == 1 else d0)
            # b == emb(params, k)
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_app(b) and b.decl().name().startswith('emb_') and b.num_args() and b.children()[-1].eq(k) and not engine.contains(a, k):
                    key = b.decl().name()[4:]
                    rk = z3.Function(f"rank_{key}", *[x.sort() for x in b.children()[:-1]], z3.IntSort(), z3.IntSort())
                    return rk(*b.children()[:-1], a)
    return None
