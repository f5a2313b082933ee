"""Symbolic scalars, path state, opaque (uninterpreted) operators and the proof engine state.

Scalars are Python numbers/bools (concrete) or ``Sym`` (kind b/i/f/c wrapping z3 terms).
Reals model floats (see DESIGN.md, trusted base); ints are mathematical.
"""
import itertools, math, numbers, hashlib, time
from fractions import Fraction
import numpy as np
import z3

# --------------------------------------------------------------------------- control exceptions
class DVBase(BaseException):
    """Never caught by interpreted ``except`` clauses."""
class Unsupported(DVBase):
    def __init__(self, msg, node=None):
        super().__init__(msg); self.msg = msg
class Infeasible(DVBase):
    pass
class ProofFail(DVBase):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}"); self.name = name; self.detail = detail

# --------------------------------------------------------------------------- z3 helpers
_real_cache = {}
def rv(x):
    """Python number -> z3 Real numeral (floats by their shortest decimal repr)."""
    if isinstance(x, (bool, np.bool_)): return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)): return z3.RealVal(int(x))
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    x = float(x)
    r = _real_cache.get(x)
    if r is None:
        if math.isnan(x): return z3.Real("NaN_")     # an unknown real: only stored, never relied upon
        if math.isinf(x):                            # a number above every finite double used in a harness (> 1e300)
            return z3.Real("Inf_") if x > 0 else -z3.Real("Inf_")
        r = z3.RealVal(str(Fraction(repr(x))))
        _real_cache[x] = r
    return r

def is_num(e): return z3.is_int_value(e) or z3.is_rational_value(e)
def z_true(e): return e is True or (z3.is_expr(e) and z3.is_true(e))
def z_false(e): return e is False or (z3.is_expr(e) and z3.is_false(e))
def zb(c): return z3.BoolVal(c) if isinstance(c, (bool, np.bool_)) else c
def And(*cs):
    out = []
    for c in cs:
        if z_true(c): continue
        if z_false(c): return False
        out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def Or(*cs):
    out = []
    for c in cs:
        if z_false(c): continue
        if z_true(c): return True
        out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def Not(c):
    if z_true(c): return False
    if z_false(c): return True
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)
def Implies(a, b): return Or(Not(a), b)

def as_int(e):
    """raw index: python int when numeral."""
    if isinstance(e, (bool, np.bool_)): return int(e)
    if isinstance(e, (int, np.integer)): return int(e)
    if isinstance(e, Sym):
        if e.kind == 'i': e = e.e
        elif e.kind == 'b': e = z3.If(e.e, z3.IntVal(1), z3.IntVal(0))
        else: raise Unsupported("non-integer index")
    if isinstance(e, float): raise Unsupported("float index")
    if z3.is_int_value(e): return e.as_long()
    s = e
    if z3.is_app(e) and e.num_args() and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        s = z3.simplify(e)
        if z3.is_int_value(s): return s.as_long()
    return s
def zi(e): return z3.IntVal(e) if isinstance(e, int) else e
def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return as_int(zi(a) + zi(b))
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return as_int(zi(a) - zi(b))
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(b, int) and b == 1: return a
    if isinstance(a, int) and a == 1: return b
    return as_int(zi(a) * zi(b))
def idiv(a, b):
    """floor division, b a positive literal or assumed positive"""
    if isinstance(a, int) and isinstance(b, int): return a // b
    if isinstance(b, int) and b == 1: return a
    if isinstance(b, int):
        if b > 0: return as_int(zi(a) / zi(b))
        return as_int((-zi(a)) / zi(-b))
    # python floor semantics for symbolic divisor
    return as_int(z3.If(zi(b) > 0, zi(a) / zi(b), (-zi(a)) / (-zi(b))))
def imod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a % b
    if isinstance(b, int) and b > 0: return as_int(zi(a) % zi(b))
    return isub(a, imul(b, idiv(a, b)))
def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return True
    s = z3.simplify(zi(a) == zi(b))
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return zi(a) == zi(b)
def ile(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return zi(a) <= zi(b)
def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return zi(a) < zi(b)
def imax(a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    return as_int(z3.If(zi(a) >= zi(b), zi(a), zi(b)))
def imin(a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    return as_int(z3.If(zi(a) <= zi(b), zi(a), zi(b)))
def iite(c, a, b):
    if z_true(c): return a
    if z_false(c): return b
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    return z3.If(c, zi(a), zi(b))

# --------------------------------------------------------------------------- Sym
class Sym:
    """kind: 'b' Bool, 'i' Int, 'f' Real, 'c' complex (pair of Reals)."""
    __slots__ = ("kind", "e", "im")
    __array_ufunc__ = None
    __hash__ = None
    def __init__(self, kind, e, im=None):
        self.kind = kind; self.e = e; self.im = im
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self):
        return f"Sym<{self.kind}:{str(self.e)[:120]}{'' if self.im is None else ' + i*' + str(self.im)[:80]}>"
    # attribute surface used by code
    @property
    def real(self): return re_(self)
    @property
    def imag(self): return im_(self)
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return KDT[self.kind]
    def conj(self): return conj(self)
    def conjugate(self): return conj(self)
    def item(self): return self
    def copy(self): return self
    def astype(self, t, copy=True): return cast(self, kind_of_type(t))
    def squeeze(self): return self
    def is_integer(self):
        from . import core
        return mk('b', z3.IsInt(to_real(self)))
    def __bool__(self): return ENG.truth(self)
    def __index__(self):
        v = as_int(self)
        if isinstance(v, int): return v
        return ENG.concretize(self)
    def __add__(s, o): return arith('+', s, o)
    def __radd__(s, o): return arith('+', o, s)
    def __sub__(s, o): return arith('-', s, o)
    def __rsub__(s, o): return arith('-', o, s)
    def __mul__(s, o): return arith('*', s, o)
    def __rmul__(s, o): return arith('*', o, s)
    def __truediv__(s, o): return arith('/', s, o)
    def __rtruediv__(s, o): return arith('/', o, s)
    def __floordiv__(s, o): return arith('//', s, o)
    def __rfloordiv__(s, o): return arith('//', o, s)
    def __mod__(s, o): return arith('%', s, o)
    def __rmod__(s, o): return arith('%', o, s)
    def __pow__(s, o): return arith('**', s, o)
    def __rpow__(s, o): return arith('**', o, s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return absv(s)
    def __invert__(s): return invert(s)
    def __and__(s, o): return bitop('&', s, o)
    def __rand__(s, o): return bitop('&', o, s)
    def __or__(s, o): return bitop('|', s, o)
    def __ror__(s, o): return bitop('|', o, s)
    def __xor__(s, o): return bitop('^', s, o)
    def __eq__(s, o): return cmp('==', s, o)
    def __ne__(s, o): return cmp('!=', s, o)
    def __lt__(s, o): return cmp('<', s, o)
    def __le__(s, o): return cmp('<=', s, o)
    def __gt__(s, o): return cmp('>', s, o)
    def __ge__(s, o): return cmp('>=', s, o)

KDT = {'b': np.dtype(bool), 'i': np.dtype(np.int64), 'f': np.dtype(float), 'c': np.dtype(complex), 'O': np.dtype(object), 'U': np.dtype('U64')}
KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
def kind_of_type(t):
    if isinstance(t, Sym): return t.kind
    dt = np.dtype(t)
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c', 'O': 'O', 'U': 'U', 'S': 'U'}[dt.kind]
def kind_of(x):
    if isinstance(x, Sym): return x.kind
    if isinstance(x, (bool, np.bool_)): return 'b'
    if isinstance(x, (int, np.integer)): return 'i'
    if isinstance(x, (float, np.floating, Fraction)): return 'f'
    if isinstance(x, (complex, np.complexfloating)): return 'c'
    return 'O'
def is_scalar(x): return isinstance(x, (Sym, numbers.Number, np.generic, Fraction)) and not isinstance(x, (np.str_, np.bytes_))
def mk(kind, e, im=None):
    """build a Sym, folding numerals back to python values"""
    if kind == 'b':
        if isinstance(e, (bool, np.bool_)): return bool(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return Sym('b', e)
    if kind == 'i':
        if isinstance(e, (int, np.integer)): return int(e)
        if z3.is_int_value(e): return e.as_long()
        return Sym('i', e)
    if kind == 'f':
        if not z3.is_expr(e): return e
        return Sym('f', e)
    return Sym('c', e if z3.is_expr(e) else rv(e), im if z3.is_expr(im) else rv(im))
def to_bool(x):
    if isinstance(x, Sym):
        if x.kind == 'b': return x.e
        if x.kind == 'c': return Or(x.e != 0, x.im != 0)
        return x.e != 0
    return bool(x)
def to_int(x):
    if isinstance(x, Sym):
        if x.kind == 'i': return x.e
        if x.kind == 'b': return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        if x.kind == 'f': return trunc_expr(x.e)
        return trunc_expr(x.e)
    return z3.IntVal(int(x))
def to_real(x):
    if isinstance(x, Sym):
        if x.kind == 'f': return x.e
        if x.kind == 'i': return z3.ToReal(x.e)
        if x.kind == 'b': return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
        return x.e
    if isinstance(x, (complex, np.complexfloating)): return rv(x.real)
    return rv(x)
def to_cplx(x):
    if isinstance(x, Sym):
        if x.kind == 'c': return x.e, x.im
        return to_real(x), z3.RealVal(0)
    if isinstance(x, (complex, np.complexfloating)): return rv(x.real), rv(x.imag)
    return rv(x), z3.RealVal(0)
def trunc_expr(e):
    """C-style truncation of a Real term to Int"""
    f = floor_expr(e)
    if z3.is_to_real(z3.simplify(e)) or z3.is_int_value(f): return f
    s = z3.simplify(e)
    return z3.If(s >= 0, f, -floor_expr(-s))
def _int_form(s):
    """If s is ToReal-linear with integer coefficients return the Int term else None"""
    k = s.decl().kind() if z3.is_app(s) else None
    if z3.is_rational_value(s):
        return z3.IntVal(s.numerator_as_long()) if s.denominator_as_long() == 1 else None
    if k == z3.Z3_OP_TO_REAL: return s.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
        parts = [_int_form(a) for a in s.children()]
        if any(p is None for p in parts): return None
        r = parts[0]
        for p in parts[1:]:
            r = r + p if k == z3.Z3_OP_ADD else (r * p if k == z3.Z3_OP_MUL else r - p)
        return r
    if k == z3.Z3_OP_UMINUS:
        p = _int_form(s.arg(0)); return None if p is None else -p
    if k == z3.Z3_OP_ITE:
        a, b = _int_form(s.arg(1)), _int_form(s.arg(2))
        return None if a is None or b is None else z3.If(s.arg(0), a, b)
    return None
def floor_expr(e):
    s = z3.simplify(e)
    p = _int_form(s)
    if p is not None: return z3.simplify(p)
    # linear with rational coefficients: floor((int form)/d)
    d = 1
    def coefs(t, acc):
        if z3.is_rational_value(t): acc.append(t.denominator_as_long())
        else:
            for c in t.children(): coefs(c, acc)
    k = s.decl().kind() if z3.is_app(s) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        acc = []; coefs(s, acc)
        for a in acc: d = d * a // math.gcd(d, a)
        if 1 < d < 10 ** 15:
            p = _int_form(z3.simplify(s * d))
            if p is not None: return z3.simplify(p / z3.IntVal(d))
    return ENG.floor_var(s)

def cast(x, kind):
    k = kind_of(x)
    if kind in ('O', 'U') or k == kind or k == 'O': return x
    if kind == 'b': return mk('b', to_bool(x))
    if not isinstance(x, Sym):
        if kind == 'i': return int(x.real) if isinstance(x, complex) else int(x)
        if kind == 'f': return float(x.real) if k == 'c' else float(x)
        if kind == 'c': return complex(x)
    if kind == 'i': return mk('i', z3.simplify(to_int(x)))
    if kind == 'f': return mk('f', to_real(x))
    return mk('c', *to_cplx(x))

FP = {"mode": None}   # floating rounding mode hook (codec proofs)

def _c(x, y):
    return max(KORD[kind_of(x)], KORD[kind_of(y)])
def both_concrete(x, y): return not isinstance(x, Sym) and not isinstance(y, Sym)

def arith(op, a, b):
    from . import arrays
    if isinstance(a, (arrays.SArr, np.ndarray)) or isinstance(b, (arrays.SArr, np.ndarray)):
        return arrays.elementwise(lambda x, y: arith(op, x, y), [a, b])
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    if both_concrete(a, b):
        return _native(op, a, b)
    ka, kb = kind_of(a), kind_of(b)
    k = max(KORD[ka], KORD[kb])
    if op in '+-*' and k == 0:
        if op == '+': return bitop('|', a, b)
        if op == '*': return bitop('&', a, b)
        raise Unsupported("bool -")
    if op == '+':
        if k == 1: return mk('i', as_int(to_int(a) + to_int(b)))
        if k == 3:
            (ar, ai), (br, bi) = to_cplx(a), to_cplx(b); return mk('c', radd(ar, br), radd(ai, bi))
        return fpround('+', a, b, mk('f', radd(to_real(a), to_real(b))))
    if op == '-':
        if k == 1: return mk('i', as_int(to_int(a) - to_int(b)))
        if k == 3:
            (ar, ai), (br, bi) = to_cplx(a), to_cplx(b); return mk('c', rsub(ar, br), rsub(ai, bi))
        return fpround('-', a, b, mk('f', rsub(to_real(a), to_real(b))))
    if op == '*':
        if k == 1: return mk('i', as_int(to_int(a) * to_int(b)))
        if k == 3:
            (ar, ai), (br, bi) = to_cplx(a), to_cplx(b)
            return mk('c', rsub(rmul(ar, br), rmul(ai, bi)), radd(rmul(ar, bi), rmul(ai, br)))
        return fpround('*', a, b, mk('f', rmul(to_real(a), to_real(b))))
    if op == '/':
        if k == 3:
            (ar, ai), (br, bi) = to_cplx(a), to_cplx(b)
            if kb != 'c':
                ENG.note_div(br)
                return mk('c', rdiv(ar, br), rdiv(ai, br))
            d = radd(rmul(br, br), rmul(bi, bi))
            ENG.note_div(d)
            return mk('c', rdiv(radd(rmul(ar, br), rmul(ai, bi)), d), rdiv(rsub(rmul(ai, br), rmul(ar, bi)), d))
        ENG.note_div(to_real(b))
        return fpround('/', a, b, mk('f', rdiv(to_real(a), to_real(b))))
    if op == '//':
        if k <= 1: return mk('i', idiv(as_int(to_int(a)), as_int(to_int(b))))
        if k == 2: return mk('f', z3.ToReal(floor_expr(rdiv(to_real(a), to_real(b)))))
    if op == '%':
        if k <= 1: return mk('i', imod(as_int(to_int(a)), as_int(to_int(b))))
        if k == 2:
            q = z3.ToReal(floor_expr(rdiv(to_real(a), to_real(b))))
            return mk('f', rsub(to_real(a), rmul(to_real(b), q)))
    if op == '**':
        return power(a, b)
    raise Unsupported(f"arith {op} on {ka},{kb}")

def radd(x, y):
    if is_num(x) and is_num(y): return z3.simplify(x + y)
    if is_num(x) and x.numerator_as_long() == 0: return y
    if is_num(y) and y.numerator_as_long() == 0: return x
    return x + y
def rsub(x, y):
    if is_num(x) and is_num(y): return z3.simplify(x - y)
    if is_num(y) and y.numerator_as_long() == 0: return x
    if is_num(x) and x.numerator_as_long() == 0: return -y
    return x - y
def _isone(x): return is_num(x) and x.numerator_as_long() == 1 and x.denominator_as_long() == 1
def rmul(x, y):
    if is_num(x) and is_num(y): return z3.simplify(x * y)
    if is_num(x) and x.numerator_as_long() == 0: return x
    if is_num(y) and y.numerator_as_long() == 0: return y
    if _isone(x): return y
    if _isone(y): return x
    return x * y
def rdiv(x, y):
    if is_num(y):
        if _isone(y): return x
        if is_num(x) and y.numerator_as_long() != 0: return z3.simplify(x / y)
    return x / y
def fpround(op, a, b, r):
    if FP["mode"] is None or not isinstance(r, Sym): return r
    return FP["mode"](op, a, b, r)

def _native(op, a, b):
    import operator as o
    return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow}[op](a, b)

def power(a, b):
    if isinstance(b, Sym):
        # e.g. 10**sym : opaque
        return mk('f', ENG.ufun("pow", [to_real(a), to_real(b)]))
    if isinstance(b, (float, np.floating)) and float(b).is_integer():
        bi = int(b); asf = True
    elif isinstance(b, (int, np.integer)):
        bi = int(b); asf = False
    else:
        if float(b) == 0.5: return sqrt(a)
        if float(b) == -0.5: return arith('/', 1.0, sqrt(a))
        if float(b) == 1.5: return arith('*', a, sqrt(a))
        return mk('f', ENG.ufun("pow", [to_real(a), rv(b)]))
    if asf and kind_of(a) in 'bi': a = cast(a, 'f')
    if bi == 0: return 1.0 if asf else 1
    r = a
    for _ in range(abs(bi) - 1): r = arith('*', r, a)
    if bi < 0: r = arith('/', 1.0, r)
    return r

def neg(a):
    from . import arrays
    if isinstance(a, arrays.SArr): return arrays.elementwise(neg, [a])
    if not isinstance(a, Sym): return -a
    if a.kind == 'i': return mk('i', as_int(-a.e))
    if a.kind == 'f': return mk('f', -a.e)
    if a.kind == 'c': return mk('c', -a.e, -a.im)
    raise Unsupported("neg bool")
def conj(a):
    if not isinstance(a, Sym): return np.conj(a)
    if a.kind == 'c': return mk('c', a.e, z3.simplify(-a.im))
    return a
def re_(a):
    if not isinstance(a, Sym): return a.real if hasattr(a, 'real') else a
    return mk('f', a.e) if a.kind == 'c' else a
def im_(a):
    if not isinstance(a, Sym): return a.imag
    return mk('f', a.im) if a.kind == 'c' else (0.0 if a.kind == 'f' else 0)
def sqrt(a):
    k = kind_of(a)
    if not isinstance(a, Sym): return np.sqrt(a)
    if k == 'c':
        s = mk('c', ENG.ufun("csqrt_re", [a.e, a.im]), ENG.ufun("csqrt_im", [a.e, a.im]))
        # principal root: s*s = a, re(s) >= 0
        ENG.fact(z3.And(s.e * s.e - s.im * s.im == a.e, 2 * s.e * s.im == a.im, s.e >= 0))
        return s
    x = z3.simplify(to_real(a))
    if is_num(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator: return mk('f', rv(Fraction(n, d)))
    r = ENG.ufun("sqrt", [x])
    ENG.term_axiom("sqrt", r, [x], lambda r, x: z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return mk('f', r)
def absv(a):
    from . import arrays
    if isinstance(a, arrays.SArr): return arrays.elementwise(absv, [a])
    if not isinstance(a, Sym): return abs(a)
    if a.kind == 'i': return mk('i', z3.If(a.e >= 0, a.e, -a.e))
    if a.kind == 'f': return mk('f', z3.If(a.e >= 0, a.e, -a.e))
    if a.kind == 'c': return sqrt(mk('f', radd(rmul(a.e, a.e), rmul(a.im, a.im))))
    return a
def ufun1(name, axioms=None):
    def f(a):
        if not isinstance(a, Sym): return getattr(np, name)(a)
        x = z3.simplify(to_real(a))
        r = ENG.ufun(name, [x])
        if axioms is not None: ENG.term_axiom(name, r, [x], axioms)
        return mk('f', r)
    return f
log = ufun1("log")
sinh = ufun1("sinh")
cosh = ufun1("cosh", lambda r, x: r >= 1)
tanh = ufun1("tanh", lambda r, x: z3.And(r < 1, r > -1))
sin = ufun1("sin", lambda r, x: z3.And(r <= 1, r >= -1))
cos = ufun1("cos", lambda r, x: z3.And(r <= 1, r >= -1))
_exp = ufun1("exp", lambda r, x: r > 0)
def exp(a):
    if isinstance(a, Sym) and a.kind == 'c':
        mag = _exp(mk('f', a.e)) if not (is_num(z3.simplify(a.e)) and z3.simplify(a.e).numerator_as_long() == 0) else 1.0
        th = mk('f', a.im)
        c, s = cos(th), sin(th)
        x = z3.simplify(a.im)
        if isinstance(c, Sym) and isinstance(s, Sym):
            ENG.term_axiom("cis", c.e, [x], lambda r, x: ENG.ufun("cos", [x]) * ENG.ufun("cos", [x]) + ENG.ufun("sin", [x]) * ENG.ufun("sin", [x]) == 1)
        return arith('*', mag, mk('c', to_real(c), to_real(s)))
    return _exp(a)
def floor(a):
    if not isinstance(a, Sym): return np.floor(a)
    if a.kind in 'bi': return cast(a, 'f')
    return mk('f', z3.ToReal(floor_expr(a.e)))
def ceil(a):
    if not isinstance(a, Sym): return np.ceil(a)
    return neg(floor(neg(cast(a, 'f'))))
def rint(a):
    if not isinstance(a, Sym): return np.rint(a)
    if a.kind in 'bi': return cast(a, 'f')
    x = z3.simplify(a.e)
    f = floor_expr(x + rv(0.5))
    half = z3.And(z3.ToReal(f) == x + rv(0.5), f % 2 != 0)
    return mk('f', z3.ToReal(z3.If(half, f - 1, f)))

def invert(a):
    from . import arrays
    if isinstance(a, arrays.SArr): return arrays.elementwise(invert, [a])
    if not isinstance(a, Sym): return (not a) if isinstance(a, (bool, np.bool_)) else ~a
    if a.kind == 'b': return mk('b', Not(a.e))
    if a.kind == 'i': return mk('i', -a.e - 1)
    raise Unsupported("invert")
def bitop(op, a, b):
    from . import arrays
    if isinstance(a, (arrays.SArr, np.ndarray)) or isinstance(b, (arrays.SArr, np.ndarray)):
        return arrays.elementwise(lambda x, y: bitop(op, x, y), [a, b])
    if both_concrete(a, b):
        import operator as o
        return {'&': o.and_, '|': o.or_, '^': o.xor}[op](a, b)
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        x, y = to_bool(a), to_bool(b)
        if op == '&': return mk('b', And(x, y))
        if op == '|': return mk('b', Or(x, y))
        return mk('b', z3.Xor(zb(x), zb(y)))
    raise Unsupported("integer bit operation")
def cmp(op, a, b):
    from . import arrays
    if isinstance(a, (arrays.SArr, np.ndarray)) or isinstance(b, (arrays.SArr, np.ndarray)):
        return arrays.elementwise(lambda x, y: cmp(op, x, y), [a, b], kind='b')
    if not is_scalar(a) or not is_scalar(b):
        if op == '==': return False
        if op == '!=': return True
        raise Unsupported(f"compare {type(a)} {op} {type(b)}")
    if both_concrete(a, b):
        import operator as o
        return {'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op](a, b)
    k = _c(a, b)
    if k == 3:
        (ar, ai), (br, bi) = to_cplx(a), to_cplx(b)
        if op == '==': return mk('b', And(req(ar, br), req(ai, bi)))
        if op == '!=': return mk('b', Not(And(req(ar, br), req(ai, bi))))
        raise Unsupported("complex order")
    if k == 0:
        x, y = zb(to_bool(a)), zb(to_bool(b))
        if op == '==':
            if z_true(y): return mk('b', x)
            if z_true(x): return mk('b', y)
            if z_false(y): return mk('b', Not(x))
            if z_false(x): return mk('b', Not(y))
            return mk('b', x == y)
        if op == '!=': return mk('b', z3.Xor(x, y))
    if k <= 1: x, y = to_int(a), to_int(b)
    else: x, y = to_real(a), to_real(b)
    if not is_num(y) or not is_num(x):
        if x.eq(y): return op in ('==', '<=', '>=')
    r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    s = z3.simplify(r)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return mk('b', r)
def req(x, y):
    if x.eq(y): return True
    s = z3.simplify(x == y)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return x == y

def ite(c, a, b):
    """scalar if-then-else; c python bool or z3 Bool (or Sym b)"""
    if isinstance(c, Sym): c = to_bool(c)
    if z_true(c): return a
    if z_false(c): return b
    if a is b: return a
    ka, kb = kind_of(a), kind_of(b)
    if 'O' in (ka, kb):
        if type(a) is type(b) and a == b: return a
        raise Unsupported(f"merge {type(a)} / {type(b)}")
    k = max(KORD[ka], KORD[kb])
    if k == 0:
        x, y = zb(to_bool(a)), zb(to_bool(b))
        if x.eq(y): return a
        if z_true(x): return mk('b', Or(c, y))
        if z_false(x): return mk('b', And(Not(c), y))
        if z_true(y): return mk('b', Or(Not(c), x))
        if z_false(y): return mk('b', And(c, x))
        return mk('b', z3.If(c, x, y))
    if k == 1:
        x, y = to_int(a), to_int(b)
        return a if x.eq(y) else mk('i', z3.If(c, x, y))
    if k == 2:
        x, y = to_real(a), to_real(b)
        return mk('f', x) if x.eq(y) else mk('f', z3.If(c, x, y))
    (ar, ai), (br, bi) = to_cplx(a), to_cplx(b)
    return mk('c', ar if ar.eq(br) else z3.If(c, ar, br), ai if ai.eq(bi) else z3.If(c, ai, bi))

def zterms(x):
    """z3 terms of a scalar (list)"""
    if isinstance(x, Sym):
        return [x.e] if x.im is None else [x.e, x.im]
    k = kind_of(x)
    if k == 'b': return [z3.BoolVal(bool(x))]
    if k == 'i': return [z3.IntVal(int(x))]
    if k == 'f': return [rv(x)]
    if k == 'c': return [rv(x.real), rv(x.imag)]
    raise Unsupported(f"zterms {type(x)}")
def subst(x, pairs):
    if isinstance(x, Sym):
        if x.im is None: return mk(x.kind, z3.substitute(x.e, *pairs))
        return mk('c', z3.substitute(x.e, *pairs), z3.substitute(x.im, *pairs))
    return x
def isubst(x, pairs):
    if isinstance(x, (int, bool)): return x
    return as_int(z3.substitute(x, *pairs)) if z3.is_int(x) else z3.substitute(x, *pairs)

ENG = None   # set by engine
