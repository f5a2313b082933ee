"""Proof sessions: explore all paths of a harness that calls real functions, collect obligations."""
import time, traceback
import numpy as np
import z3
from . import core, engine, arrays, seqs, interp, npmodel
from .core import *
from .engine import ENGINE as E
from .arrays import SArr

class Result:
    def __init__(s, name):
        s.name = name; s.obligations = []; s.error = None; s.secs = 0.0; s.paths = 0; s.functions = set(); s.bounded = None
        s.contracts = set()
    @property
    def ok(s): return s.error is None and s.obligations and all(o.status == 'proved' for o in s.obligations)
    def bad(s): return [o for o in s.obligations if o.status != 'proved']

def run(name, harness, bounded=None, budget=60.0, timeout=6.0):
    """harness(): sets up symbolic inputs, runs real code with interp, states obligations"""
    r = Result(name); r.bounded = bounded
    E.obligations = []; E.used = set(); E.contract_uses = set(); E.prefix = name + "."; E.bounded = bool(bounded)
    E.timeout = timeout; E.deadline = time.time() + budget
    core.FP["mode"] = None
    t0 = time.time(); n = [0]
    def one():
        n[0] += 1
        interp._depth[0] = 0
        try: return harness()
        except DVBase: raise
        except Exception:
            if E.pc and E.valid_quick(z3.BoolVal(False), 3.0): return None      # this path contradicts the precondition
            raise
    try:
        E.explore(one)
    except Unsupported as u:
        r.error = ("unsupported", str(u.msg))
    except DVBase as u:
        r.error = ("unsupported", f"{type(u).__name__}: {u}")
    except RecursionError:
        r.error = ("unsupported", "recursion")
    except z3.Z3Exception as ex:
        r.error = ("unsupported", f"z3: {ex}")
    except Exception as ex:
        r.error = ("exception", f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:])
    r.obligations = merge_obs(E.obligations); r.functions = set(E.used); r.contracts = set(E.contract_uses); r.secs = time.time() - t0; r.paths = n[0]
    return r
def merge_obs(obs):
    """one named obligation may be generated on several paths: keep all, number them"""
    seen = {}
    for o in obs:
        k = seen.get(o.name, 0); seen[o.name] = k + 1
        if k: o.name = f"{o.name}#path{k}"
    return obs

# ---------------------------------------------------------------- harness helpers
def sint(name, lo=None, hi=None):
    x = z3.Int(name)
    if lo is not None: E.assume(x >= lo)
    if hi is not None: E.assume(x <= hi)
    return mk('i', x)
def sreal(name): return mk('f', z3.Real(name))
def scplx(name): return mk('c', z3.Real(name + ".re"), z3.Real(name + ".im"))
def sbool(name): return mk('b', z3.Bool(name))
def dim(name, lo=1):
    x = z3.Int(name); E.assume(x >= lo); return x
def sarr(name, shape, kind='f', pos=False, nonneg=False):
    """fresh symbolic array (uninterpreted function of its indices)"""
    nd = len(shape); I = [z3.IntSort()] * nd
    srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}.get(kind)
    if kind == 'c':
        a = z3.Function(name + ".re", *I, z3.RealSort()); b = z3.Function(name + ".im", *I, z3.RealSort())
        return arrays.new(shape, 'c', lambda ix: mk('c', a(*[zi(i) for i in ix]), b(*[zi(i) for i in ix])))
    f = z3.Function(name, *I, srt)
    if pos or nonneg:
        qs = [z3.Int(f"q!{j}") for j in range(nd)]
        t = f(*qs)
        E.fact(z3.ForAll(qs, t > 0 if pos else t >= 0, patterns=[t]), key="pos" + name)
    r = arrays.new(shape, kind, lambda ix: mk(kind, f(*[zi(i) for i in ix])))
    return r
def idx(name, n):
    """arbitrary index 0 <= i < n"""
    i = z3.Int(name); E.assume(i >= 0, ilt(i, as_int(n)) if not isinstance(as_int(n), bool) else True); return i
def call(fn, *a, **k): return interp.call(fn, list(a), dict(k))
def raises(fn, *a, **k):
    """run; returns (value, None) or (None, exception)"""
    try: return interp.call(fn, list(a), dict(k)), None
    except z3.Z3Exception as ex: raise core.Unsupported(f"engine: {ex}") from ex
    except Exception as ex: return None, ex
def as_z(x): return zi(as_int(x))
def A(x): return arrays.to_arr(x)

U = 2.0 ** -53
def fp_mode(on=True):
    """IEEE-754 double rounding: every +,-,*,/ result is off by at most a relative 2^-53; sums/products of integers below 2^53 are exact"""
    def f(op, a, b, r):
        e = z3.simplify(r.e)
        if is_num(e): return r
        # all-integer + - * below 2**53 are exact; keep the term, prove the range
        if op in '+-*' and core._int_form(e) is not None:
            if E.valid_quick(z3.And(e <= rv(2 ** 53), e >= -rv(2 ** 53)), 2.0): return r
        x = E.fresh('f', 'fl')
        u = z3.RealVal(1) / z3.RealVal(2 ** 53)
        for k in (1, 4, 7, 10, 13, 16):      # a constant error bound keeps the arithmetic linear
            B = rv(10 ** k)
            if E.valid_quick(z3.And(e <= B, e >= -B), 1.0):
                E.pc.append(z3.And(x - e <= z3.simplify(u * B), e - x <= z3.simplify(u * B))); break
        else:
            ae = z3.If(e >= 0, e, -e); E.pc.append(z3.And(x - e <= u * ae, e - x <= u * ae))
        return mk('f', x)
    core.FP["mode"] = f if on else None
