"""Symbolic UVPSpec objects (arbitrary sizes, arbitrary contents) for proof harnesses."""
import numpy as np, z3
from dv.proof import *
from dv import interp, arrays, seqs
from dv.arrays import SArr, Buf
from dv.seqs import Fam, FamKey, Seg
from hera_pspec.uvpspec import UVPSpec

class Family:
    """dict {0..n-1: array}; the arrays live in one buffer with a leading window index"""
    def __init__(s, name, n, dims, kind='f', pos=False):
        s.name, s.n, s.dims, s.kind = name, n, dims, kind
        nd = len(dims(z3.Int('dum!i'))) + 1
        I = [z3.IntSort()] * nd
        if kind == 'c':
            a = z3.Function(name + ".re", *I, z3.RealSort()); b = z3.Function(name + ".im", *I, z3.RealSort())
            s.elem = lambda ix: mk('c', a(*[zi(i) for i in ix]), b(*[zi(i) for i in ix]))
        else:
            f = z3.Function(name, *I, {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]); s.elem = lambda ix: mk(kind, f(*[zi(i) for i in ix]))
            if pos:
                qs = [z3.Int(f"q!{j}") for j in range(nd)]; E.fact(z3.ForAll(qs, f(*qs) > 0, patterns=[f(*qs)]), key="pos" + name)
        s.buf = Buf(lambda ix: s.elem(ix), [n] + list(dims(z3.Int('dum!i'))), kind)
    def view(s, k):
        d = s.dims(zi(as_int(k)))
        return SArr(s.buf, [('f', as_int(k))] + [('a', i, 0, 1) for i in range(len(d))], [as_int(x) for x in d])
    def dict(s):
        return interp.created({FamKey(): Fam(s.n, lambda k: mk('i', zi(k)) if not isinstance(k, int) else k, s.view, lambda key: as_int(key) if kind_of(key) in 'bi' else None)})
    def old(s, *ix): return s.elem(tuple(as_int(i) for i in ix))
    def now(s, *ix): return s.buf.get(tuple(as_int(i) for i in ix))

def ifun(name, lo=0):
    """integer function of the window index, e.g. number of delays of window s"""
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    q = z3.Int("q!0"); E.fact(z3.ForAll([q], f(q) >= lo, patterns=[f(q)]), key="lo" + name)
    def g(s):
        t = f(zi(s)); E.assume(t >= lo) if not engine_bound(t) else None
        return t
    return g
def engine_bound(t):
    from dv import engine
    return any(n.startswith(("B!", "q!", "BB!")) for n in engine.decls_of(t)) or any(c.decl().name().startswith(("B!", "dum!")) for c in engine.consts_of([t]))
def mask_hint(*cs):
    """bring the rank of position c in every boolean mask seen so far into the context (instantiates its definition at c)"""
    for rec in E.memo.get('masks', []):
        if rec['depth'] == E.bdepth:
            for c in cs: E.pc.append(rec['rank'](c) == E.fresh('i', 'hint'))
def blank():
    u = object.__new__(UVPSpec); interp.created(u); u.__dict__['history'] = "h"
    return u
def nd(c): return mk('i', c) if not isinstance(c, int) else c
