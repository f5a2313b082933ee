"""Path exploration, facts, opaque operators, obligations and their discharge."""
import hashlib, itertools, time, sys, os
from fractions import Fraction
import z3
from . import core
from .core import *

def consts_of(exprs, exclude=()):
    """free 0-ary uninterpreted constants, in first-visit order"""
    seen = set(); out = []; ex = {e.get_id() for e in exclude}
    stack = list(reversed(list(exprs)))
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and i not in ex: out.append(e)
            else:
                stack.extend(reversed(e.children()))
        elif z3.is_quantifier(e):
            stack.append(e.body())
    return out

def apps_of(exprs, pred=None):
    """all uninterpreted applications (num_args>0) without loose bound variables"""
    seen = set(); out = []
    def go(e, inq):
        key = (e.get_id(), inq)
        if key in seen: return
        seen.add(key)
        if z3.is_app(e):
            for c in e.children(): go(c, inq)
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not inq:
                out.append(e)
            elif e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and inq and not has_var(e):
                out.append(e)
        elif z3.is_quantifier(e):
            go(e.body(), True)
    import sys as _s
    for e in exprs: go(e, False)
    return out
_hv = {}
def has_var(e):
    r = _hv.get(e.get_id())
    if r is not None and r[0].eq(e): return r[1]
    if z3.is_var(e): v = True
    elif z3.is_app(e): v = any(has_var(c) for c in e.children())
    else: v = True
    _hv[e.get_id()] = (e, v)
    return v
_dc = {}
def decls_of(e, acc=None):
    i = e.get_id(); r = _dc.get(i)
    if r is None or not r[0].eq(e):
        if len(_dc) > 200000: _dc.clear()
        r = (e, frozenset(_decls_of(e))); _dc[i] = r
    if acc is None: return set(r[1])
    acc |= r[1]; return acc
def _decls_of(e):
    acc = set()
    seen = set(); st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(t.decl().name())
            st.extend(t.children())
        elif z3.is_quantifier(t): st.append(t.body())
    return acc
def contains(e, c):
    seen = set(); st = [e]
    while st:
        t = st.pop()
        if t.eq(c): return True
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t): st.extend(t.children())
        elif z3.is_quantifier(t): st.append(t.body())
    return False
def contains_decl(e, name):
    return name in decls_of(e)

class SumRec:
    def __init__(s, fn, params, bound, n, body): s.fn, s.params, s.bound, s.n, s.body = fn, params, bound, n, body
    def inst(s, app, k):
        pairs = [(p, a) for p, a in zip(s.params, app.children())]
        return z3.substitute(s.body, *pairs, (s.bound, k)) if pairs else z3.substitute(s.body, (s.bound, k))
    def inst_n(s, app):
        pairs = [(p, a) for p, a in zip(s.params, app.children())]
        return z3.substitute(s.n, *pairs) if pairs else s.n

class Obligation:
    def __init__(self, name, status, backend, secs, detail=None, bounded=False):
        self.name, self.status, self.backend, self.secs, self.detail, self.bounded = name, status, backend, secs, detail, bounded

class Engine:
    def __init__(self, timeout=8.0):
        self.timeout = timeout
        self.scale = 1.0             # all solver time limits are multiplied by this (second attempt of a failed proof)
        self.obligations = []
        self.used = set()            # functions interpreted
        self.contract_uses = set()
        self.trusted = set()
        self.solver_time = 0.0
        self.schemes = {}            # term axiom schemes by decl name
        self.branges = []
        self.records = {}            # decl name -> SumRec / opaque record (global: structural)
        self.deadline = None
        self.prefix = ""
        self.bounded = False
        self.reset_path([])
    # ---------------------------------------------------------------- path state
    def reset_path(self, decisions):
        self.decisions = list(decisions); self.pos = 0
        self.pc = []
        self.facts = []              # (expr, trigger decl names)
        self.cnt = itertools.count()
        self.names = {}
        self.trail = []
        self.bdepth = 0
        self.frames = []
        self.memo = {}
        self.div_mode = None
        self.pending = None
        self.covers = {}
        self.fact_keys = set()
    def fresh(self, sort, hint="v"):
        n = self.names.get(hint, 0); self.names[hint] = n + 1
        nm = f"{hint}!{n}"
        return {'i': z3.Int, 'f': z3.Real, 'b': z3.Bool}[sort](nm)
    def fresh_sym(self, kind, hint="v"):
        if kind == 'c': return mk('c', self.fresh('f', hint + "_re"), self.fresh('f', hint + "_im"))
        return mk(kind, self.fresh(kind, hint))
    def assume(self, *conds):
        for c in conds:
            if isinstance(c, Sym): c = to_bool(c)
            if z_true(c): continue
            if z_false(c): raise Infeasible()
            self.pc.append(c)
    def fact(self, f, key=None):
        if z_true(f): return
        if key is not None:
            if key in self.fact_keys: return
            self.fact_keys.add(key)
        self.facts.append(f)
    def floor_var(self, s):
        if self.bdepth or core.FP["mode"] is None: return z3.ToInt(s)
        q = self.fresh('i', 'fl_int')
        self.pc.append(z3.And(z3.ToReal(q) <= s, s < z3.ToReal(q) + 1))
        return q
    def note_div(self, d):
        if self.div_mode is not None: self.div_mode(d)
    # ---------------------------------------------------------------- uninterpreted
    def ufun(self, name, args, sort=None):
        sort = sort or z3.RealSort()
        f = z3.Function(name, *[a.sort() for a in args], sort)
        return f(*args)
    def term_axiom(self, name, r, xs, fn):
        self.schemes.setdefault(r.decl().name(), {})[name] = fn
    def skeleton(self, exprs, bounds):
        ps = consts_of(exprs, bounds)
        pl = [z3.Const(f"P!{p.sort()}!{j}", p.sort()) for j, p in enumerate(ps)]
        bl = [z3.Const(f"BB!{b.sort()}!{j}", b.sort()) for j, b in enumerate(bounds)]
        pairs = list(zip(ps, pl)) + list(zip(bounds, bl))
        sk = [z3.substitute(e, *pairs) if pairs else e for e in exprs]
        key = hashlib.sha1("|".join(x.sexpr() for x in sk).encode()).hexdigest()[:12]
        return key, ps, pl, bl, sk
    def bound(self, sort='i'):
        self.bdepth += 1
        c = z3.Const(f"B!{sort}!{self.bdepth}", {'i': z3.IntSort(), 'f': z3.RealSort()}[sort])
        return c
    def unbound(self): self.bdepth -= 1
    # ---------------------------------------------------------------- sums
    def sum(self, n, body, kind):
        if isinstance(n, int):
            if n <= 128:
                acc = {'b': 0, 'i': 0, 'f': 0.0, 'c': 0.0}[kind]
                for k in range(n): acc = arith('+', acc, cast(body(k), 'i') if kind == 'b' else body(k)) if (k or kind == 'b') else body(k)
                return acc
        b = self.bound(); nz = zi(n); self.branges.append((b, nz))
        try:
            v = body(b); return self._sum(nz, b, v, kind)
        finally: self.unbound(); self.branges.pop()
    def _sum(self, nz, b, v, kind):
        if kind in 'bi':
            e = z3.simplify(to_int(v)); return mk('i', self._sum_int(nz, b, e))
        if kind == 'f' or (kind == 'c' and kind_of(v) != 'c'):
            r = mk('f', self._sum_real(nz, b, to_real(v)))
            return r
        r, i = to_cplx(v)
        return mk('c', self._sum_real(nz, b, r), self._sum_real(nz, b, i))
    def _sum_int(self, n, b, e):
        if not contains(e, b): return n * e
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD: return z3.Sum([self._sum_int(n, b, c) for c in e.children()])
            if k == z3.Z3_OP_MUL:
                free = [c for c in e.children() if not contains(c, b)]
                dep = [c for c in e.children() if contains(c, b)]
                if free: return z3.Product(free) * self._sum_int(n, b, z3.Product(dep) if len(dep) > 1 else dep[0])
        return self._sum_app(n, b, e, z3.IntSort())
    def _sum_real(self, n, b, e):
        e = z3.simplify(e, som=True)
        return self._lin(n, b, e)
    def _lin(self, n, b, e):
        if not contains(e, b): return rmul(z3.simplify(z3.ToReal(n)), e)
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD: return z3.Sum([self._lin(n, b, c) for c in e.children()])
            if k == z3.Z3_OP_SUB:
                cs = e.children(); r = self._lin(n, b, cs[0])
                for c in cs[1:]: r = r - self._lin(n, b, c)
                return r
            if k == z3.Z3_OP_UMINUS: return -self._lin(n, b, e.arg(0))
            if k == z3.Z3_OP_MUL:
                free = [c for c in e.children() if not contains(c, b)]
                dep = [c for c in e.children() if contains(c, b)]
                if free:
                    return z3.Product(free) * self._lin(n, b, z3.Product(dep) if len(dep) > 1 else dep[0])
                # distribute over a division factor's denominator / sums
            if k == z3.Z3_OP_DIV:
                num, den = e.children()
                if not contains(den, b): return self._lin(n, b, num) / den
                if z3.is_app(num) and num.decl().kind() == z3.Z3_OP_ADD:
                    return z3.Sum([self._lin(n, b, c / den) for c in num.children()])
            if k == z3.Z3_OP_ITE and not contains(e.arg(0), b):
                return z3.If(e.arg(0), self._lin(n, b, e.arg(1)), self._lin(n, b, e.arg(2)))
            if k == z3.Z3_OP_ITE:
                d = self._delta(b, e.arg(0))
                if d is not None:
                    t, neg = d; x, y = (e.arg(2), e.arg(1)) if neg else (e.arg(1), e.arg(2))
                    at = lambda q: z3.simplify(z3.substitute(q, (b, t)))
                    v = z3.simplify(at(x) - at(y)); rest = self._lin(n, b, y)
                    return (v if self._inrange(t, n) else z3.If(z3.And(t >= 0, t < n), v, z3.RealVal(0))) + rest
            if k == z3.Z3_OP_MUL:
                cs = e.children()
                for j, c in enumerate(cs):
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and self._delta(b, c.arg(0)) is not None:
                        r = z3.Product(cs[:j] + cs[j + 1:]) if len(cs) > 2 else cs[1 - j]
                        return self._lin(n, b, z3.If(c.arg(0), rmul(c.arg(1), r), rmul(c.arg(2), r)))
            if k == z3.Z3_OP_DIV and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_ITE and self._delta(b, e.arg(0).arg(0)) is not None:
                c = e.arg(0); return self._lin(n, b, z3.If(c.arg(0), c.arg(1) / e.arg(1), c.arg(2) / e.arg(1)))
            if k == z3.Z3_OP_TO_REAL:
                return z3.ToReal(self._sum_int(n, b, z3.simplify(e.arg(0))))
        return self._sum_app(n, b, e, z3.RealSort())
    def _delta(self, b, c):
        """condition `b == t` (or its negation) with t free of b: (t, negated)"""
        neg = False
        while z3.is_not(c): c = c.arg(0); neg = not neg
        if not z3.is_eq(c) or c.arg(0).sort() != z3.IntSort() or not contains(c, b): return None
        l = c.arg(0) - c.arg(1)
        l0 = z3.simplify(z3.substitute(l, (b, z3.IntVal(0)))); k = z3.simplify(l - l0, som=True)
        if k.eq(b): return z3.simplify(-l0), neg
        if z3.simplify(k + b, som=True).eq(z3.IntVal(0)): return l0, neg
        return None
    def _inrange(self, t, n):
        s = self._solver(1.0); ex = list(self.pc)
        for q, m in self.branges[:-1]: ex += [q >= 0, q < m]
        s.add(*ex); s.add(z3.Not(z3.And(t >= 0, t < n))); return s.check() == z3.unsat
    def _sum_app(self, n, b, e, sort):
        key, ps, pl, bl, sk = self.skeleton([n, e], [b])
        nm = f"Sum_{key}"
        f = z3.Function(nm, *[p.sort() for p in ps], sort) if ps else None
        if nm not in self.records:
            self.records[nm] = SumRec(nm, pl, bl[0], sk[0], sk[1])
        return f(*ps) if ps else z3.Const(nm, sort)
    def opaque(self, name, exprs, bounds, idx, sort=None, domain=None):
        """array-valued opaque operator applied to the array(s) whose elements at `bounds` are `exprs`;
        returns (function application at idx, key, params)"""
        sort = sort or z3.RealSort()
        key, ps, pl, bl, sk = self.skeleton(exprs, bounds)
        nm = f"{name}_{key}"
        args = list(ps) + [zi(i) for i in idx]
        if nm not in self.records: self.records[nm] = (name, pl, bl, sk)
        if not args: return z3.Const(nm, sort), nm, ps
        f = z3.Function(nm, *[a.sort() for a in args], sort)
        return f(*args), nm, ps
    # ---------------------------------------------------------------- solving
    def _relevant(self, exprs):
        names = set()
        for e in exprs: decls_of(e, names)
        facts = list(self.facts); chosen = []; changed = True
        info = [(f, decls_of(f)) for f in facts]
        used = [False] * len(info)
        while changed:
            changed = False
            for j, (f, d) in enumerate(info):
                if used[j]: continue
                heads = self.fact_heads.get(f.get_id()) if hasattr(self, 'fact_heads') else None
                if (heads & names) if heads is not None else (d & names):
                    used[j] = True; chosen.append(f)
                    if not d <= names: names |= d; changed = True
        return chosen
    def _scheme_axioms(self, exprs):
        out = []; done = set(); work = list(exprs)
        for _ in range(3):
            new = []
            for a in apps_of(work):
                sch = self.schemes.get(a.decl().name())
                if not sch or a.get_id() in done: continue
                done.add(a.get_id())
                for fn in sch.values():
                    ax = fn(a, *a.children()); new.append(ax)
            if not new: break
            out += new; work = new
        if any(c.decl().name() == "Inf_" for c in consts_of(exprs)): out.append(z3.Real("Inf_") > z3.RealVal(10 ** 300))
        return out
    def _solver(self, timeout):
        s = z3.Solver(); s.set("timeout", int(timeout * 1000 * self.scale)); return s
    def feasible(self, *conds, timeout=2.0):
        s = self._solver(timeout)
        ex = list(self.pc) + [zb(c) for c in conds]
        s.add(*ex)
        t = time.time(); r = s.check(); self.solver_time += time.time() - t
        return r != z3.unsat
    def valid_quick(self, cond, timeout=1.5):
        """pc + facts |- cond ? (used for model side conditions)"""
        if z_true(cond): return True
        if z_false(cond): cond = z3.BoolVal(False)
        vc = self.memo.setdefault('valid_quick', {}); hit = vc.get(cond.get_id())
        same = lambda old, new: len(old) <= len(new) and all(a is b or a.eq(b) for a, b in zip(old, new))
        if hit is not None and same(hit[1], self.pc) and same(hit[2], self.facts) and (hit[3] or (len(hit[1]) == len(self.pc) and len(hit[2]) == len(self.facts) and hit[4] >= timeout)): return hit[3]
        s = self._solver(timeout)
        ex = list(self.pc) + [z3.Not(cond)]
        s.add(*ex); s.add(*self._relevant(ex)); s.add(*self._scheme_axioms(ex))
        t = time.time(); r = s.check(); self.solver_time += time.time() - t
        vc[cond.get_id()] = (cond, list(self.pc), list(self.facts), r == z3.unsat, timeout)
        return r == z3.unsat
    def branch(self, cond):
        """decide a symbolic condition on this path (forks by re-execution)"""
        if isinstance(cond, Sym): cond = to_bool(cond)
        if z_true(cond): return True
        if z_false(cond): return False
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
        for p in self.pc:
            if p.eq(cond): return True
        nc = z3.simplify(z3.Not(cond))
        for p in self.pc:
            if p.eq(nc): return False
        t = self.feasible(cond); f = self.feasible(z3.Not(cond))
        if not t and not f: raise Infeasible()
        if t and not f: return True
        if f and not t: return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(True)
            self.frontier.append(self.decisions[:-1] + [False])
        self.pos += 1
        self.pc.append(cond if d else z3.Not(cond))
        return d
    def truth(self, v):
        if isinstance(v, Sym): return self.branch(to_bool(v))
        return bool(v)
    def concretize(self, v, limit=400):
        """complete case split of an integer-valued term into its feasible values"""
        e = zi(as_int(v)); n = 0
        while True:
            s = self._solver(5); s.add(*self.pc)
            r = s.check()
            if r != z3.sat: raise Infeasible() if r == z3.unsat else Unsupported("concretize: unknown")
            val = s.model().eval(e, model_completion=True).as_long()
            if self.branch(e == val): return val
            n += 1
            if n > limit: raise Unsupported("concretize: too many values")
    def explore(self, fn, maxpaths=4000):
        """run fn() once per feasible decision sequence"""
        self.frontier = [[]]
        results = []; n = 0
        while self.frontier:
            d = self.frontier.pop()
            self.reset_path(d)
            n += 1
            if n > maxpaths: raise Unsupported("too many paths")
            try:
                results.append(fn())
            except Infeasible:
                pass
        return results
    # local exploration with undo (generic iterations)
    def explore_local(self, fn, maxpaths=64):
        """explore fn() from the current state; yields (conds, outcome, effects) and undoes state after each"""
        sv = (self.decisions, self.pos, self.frontier)
        pc0 = len(self.pc)
        out = []; front = [[]]; n = 0
        while front:
            d = front.pop()
            self.decisions, self.pos, self.frontier = list(d), 0, front
            mark = len(self.trail)
            n += 1
            if n > maxpaths:
                raise Unsupported("too many paths in one generic iteration")
            try:
                res = fn()
                out.append((list(self.pc[pc0:]), res, effects(self.trail, mark)))
            except Infeasible:
                pass
            finally:
                undo(self.trail, mark)
                del self.pc[pc0:]
        self.decisions, self.pos, self.frontier = sv
        return out
    # ---------------------------------------------------------------- obligations
    def ob(self, name): return f"{self.prefix}{name}"
    def prove(self, name, goal, timeout=None, hints=()):
        """one verification condition: path condition + facts |- goal"""
        if isinstance(goal, Sym): goal = to_bool(goal)
        t0 = time.time()
        st, be, detail = self._discharge(goal, timeout or self.timeout)
        o = Obligation(self.ob(name), st, be, time.time() - t0, detail, self.bounded)
        self.obligations.append(o)
        if st == "proved" and not z_true(goal) and not isinstance(goal, bool): self.pc.append(goal)   # proved goals become lemmas
        return st == "proved"
    def prove_eq(self, name, a, b, timeout=None):
        """scalar equality; splits complex into parts"""
        from .core import cmp
        if kind_of(a) == 'c' or kind_of(b) == 'c':
            (ar, ai), (br, bi) = to_cplx(a), to_cplx(b)
            r = self.prove(name + ".re", req(ar, br), timeout); s = self.prove(name + ".im", req(ai, bi), timeout)
            return r and s
        return self.prove(name, to_bool(cmp('==', a, b)), timeout)
    def fail(self, name, detail):
        self.obligations.append(Obligation(self.ob(name), "failed", "engine", 0.0, detail, self.bounded))
    def reach(self, name):
        """vacuity guard: the current path condition must be satisfiable (sat or not refuted)"""
        s = self._solver(4); ex = list(self.pc); s.add(*ex); s.add(*self._relevant(ex))
        t = time.time(); r = s.check(); self.solver_time += time.time() - t
        if r == z3.unsat:
            self.obligations.append(Obligation(self.ob(name), "failed", "z3", 0.0, "vacuous: contradictory precondition", self.bounded))
        return r != z3.unsat
    def _check(self, hyps, goal, timeout):
        s = self._solver(timeout)
        s.add(*hyps); s.add(z3.Not(goal))
        t = time.time(); r = s.check(); self.solver_time += time.time() - t
        return r, s
    def _discharge(self, goal, timeout, depth=0):
        if z_true(goal): return "proved", "simplifier", None
        if z_false(goal): goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g): return "proved", "simplifier", None
        if z3.is_eq(g) and g.arg(0).sort() == z3.IntSort(): g = z3.And(g.arg(0) <= g.arg(1), g.arg(0) >= g.arg(1))
        ex = list(self.pc) + [g]
        hyps = list(self.pc) + self._scheme_axioms(ex)
        # quantifier-free first
        facts = self._relevant(ex)
        quick = min(timeout, 2.0)
        r, s = self._check(hyps, g, quick)
        if r == z3.unsat: return "proved", "z3", None
        model = s.model() if r == z3.sat else None
        if self._poly(g): return "proved", "polynomial normaliser (sympy)", None
        if facts:
            fx = facts + self._scheme_axioms(facts)
            r, s = self._check(hyps + fx, g, timeout)
            if r == z3.unsat: return "proved", "z3", None
            if r == z3.sat: model = s.model()
        lem = self._opaque_lemmas(ex + facts, depth, timeout)
        if lem:
            g2 = g
            r, s = self._check(hyps + facts + lem, g, timeout)
            if r == z3.unsat: return "proved", "z3 + extensionality lemmas", None
            if r == z3.sat: model = s.model()
            rep = self._rewrite(g, lem)
            if rep is not None:
                rep = z3.simplify(rep)
                if z3.is_true(rep) or self._poly(rep): return "proved", "polynomial normaliser (sympy) + extensionality lemmas", None
        if r == z3.unknown and depth == 0:
            hy = hyps + facts + self._scheme_axioms(facts) + lem
            for seed in (1, 2, 3):      # instantiation order matters for quantified goals: other orders and seeds before giving up
                s2 = self._solver(min(timeout, 4.0)); s2.set("random_seed", seed); h2 = list(hy)
                if seed % 2: h2.reverse()
                s2.add(z3.Not(g), *h2); t = time.time(); r2 = s2.check(); self.solver_time += time.time() - t
                if r2 == z3.unsat: return "proved", "z3", None
            c = self._cvc5(hyps + facts + lem, g, timeout)
            if c: return "proved", "cvc5", None
        if r == z3.sat:
            return "refuted", "z3", self._model_str(model)
        return "unknown", "z3/cvc5", f"goal not discharged: {str(g)[:600]}"
    def _model_str(self, m):
        if m is None: return ""
        out = []
        for d in m.decls():
            if d.arity() == 0: out.append(f"{d.name()}={m[d]}")
        return ", ".join(sorted(out)[:60])
    def _rewrite(self, g, lem):
        pairs = []
        for l in lem:
            if z3.is_eq(l): pairs.append((l.arg(0), l.arg(1)))
        if not pairs: return None
        return z3.substitute(g, *pairs)
    def _opaque_lemmas(self, exprs, depth, timeout):
        """extensionality: equal bodies on the range give equal sums / equal operators"""
        if depth > 2: return []
        apps = [a for a in apps_of(exprs) if a.decl().name() in self.records]
        cs = [c for c in consts_of(exprs) if c.decl().name() in self.records]
        apps += cs
        lem = []
        byfam = {}
        for a in apps:
            rec = self.records[a.decl().name()]
            fam = "Sum" + str(a.sort()) if isinstance(rec, SumRec) else rec[0]
            byfam.setdefault(fam, []).append(a)
        for fam, lst in byfam.items():
            reps = []
            for a in lst:
                hit = False
                for r in reps:
                    if a.eq(r): hit = True; break
                    if self._ext_eq(a, r, depth, timeout):
                        lem.append(a == r); hit = True; break
                if not hit: reps.append(a)
        return lem
    def _ext_eq(self, a, r, depth, timeout):
        ra, rr = self.records[a.decl().name()], self.records[r.decl().name()]
        key = ("ext", a.get_id(), r.get_id(), len(self.pc), depth)
        if key in self.memo: return self.memo[key][0]
        res = False
        if isinstance(ra, SumRec):
            na, nr = ra.inst_n(a), rr.inst_n(r)
            st = self._discharge(na == nr, min(timeout, 2), depth + 1)[0]
            if st == "proved":
                k = self.fresh('i', 'ext')
                self.pc += [k >= 0, k < na]
                try:
                    st = self._discharge(ra.inst(a, k) == rr.inst(r, k), min(timeout, 4), depth + 1)[0]
                finally: del self.pc[-2:]
                res = st == "proved"
        else:
            name, pl, bl, sk = ra; name2, pl2, bl2, sk2 = rr
            np_, np2 = len(pl), len(pl2)
            ia, ir = a.children()[np_:], r.children()[np2:]
            if len(sk) == len(sk2) and len(bl) == len(bl2) and len(ia) == len(ir):
                ok = all(x.eq(y) or self._discharge(x == y, 2, depth + 1)[0] == "proved" for x, y in zip(ia, ir))
                if ok:
                    ks = [self.fresh('i' if b.sort() == z3.IntSort() else 'f', 'ext') for b in bl]
                    A = [z3.substitute(e, *list(zip(pl, a.children())), *list(zip(bl, ks))) for e in sk]
                    B = [z3.substitute(e, *list(zip(pl2, r.children())), *list(zip(bl2, ks))) for e in sk2]
                    # first entries are sizes; element equality may assume index ranges given by sizes
                    n = len(bl)
                    mark = len(self.pc)
                    try:
                        for kx, sz in zip(ks, A[:n]):
                            if sz.sort() == z3.IntSort() and kx.sort() == z3.IntSort(): self.pc += [kx >= 0, kx < sz]
                        res = all(self._discharge(x == y, min(timeout, 3), depth + 1)[0] == "proved" for x, y in zip(A, B))
                    finally: del self.pc[mark:]
        self.memo[key] = (res, a, r)
        return res
    # -- polynomial / rational-function identity
    def _poly(self, g):
        """prove an equality (or conjunction of equalities) of real terms by rational normalisation"""
        try:
            if z3.is_and(g): return all(self._poly(c) for c in g.children())
            if not z3.is_eq(g) or g.arg(0).sort() != z3.RealSort(): return False
            return poly_equal(g.arg(0), g.arg(1))
        except (RecursionError, ValueError, ZeroDivisionError):
            return False
    def _cvc5(self, hyps, g, timeout):
        try:
            import cvc5
        except Exception:
            return False
        try:
            s = z3.Solver(); s.add(*hyps); s.add(z3.Not(g))
            txt = s.to_smt2()
            slv = cvc5.Solver(); slv.setOption("tlimit-per", str(int(timeout * 1000)))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager(); res = None
            t = time.time()
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                o = c.invoke(slv, sm)
                if "unsat" in o: res = True
            self.solver_time += time.time() - t
            return bool(res)
        except Exception:
            return False

# -------------------------------------------------------------------- rational normal form
def poly_equal(a, b, maxcond=6):
    import sympy as sp
    atoms = {}
    conds = []
    def find_ites(e, acc, seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE:
                if not any(e.arg(0).eq(c) for c in acc): acc.append(e.arg(0))
            if e.decl().kind() in ARITH or e.decl().kind() == z3.Z3_OP_ITE:
                for c in e.children(): find_ites(c, acc, seen)
    acc = []; find_ites(a, acc, set()); find_ites(b, acc, set())
    if len(acc) > maxcond: return False
    def ev(e, cv, memo):
        i = e.get_id()
        if i in memo: return memo[i]
        r = None
        if z3.is_rational_value(e): r = sp.Rational(e.numerator_as_long(), e.denominator_as_long())
        elif z3.is_int_value(e): r = sp.Integer(e.as_long())
        elif z3.is_app(e):
            k = e.decl().kind(); ch = e.children()
            if k == z3.Z3_OP_ADD: r = sp.Add(*[ev(c, cv, memo) for c in ch])
            elif k == z3.Z3_OP_SUB:
                r = ev(ch[0], cv, memo)
                for c in ch[1:]: r = r - ev(c, cv, memo)
            elif k == z3.Z3_OP_UMINUS: r = -ev(ch[0], cv, memo)
            elif k == z3.Z3_OP_MUL: r = sp.Mul(*[ev(c, cv, memo) for c in ch])
            elif k == z3.Z3_OP_DIV: r = ev(ch[0], cv, memo) / ev(ch[1], cv, memo)
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1: r = ev(ch[0], cv, memo) ** ch[1].numerator_as_long()
            elif k == z3.Z3_OP_TO_REAL: r = ev(ch[0], cv, memo) if ch[0].decl().kind() in ARITH else None
            elif k == z3.Z3_OP_ITE:
                for c, v in cv:
                    if c.eq(ch[0]): r = ev(ch[1] if v else ch[2], cv, memo)
        if r is None:
            key = z3.simplify(e)
            for kk, (t, s) in atoms.items():
                if t.eq(key): r = s; break
            if r is None:
                r = sp.Symbol(f"x{len(atoms)}"); atoms[len(atoms)] = (key, r)
        memo[i] = r
        return r
    for vals in itertools.product([True, False], repeat=len(acc)):
        cv = list(zip(acc, vals)); memo = {}
        d = ev(a, cv, memo) - ev(b, cv, memo)
        if d == 0: continue
        n, _ = sp.fraction(sp.together(d))
        n = sp.expand(n)
        if n != 0:
            # sqrt atoms: replace s**2 by argument
            return False
    return True
ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL)

# -------------------------------------------------------------------- trail (mutations with undo)
class Eff:
    __slots__ = ("kind", "obj", "key", "old", "extra")
    def __init__(s, kind, obj, key, old, extra=None): s.kind, s.obj, s.key, s.old, s.extra = kind, obj, key, old, extra
MISSING = object()
def log_local(frame, name):
    ENGINE.trail.append(Eff('local', frame, name, frame.vars.get(name, MISSING)))
def log_attr(obj, name):
    ENGINE.trail.append(Eff('attr', obj, name, obj.__dict__.get(name, MISSING) if hasattr(obj, '__dict__') else getattr(obj, name, MISSING)))
def log_item(d, k):
    ENGINE.trail.append(Eff('item', d, k, d.get(k, MISSING)))
def log_dict(d):
    ENGINE.trail.append(Eff('dict', d, None, dict(d)))
def log_list(l):
    ENGINE.trail.append(Eff('list', l, None, list(l)))
def log_buf(b, guard, val):
    ENGINE.trail.append(Eff('buf', b, None, b.fn, (guard, val)))
def undo(trail, mark):
    while len(trail) > mark:
        e = trail.pop()
        if e.kind == 'local':
            if e.old is MISSING: e.obj.vars.pop(e.key, None)
            else: e.obj.vars[e.key] = e.old
        elif e.kind == 'attr':
            if e.old is MISSING:
                try: delattr(e.obj, e.key)
                except AttributeError: pass
            else: object.__setattr__(e.obj, e.key, e.old)
        elif e.kind == 'item':
            if e.old is MISSING: e.obj.pop(e.key, None)
            else: e.obj[e.key] = e.old
        elif e.kind == 'dict':
            e.obj.clear(); e.obj.update(e.old)
        elif e.kind == 'list':
            e.obj[:] = e.old
        elif e.kind == 'buf':
            e.obj.fn = e.old; e.obj.memo = {}
        elif e.kind == 'call':
            e.old()
def effects(trail, mark):
    """summary of mutations since mark: {(kind,id(obj),key): (eff-first, final value)}"""
    out = {}
    for e in trail[mark:]:
        k = (e.kind, id(e.obj), e.key if not isinstance(e.key, Sym) else id(e.key))
        if k not in out: out[k] = [e, None, []]
        if e.kind == 'buf': out[k][2].append(e.extra)
    for k, rec in out.items():
        e = rec[0]
        if e.kind == 'local': rec[1] = e.obj.vars.get(e.key, MISSING)
        elif e.kind == 'attr': rec[1] = e.obj.__dict__.get(e.key, MISSING)
        elif e.kind == 'item': rec[1] = e.obj.get(e.key, MISSING)
        elif e.kind == 'dict': rec[1] = dict(e.obj)
        elif e.kind == 'list': rec[1] = list(e.obj)
        elif e.kind == 'buf': rec[1] = e.obj.fn
    return out

ENGINE = Engine()
core.ENG = ENGINE
