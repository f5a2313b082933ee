"""Registration of contracts: proof harnesses (deductive) and run-time contract cases (bounded, replayable)."""
import random, zlib

class Violation(Exception):
    """a contract of the real code was broken by a concrete input; `tag` identifies the input class / call site"""
    def __init__(s, tag, msg): super().__init__(f"[{tag}] {msg}"); s.tag, s.msg = tag, msg
class Skip(Exception): pass

def require(cond, tag, msg=""):
    if not cond: raise Violation(tag, msg() if callable(msg) else msg)

class Proof:
    def __init__(s, name, fn, bounded=None, fallback=None, budget=150.0, timeout=10.0):
        s.name, s.fn, s.bounded, s.fallback, s.budget, s.timeout = name, fn, bounded, fallback, budget, timeout
class Case:
    def __init__(s, name, fn, quick, thorough, rule): s.name, s.fn, s.quick, s.thorough, s.rule = name, fn, quick, thorough, rule

class Prop:
    def __init__(s, pid, technique, assumptions=(), functions=()):
        s.pid, s.technique, s.assumptions = pid, technique, list(assumptions)
        s.proofs, s.cases = [], []
    def proof(s, bounded=None, fallback=None, budget=150.0, timeout=10.0):
        def d(f):
            s.proofs.append(Proof(f.__name__, f, bounded, fallback, budget, timeout)); return f
        return d
    def case(s, quick=30, thorough=400, rule=""):
        """f(rng): build one input from rng, run the real code, raise Violation if a contract fails; may return a short sample string"""
        def d(f):
            s.cases.append(Case(f.__name__, f, quick, thorough, rule or (f.__doc__ or "").strip())); return f
        return d
class Rng(random.Random):
    """random.Random with numpy helper"""
    def np(s):
        import numpy as np
        return np.random.default_rng(s.getrandbits(48))
    def coin(s, p=0.5): return s.random() < p
def case_rng(pid, name, seed, i): return Rng(zlib.crc32(f"{pid}/{name}/{seed}/{i}".encode()) * 4294967311 + i)
