"""What every proof leaves unchecked (reported in each evidence file)."""
BASE = [
 "the interpreter/VC generator in /verif/dv (Python subset semantics; cross-checked against CPython/numpy by tools/selftest.py)",
 "contracts assumed for numpy / scipy / builtins (dv/npmodel.py, dv/arrays.py), cross-checked on random concrete inputs by tools/selftest.py",
 "z3, cvc5, sympy (rational-function normalisation)",
]
ASSUMPTIONS = [
 "unless a harness turns on the IEEE rounding model, floats are treated as real numbers (no rounding, overflow, NaN or infinity); stored np.nan is an uninterpreted constant",
 "machine integers are mathematical integers",
 "no concurrent mutation; warnings, printing, history strings are not part of any contract",
]
