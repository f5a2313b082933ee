"""dv: a small deductive verifier for the Python/numpy subset hera_pspec is written in."""
