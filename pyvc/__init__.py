"""pyvc: a small deductive verifier for the Python (and Cython) code of /repo."""
