"""symx: a small solver-based symbolic executor for Python/numpy code (z3 back end).

The real functions of /repo are imported and executed; numpy, builtin conversions, the random
generator, the clock and the file system are replaced by models that accept symbolic values.
"""
