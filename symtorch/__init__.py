"""symtorch: symbolic execution of real PyTorch programs.

The code under test is imported from /repo and run unmodified by CPython; every
tensor it touches is a SymTensor whose elements are symbolic reals (multivariate
polynomials over named atoms) or IEEE floats (z3 FloatingPoint terms).  Branches
on symbolic data fork the run; z3 decides which sides are feasible and decides
every assertion over all remaining values.
"""
