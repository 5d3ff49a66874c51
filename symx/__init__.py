"""symx: a small symbolic-execution engine for Python, on top of z3.

It runs the *real* functions of ``/repo/src/_zkapauthorizer`` (imported, never
copied or translated by hand) with proxy values whose operations build SMT
terms, explores every feasible path within the stated bounds, and asks z3
whether the asserted property can fail on each of them.
"""
