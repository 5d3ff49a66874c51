"""The path explorer: contexts, forks, obligations, counterexamples."""
from __future__ import annotations

import gc
import random
import sys
import time
import traceback
from fractions import Fraction

from .z3load import z3


class Steer(BaseException):
    """Base of everything the engine raises through the code under test."""


class PathEnd(Steer):
    """This path is over (infeasible assumption, or deliberately cut)."""


class Found(Steer):
    """The property fails on this path: a counterexample is recorded."""


class Unsupported(Steer):
    """The code did something the engine cannot follow."""


class Inconclusive(Steer):
    """A solver answered unknown, or a bound of the engine was exceeded."""


class ReplayDiverged(Exception):
    """A concrete replay asked for something the recorded model lacks."""


class Violation(Exception):
    """Raised in concrete mode when a checked condition is false."""

    def __init__(self, label, detail=""):
        Exception.__init__(self, label, detail)
        self.label = label
        self.detail = detail


CURRENT = None  # the active symbolic context, if any


def current():
    if CURRENT is None:
        raise RuntimeError("a symbolic value escaped its context")
    return CURRENT


class Stats:
    def __init__(self):
        self.paths = 0
        self.cut_paths = 0
        self.forks = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.validated = 0
        self.labels = {}
        self.covers = {}
        self.functions = set()
        self.samples = []

    FIELDS = (
        "paths cut_paths forks queries sat unsat unknown solver_s obligations "
        "discharged trivial validated"
    ).split()

    def to_dict(self):
        d = {k: getattr(self, k) for k in self.FIELDS}
        d["labels"] = dict(self.labels)
        d["covers"] = dict(self.covers)
        d["functions"] = sorted(self.functions)
        d["samples"] = list(self.samples)
        return d


def model_value(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Inconclusive("cannot read model value %s" % (v,))


class SymCtx:
    """One symbolic execution path."""
    # numbers in messages are not looked at: do not enumerate them
    opaque_text = False

    concrete = False

    def __init__(self, prefix, stats, solver, timeout_ms, tier="quick"):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.stats = stats
        self.solver = solver
        self.timeout_ms = timeout_ms
        self.tier = tier
        self.inputs = {}
        self.aborted = None
        self.assumed = []
        self.observed = []
        self.cleanups = []
        self.fresh_n = 0
        self.path_checks = 0
        self.deadline = None
        self.conc_cache = {}
        self.decided = {}
        self.m = None  # a model of everything constrained so far, if known
        self.max_depth = 4000

    # -- solver plumbing ---------------------------------------------------
    def _guard(self):
        if self.aborted is not None:
            raise self.aborted
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(Inconclusive("time budget exhausted"))

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def solve(self, *extra):
        t = time.time()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", self.timeout_ms * 3)
            s2.add(*self.solver.assertions())
            s2.add(*extra)
            r = s2.check()
            m = s2.model() if r == z3.sat else None
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            self.abort(Inconclusive("solver answered unknown"))
        return r == z3.sat, m

    def constrain(self, term, m=None):
        """Add a constraint; ``m`` is a model known to satisfy it as well."""
        self.solver.add(term)
        if m is not None:
            self.m = m
        elif self.m is not None and not self._holds(self.m, term):
            self.m = None

    @staticmethod
    def _holds(m, term):
        return z3.is_true(m.eval(term, model_completion=True))

    # -- inputs --------------------------------------------------------------
    def _declare(self, name, kind, term):
        if name in self.inputs:
            raise RuntimeError("duplicate symbolic input %r" % (name,))
        self.inputs[name] = (kind, term)

    def int(self, name, lo=None, hi=None):
        from .values import SymInt

        self._guard()
        t = z3.Int(name)
        self._declare(name, "int", t)
        if lo is not None:
            self.constrain(t >= lo)
        if hi is not None:
            self.constrain(t <= hi)
        return SymInt(t)

    def bool(self, name):
        from .values import SymBool

        self._guard()
        t = z3.Bool(name)
        self._declare(name, "bool", t)
        return SymBool(t)

    def real(self, name, lo=None, hi=None):
        from .values import SymReal

        self._guard()
        t = z3.Real(name)
        self._declare(name, "real", t)
        if lo is not None:
            self.constrain(t >= lo)
        if hi is not None:
            self.constrain(t <= hi)
        return SymReal(t)

    def choice(self, name, n):
        """An arbitrary index in [0, n), decided here (one path per value)."""
        if n <= 1:
            return 0
        x = self.int(name, 0, n - 1)
        return self.concretise(x._t, limit=n)

    def flag(self, name):
        """An arbitrary truth value, decided here."""
        return bool(self.bool(name))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    # -- forks ---------------------------------------------------------------
    def _next(self):
        pos = len(self.trace)
        if pos < len(self.prefix):
            return self.prefix[pos]
        if pos > self.max_depth:
            self.abort(Inconclusive("path too deep (unbounded loop?)"))
        return None

    def fork(self, cond):
        """Decide the truth of a z3 Bool on this path."""
        self._guard()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        known = self.decided.get(key)
        if known is not None:
            return known[1]
        d = self._next()
        if d is not None:
            if d[0] != "b":
                raise RuntimeError("nondeterministic replay of a path")
            v = d[1]
            self.trace.append(d)
            self.constrain(cond if v else z3.Not(cond))
            self.decided[key] = (cond, v)
            return v
        neg = z3.Not(cond)
        mt = mf = None
        if self.m is not None:
            if self._holds(self.m, cond):
                mt = self.m
            elif self._holds(self.m, neg):
                mf = self.m
        if mt is None:
            _, mt = self.solve(cond)
        if mt is None:
            v, m = False, mf
        else:
            if mf is None:
                _, mf = self.solve(neg)
            if mf is not None:
                self.stats.forks += 1
                self.pending.append(self.trace + [("b", False)])
            v, m = True, mt
        self.trace.append(("b", v))
        self.constrain(cond if v else neg, m)
        self.decided[key] = (cond, v)
        return v

    def concretise(self, term, limit=64):
        """Decide the value of a z3 Int/Real on this path, exhaustively."""
        self._guard()
        term = z3.simplify(term)
        if z3.is_int_value(term) or z3.is_rational_value(term):
            return model_value(term)
        key = term.get_id()
        if key in self.conc_cache:
            return self.conc_cache[key][1]
        for _ in range(limit + 1):
            d = self._next()
            if d is not None:
                if d[0] != "v":
                    raise RuntimeError("nondeterministic replay of a path")
                _, v, eq = d
                self.trace.append(d)
            else:
                m = self.m
                if m is None:
                    ok, m = self.solve()
                    if not ok:
                        self.abort(PathEnd("infeasible"))
                    self.m = m
                v = model_value(m.eval(term, model_completion=True))
                other, _ = self.solve(term != v)
                if other:
                    self.stats.forks += 1
                    self.pending.append(self.trace + [("v", v, False)])
                eq = True
                self.trace.append(("v", v, True))
            if eq:
                self.constrain(term == v)
                self.conc_cache[key] = (term, v)
                return v
            self.constrain(term != v)
        self.abort(
            Unsupported("concretising %s needs more than %d values" % (term, limit))
        )

    # -- the property --------------------------------------------------------
    @staticmethod
    def _term(cond):
        from .values import SymBool

        if isinstance(cond, SymBool) or type(cond) is SymBool:
            return cond._t
        if isinstance(cond, z3.BoolRef):
            return cond
        return z3.BoolVal(bool(cond))

    def assume(self, cond):
        self._guard()
        t = z3.simplify(self._term(cond))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self.abort(PathEnd("assumption false"))
        self.constrain(t)
        if len(self.trace) >= len(self.prefix) and self.m is None:
            ok, m = self.solve()
            if not ok:
                self.abort(PathEnd("assumption infeasible"))
            self.m = m

    def check(self, cond, label, detail=""):
        self._guard()
        t = z3.simplify(self._term(cond))
        replaying = len(self.trace) < len(self.prefix)
        if replaying:
            # decided already on the path this one branched from
            self.constrain(t)
            return
        self.path_checks += 1
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if z3.is_true(t):
            self.stats.trivial += 1
            self.stats.discharged += 1
            return
        neg = z3.Not(t)
        m = self.m
        bad = m is not None and self._holds(m, neg)
        if not bad:
            bad, m = self.solve(neg)
        if bad:
            exc = Found(label)
            exc.label = label
            exc.detail = str(detail)
            exc.model = self.dump(m)
            self.abort(exc)
        self.stats.discharged += 1
        self.constrain(t)

    def cover(self, label):
        self._guard()
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    def stop(self, why="cut"):
        self.abort(PathEnd(why))

    def observe(self, name, value):
        """Record a value to compare against the concrete replay."""
        self.observed.append((name, freeze(value)))

    def cleanup(self, fn):
        self.cleanups.append(fn)

    def dump(self, m):
        out = {}
        for name, (kind, t) in self.inputs.items():
            v = model_value(m.eval(t, model_completion=True))
            if kind == "real":
                v = Fraction(v)
                v = [v.numerator, v.denominator]
            out[name] = v
        return out

    def path_model(self):
        if self.m is not None:
            return self.m
        ok, m = self.solve()
        if not ok:
            self.abort(PathEnd("infeasible"))
        self.m = m
        return m


def freeze(v):
    from .values import SymBool, SymInt, SymReal

    t = type(v)
    if t in (SymInt, SymReal, SymBool):
        return ("sym", v._t)
    if t in (list, tuple):
        return ("seq", [freeze(x) for x in v])
    if t.__name__ in ("SymStr", "SymBytes") and hasattr(t, "items"):
        return (t.__name__, [freeze(x) for x in v.items])
    if t in (set, frozenset):
        return ("set", [freeze(x) for x in v])
    if t is dict:
        return ("map", [(freeze(k), freeze(x)) for k, x in v.items()])
    return ("val", v)


def thaw(f, m):
    k = f[0]
    if k == "sym":
        return model_value(m.eval(f[1], model_completion=True))
    if k == "seq":
        return [thaw(x, m) for x in f[1]]
    if k == "SymStr":
        return "".join(chr(thaw(x, m)) for x in f[1])
    if k == "SymBytes":
        return bytes(thaw(x, m) for x in f[1])
    if k == "set":
        return sorted((thaw(x, m) for x in f[1]), key=repr)
    if k == "map":
        return sorted(([thaw(a, m), thaw(b, m)] for a, b in f[1]), key=repr)
    return f[1]


class ConcCtx:
    """The same interface over one recorded model: plain Python values, the
    real implementation, no solver."""

    concrete = True

    def __init__(self, model, tier="quick"):
        self.model = model
        self.tier = tier
        self.observed = []
        self.cleanups = []
        self.used = set()
        # The first failure or divergence.  The code under test may catch and
        # drop the exception (a Deferred does), which must not hide it.
        self.first = None

    def _abort(self, exc):
        if self.first is None:
            self.first = exc
        raise exc

    def _get(self, name, default):
        self.used.add(name)
        return self.model.get(name, default)

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0)
        if lo is not None and hi is not None and lo <= 0 <= hi:
            d = 0
        return int(self._get(name, d))

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None):
        n, d = self._get(name, [lo or 0, 1])
        return n / d if n % d else n // d

    def choice(self, name, n):
        if n <= 1:
            return 0
        return int(self._get(name, 0))

    def flag(self, name):
        return bool(self._get(name, False))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def assume(self, cond):
        if not cond:
            self._abort(ReplayDiverged("assumption false in concrete replay"))

    def check(self, cond, label, detail=""):
        if not cond:
            self._abort(Violation(label, str(detail)))

    def cover(self, label):
        pass

    def stop(self, why="cut"):
        self._abort(ReplayDiverged(why))

    def observe(self, name, value):
        self.observed.append((name, thaw(freeze(value), None)))

    def cleanup(self, fn):
        self.cleanups.append(fn)


def run_cleanups(ctx):
    while ctx.cleanups:
        fn = ctx.cleanups.pop()
        fn()


def run_concrete(harness, model, tier="quick"):
    """Run a harness on a concrete model.

    :return: (verdict, detail, observed); verdict is "ok", "violation",
        "exception" or "diverged".
    """
    ctx = ConcCtx(model, tier)
    try:
        try:
            harness(ctx)
        except BaseException:
            if ctx.first is None:
                raise
        finally:
            run_cleanups(ctx)
        if ctx.first is not None:
            raise ctx.first
    except Violation as e:
        return "violation", (e.label + (": " + e.detail if e.detail else "")), ctx.observed
    except ReplayDiverged as e:
        return "diverged", str(e), ctx.observed
    except Exception as e:
        # Only an exception that came out of the code under test counts; one
        # raised by the harness itself is an error of the check.
        return (
            "exception" if from_repo(e) else "harness error",
            "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]),
            ctx.observed,
        )
    return "ok", "", ctx.observed


def from_repo(exc, marker="/_zkapauthorizer/"):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if marker in tb.tb_frame.f_code.co_filename:
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


class Profiler:
    """Collect which functions of the code under test ran symbolically."""

    def __init__(self, into, marker="/_zkapauthorizer/"):
        self.into = into
        self.marker = marker

    def __enter__(self):
        into, marker = self.into, self.marker
        seen = set()

        def prof(frame, event, arg):
            if event == "call":
                code = frame.f_code
                if code in seen:
                    return
                seen.add(code)
                fn = code.co_filename
                if marker in fn and "/tests/" not in fn:
                    into.add(
                        "%s:%s" % (fn.split(marker, 1)[1], code.co_name)
                    )

        sys.setprofile(prof)

    def __exit__(self, *a):
        sys.setprofile(None)


def explore(
    harness,
    tier="quick",
    timeout_ms=20000,
    budget_s=600,
    max_paths=200000,
    validate=24,
    seed=1,
    profile_paths=12,
    prefixes=None,
    expect_exceptions=(),
):
    """Explore every path of ``harness``.

    :return: dict with keys verdict ("holds" | "counterexample" |
        "inconclusive"), findings, problems, stats.
    """
    global CURRENT
    rng = random.Random(seed)
    stats = Stats()
    stack = list(prefixes) if prefixes is not None else [[]]
    problems = []
    findings = []
    deadline = time.time() + budget_s
    to_validate = []
    seen_labels = set()
    incomplete = None
    solver = None
    n_run = 0
    while stack:
        if stats.paths + stats.cut_paths >= max_paths:
            incomplete = "path limit %d reached" % max_paths
            break
        if time.time() > deadline:
            incomplete = "time budget of %ds exhausted" % budget_s
            break
        prefix = stack.pop()
        n_run += 1
        if solver is None or n_run % 250 == 0:
            if solver is not None:
                solver = ctx = None
                gc.collect()
            solver = z3.Solver()
            solver.set("timeout", timeout_ms)
            solver.set("random_seed", seed)
        else:
            solver.pop()
        solver.push()
        ctx = SymCtx(prefix, stats, solver, timeout_ms, tier)
        ctx.deadline = deadline
        CURRENT = ctx
        outcome = "ok"
        exc_text = ""
        try:
            if stats.paths < profile_paths:
                with Profiler(stats.functions):
                    harness(ctx)
            else:
                harness(ctx)
        except Steer:
            pass
        except Exception as e:
            outcome = "exception"
            exc_text = "%s: %s\n%s" % (
                type(e).__name__,
                e,
                traceback.format_exc()[-3000:],
            )
        finally:
            if profile_paths:
                sys.setprofile(None)
            ab = ctx.aborted
            try:
                run_cleanups(ctx)
            except Steer:
                pass
        stack.extend(ctx.pending)
        model = None
        try:
            if isinstance(ab, Found):
                outcome = "found"
                model = ab.model
                label, detail = ab.label, ab.detail
            elif isinstance(ab, PathEnd):
                stats.cut_paths += 1
                continue
            elif isinstance(ab, Inconclusive) and "time budget" in str(ab):
                incomplete = "time budget of %ds exhausted" % budget_s
                break
            elif isinstance(ab, (Inconclusive, Unsupported)):
                problems.append("%s: %s" % (type(ab).__name__, ab))
                # Still try the concrete run for this region: a violation
                # found there is real, but its absence proves nothing.
                outcome = "stuck"
                ctx.aborted = None
                ctx.deadline = None
                try:
                    ok, m = ctx.solve()
                    model = ctx.dump(m) if ok else None
                except Steer:
                    model = None
                label = detail = str(ab)
            elif outcome == "exception":
                ctx.aborted = None
                model = ctx.dump(ctx.path_model())
                label = "unexpected exception"
                detail = exc_text
            else:
                stats.paths += 1
                if ctx.path_checks == 0 and len(prefix) == 0:
                    pass
                # reservoir of finished paths to validate concretely
                ctx.aborted = None
                if validate:
                    n = stats.paths
                    if len(to_validate) < validate or rng.random() < validate / n:
                        m = ctx.path_model()
                        item = (
                            ctx.dump(m),
                            [(k, thaw(f, m)) for k, f in ctx.observed],
                        )
                        if len(to_validate) < validate:
                            to_validate.append(item)
                        else:
                            to_validate[rng.randrange(validate)] = item
                continue
        except Steer as e:
            problems.append("%s: %s" % (type(e).__name__, e))
            continue
        finally:
            CURRENT = None
        stats.paths += 1
        if model is None:
            continue
        verdict, text, _ = run_concrete(harness, model, tier)
        if verdict in ("violation", "exception"):
            if outcome == "stuck" and verdict == "exception":
                # do not trust an exception in a region we could not follow
                # unless it is the code's own
                pass
            findings.append(
                {
                    "label": label,
                    "detail": detail,
                    "model": model,
                    "replay": verdict,
                    "replay_detail": text,
                }
            )
            key = (label, verdict)
            seen_labels.add(key)
            if len(findings) >= 3:
                break
        elif outcome != "stuck":
            problems.append(
                "counterexample did not reproduce (%s): %s | %s | model %s | %s"
                % (outcome, label, detail[:1500], model, (verdict, text[:300]))
            )
            if len(problems) > 20:
                break
    # Validate the encoding: concrete runs of the real code on models of the
    # explored paths must agree with what the symbolic run predicted.
    if not findings:
        for model, predicted in to_validate:
            verdict, text, observed = run_concrete(harness, model, tier)
            if verdict in ("violation", "exception"):
                findings.append(
                    {
                        "label": "validation run",
                        "detail": text,
                        "model": model,
                        "replay": verdict,
                        "replay_detail": text,
                    }
                )
                problems.append(
                    "concrete run violates what the solver showed to hold: %s %s"
                    % (text[:2000], model)
                )
                break
            if verdict != "ok":
                problems.append("validation run %s: %s %s" % (verdict, text[:500], model))
                break
            if norm(predicted) != norm(observed):
                problems.append(
                    "encoding disagrees with the implementation:\n predicted %r\n observed  %r\n model %r"
                    % (predicted, observed, model)
                )
                break
            stats.validated += 1
            if len(stats.samples) < 3:
                stats.samples.append({"model": model, "observed": repr(observed)[:600]})
    v = "holds"
    if incomplete:
        v = "partial"
    if problems:
        v = "inconclusive"
    if findings:
        v = "counterexample"
    return {
        "verdict": v,
        "findings": findings,
        "problems": problems[:10],
        "incomplete": incomplete,
        "stats": stats.to_dict(),
    }


def norm(observed):
    return [(k, _n(v)) for k, v in observed]


def _n(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, (list, tuple)):
        return [_n(x) for x in v]
    return v
