"""Path explorer: runs a harness repeatedly, forking on symbolic branches.

Every branch on a symbolic condition is decided by z3: a side is taken only if
the solver says it is satisfiable together with the path condition.  A check is
discharged only by an `unsat` answer for its negation.
"""
from __future__ import annotations

import random
import time

import z3

CUR = None  # the context of the path being executed


class PathEnd(BaseException):
    """Base of everything that stops a path (never caught by code under test)."""


class Infeasible(PathEnd):
    pass


class BoundReached(PathEnd):
    """A stated bound (loop unrolling, value enumeration) cut this path."""


class CheckFailed(PathEnd):
    pass


class Inconclusive(PathEnd):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.bounded = {}
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.checks = 0
        self.checks_trivial = 0
        self.solver_s = 0.0
        self.forks = 0
        self.notes = {}
        self.labels = {}

    def note(self, key):
        self.notes[key] = self.notes.get(key, 0) + 1

    def as_dict(self):
        return dict(self.__dict__)


class Limits:
    def __init__(self, max_paths=20000, deadline=None, loop=24, enum=80,
                 query_ms=10000, path_s=30, witnesses=3):
        self.max_paths = max_paths
        self.deadline = deadline
        self.loop = loop
        self.enum = enum
        self.query_ms = query_ms
        self.path_s = path_s
        self.witnesses = witnesses


class Path:
    """One execution: the path condition, the decisions and the inputs."""

    def __init__(self, prefix, stats, limits, worklist):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.stats = stats
        self.limits = limits
        self.worklist = worklist
        self.solver = z3.Solver()
        self.solver.set('timeout', limits.query_ms)
        self.model = None
        self.ended = None
        self.started = time.time()
        self.fresh_n = 0
        self.inputs = {}
        self.outcome = []
        self.placeholders = {}
        self.placeholder_ids = []
        self.violation = None
        self.true_facts = set()
        self.never = {}  # id of a byte term -> values it cannot have
        self.decided = {}
        self.keep = []
        self.small = []  # repeat counts the real code loops over
        self.slow = False
        self.caches = {}  # functions with a cache -> earlier calls
        self.negated = None

    # -- solver ------------------------------------------------------------
    def check_sat(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def add(self, cond):
        self.solver.add(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def fact(self, cond):
        """Something true by construction of the inputs."""
        self.add(z3.simplify(cond))

    def need_model(self):
        if self.model is None:
            r = self.check_sat()
            if r == z3.unsat:
                self.end(Infeasible())
            if r != z3.sat:
                self.end(Inconclusive('solver returned unknown'))
            self.model = self.solver.model()
        return self.model

    def small_model(self):
        """A model whose repeat counts the real code gets through quickly; if
        there is none the path is marked slow (a time-out says nothing)."""
        model = self.need_model()
        if self.small and not self.slow:
            want = [z3.simplify(c) for c in self.small]
            if not all(z3.is_true(model.eval(c, model_completion=True)) for c in want):
                if self.check_sat(*want, *([] if self.negated is None else [self.negated])) == z3.sat:
                    self.model = model = self.solver.model()
                else:
                    self.slow = True
        return model

    def end(self, exc):
        self.ended = exc
        raise exc

    def live(self):
        if self.ended is not None:
            raise self.ended
        now = time.time()
        if now > self.started + self.limits.path_s:
            self.end(Inconclusive('path time limit'))
        if self.limits.deadline is not None and now > self.limits.deadline:
            self.end(Inconclusive('time budget used up'))

    def fresh(self, kind='v'):
        self.fresh_n += 1
        return f'{kind}!{self.fresh_n}'

    # -- branching ---------------------------------------------------------
    def fork(self, cond) -> bool:
        """Decide a z3 Bool."""
        self.live()
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[0]
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        known = self.decided.get(key)
        if known is not None:
            return known[0]
        if self.pos < len(self.prefix):
            side = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(side)
            self.add(cond if side else z3.Not(cond))
            self.decided[key] = side, cond
            return side
        model = self.need_model()
        side = z3.is_true(model.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r = self.check_sat(other)
        if r == z3.sat:
            self.stats.forks += 1
            self.worklist.append(self.trace + [not side])
        elif r != z3.unsat:
            self.end(Inconclusive('solver returned unknown at a branch'))
        self.trace.append(side)
        self.pos += 1
        self.solver.add(cond if side else z3.Not(cond))
        self.decided[key] = side, cond
        return side

    def implied(self, cond) -> bool:
        """Whether the path condition implies cond (no decision is recorded)."""
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[0]
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            return False
        if self.check_sat(z3.Not(cond)) == z3.unsat:
            self.decided[cond.get_id()] = True, cond
            return True
        return False

    def pick(self, expr) -> int:
        """A value of a bit-vector expression feasible on this path (recorded,
        so that a re-execution sees the same one)."""
        self.live()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return v[1]
        model = self.need_model()
        v = model.eval(expr, model_completion=True).as_signed_long()
        self.trace.append(('p', v))
        self.pos += 1
        return v

    def concretize(self, expr, lo, hi, why) -> int:
        """Enumerate all feasible values of expr, one path each, up to the
        enumeration bound."""
        n = 0
        while True:
            v = self.pick(expr)
            if self.fork(expr == z3.BitVecVal(v, expr.size())):
                return v
            n += 1
            if n >= self.limits.enum:
                if 2000 < hi:
                    self.small.append(expr <= z3.BitVecVal(2000, expr.size()))
                self.bound(f'enumeration bound {self.limits.enum} ({why})')

    def realize_one(self, expr, why):
        """Pick one value only: what is explored is reduced, and recorded."""
        v = self.pick(expr)
        self.stats.note('realized: ' + why)
        self.add(expr == z3.BitVecVal(v, expr.size()))
        return v

    def bound(self, why):
        self.stats.bounded[why] = self.stats.bounded.get(why, 0) + 1
        self.end(BoundReached(why))

    # -- obligations -------------------------------------------------------
    def assume(self, cond):
        self.live()
        if cond is True:
            return
        if cond is False:
            self.end(Infeasible())
        cond = z3.simplify(cond)
        self.add(cond)
        self.need_model() if self.pos >= len(self.prefix) else None

    def check(self, cond, msg):
        """Obligation: cond holds for every value on this path."""
        self.live()
        self.stats.checks += 1
        if cond is True:
            self.stats.checks_trivial += 1
            return
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.check_sat(neg)
        if r == z3.unsat:
            return
        if r != z3.sat:
            self.end(Inconclusive(f'solver returned unknown for a check: {msg}'))
        self.model = self.solver.model()
        self.negated = neg
        self.violation = msg
        self.end(CheckFailed(msg))


class EvalPath(Path):
    """Reads values off a model: every decision is what the model says."""

    def __init__(self, model):
        super().__init__([], Stats(), Limits(path_s=1e9), [])
        self.given = model

    def live(self):
        pass

    def fork(self, cond):
        return z3.is_true(self.given.eval(cond, model_completion=True))

    implied = fork

    def pick(self, expr):
        return self.given.eval(expr, model_completion=True).as_signed_long()

    def add(self, cond):
        pass

    def need_model(self):
        return self.given

    def assume(self, cond):
        pass


def explore(make_ctx, body, limits, stats=None, seed=1):
    """Run body(ctx) on every path. Yields (kind, ctx, detail) per path:
    'ok', 'violation', 'bound', 'inconclusive', 'error'."""
    global CUR
    stats = stats or Stats()
    rng = random.Random(seed)
    worklist = [[]]
    while worklist:
        if stats.paths >= limits.max_paths:
            yield 'inconclusive', None, f'path bound {limits.max_paths} reached', stats
            return
        if limits.deadline is not None and time.time() > limits.deadline:
            yield 'inconclusive', None, 'time budget used up', stats
            return
        prefix = worklist.pop(rng.randrange(len(worklist)) if len(worklist) > 1 else 0)
        path = Path(prefix, stats, limits, worklist)
        ctx = make_ctx(path)
        CUR = path
        kind, detail = 'ok', None
        try:
            body(ctx)
            if path.ended is not None:
                raise path.ended
        except Infeasible:
            stats.infeasible += 1
            kind = None
        except BoundReached as e:
            kind, detail = 'bound', str(e)
        except CheckFailed as e:
            kind, detail = 'violation', str(e)
        except Inconclusive as e:
            kind, detail = 'inconclusive', str(e)
        except Exception as e:  # escaped from the harness itself
            ended = path.ended
            if ended is not None and not isinstance(ended, CheckFailed):
                kind, detail = 'inconclusive', str(ended)
            else:
                import traceback

                kind = 'error'
                detail = ''.join(traceback.format_exception(e))[-3000:]
        finally:
            CUR = None
        if kind is None:
            continue
        stats.paths += 1
        yield kind, ctx, detail, stats
