"""Path exploration: decides every symbolic branch with z3 and enumerates all feasible paths (bounded).

Re-execution based depth-first search.  The trail records one entry per decision; on re-execution recorded decisions
are replayed without solver calls (their constraints are still on the incremental solver's stack).  A job is a
list of decisions with the alternatives still to be explored, so it can be split and handed to another process.
"""
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class Control(BaseException):
    """Path-steering exceptions; never caught by the code under test (see instrument.py for bare excepts)."""


class PathStop(Control):
    """This path ends here (assumption unsatisfiable, violation recorded, or harness done)."""


class PathIncomplete(Control):
    """This path leaves the supported fragment or its bounds; it is counted as not explored."""

    def __init__(self, why="?"):
        super().__init__(why)
        self.why = why


class EngineError(Control):
    """A defect of the machinery itself."""


ENG = None  # the engine of the running path


class Entry:
    __slots__ = ("choice", "alts", "pushed")

    def __init__(self, choice, alts, pushed):
        self.choice = choice  # taken option
        self.alts = alts  # remaining options: list of (choice, constraint or None, model or None)
        self.pushed = pushed  # whether a solver scope belongs to this entry


class Stats:
    FIELDS = (
        "paths", "completed", "stopped", "queries", "sat", "unsat", "unknown", "solver_s", "branches", "forced",
        "checks", "discharged", "transitions", "states",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.incomplete = {}
        self.reached = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        for d in ("incomplete", "reached"):
            mine = getattr(self, d)
            for k, v in getattr(o, d).items():
                mine[k] = mine.get(k, 0) + v


def to_py(v):
    """z3 value -> picklable python value."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_string_value(v):
        from .sym import from_zstr

        return from_zstr(v)
    raise EngineError(f"cannot use value {v}")


def like(expr, py):
    """python value -> z3 value of expr's sort."""
    if z3.is_bv(expr):
        return z3.BitVecVal(py, expr.size())
    if z3.is_string(expr):
        from .sym import zstr

        return zstr(py)
    return z3.IntVal(py)


z3.set_param("memory_max_size", 3200)


class Engine:
    def __init__(self, prefix=(), max_decisions=4000, query_timeout_ms=20000, seed=0):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.stats = Stats()
        self.trail = []
        self.pos = 0
        self.prefix = list(prefix)
        self.loaded = 0
        self.facts = {}
        self.max_decisions = max_decisions
        self.model = None
        self.violations = []
        self.path_vars = {}
        self.timeout = query_timeout_ms
        self.long = {}
        self.looked = set()
        self.mentions = {}
        self.texts = {}
        self.kept = []
        self.found = None

    # ---- solver access -------------------------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        self.found = None
        try:
            for e in extra:
                self._look(e)
            r = self._guess(extra) if self.long else z3.unknown
        except z3.Z3Exception:  # out of memory
            r = z3.unknown
        except Exception as e:  # not to be taken for an exception of the code under test
            raise EngineError("solver: " + repr(e)) from e
        if self.long and r == z3.unknown:
            self.solver.set("timeout", 1500)
            r = self._ask(extra)
            self.solver.set("timeout", self.timeout)
        elif not self.long:
            r = self._ask(extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _ask(self, extra):
        try:
            return self.solver.check(*extra)
        except z3.Z3Exception:  # out of memory
            return z3.unknown

    def _model(self):
        return self.found if self.found is not None else self.solver.model()

    def _look(self, e):
        """Note the text variables that e relates to large lengths: the solver needs help to build long texts."""
        if e.get_id() in self.looked:
            return
        self.looked.add(e.get_id())
        self.kept.append(e)
        names, sizes, seen, todo = {}, set(), set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_int_value(x):
                if 96 <= x.as_long() <= 1 << 18:
                    sizes.add(x.as_long())
            elif z3.is_string_value(x):
                if len(x.as_string()) >= 96:
                    sizes.add(x.as_string())
            elif z3.is_const(x) and z3.is_string(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names[x.get_id()] = x
            todo.extend(x.children())
        if names:
            self.mentions[e.get_id()] = set(names)
        if sizes:
            for k, x in names.items():
                self.long.setdefault(k, (x, set()))[1].update(sizes)

    def _guess(self, extra):
        """Is there a solution with texts of some particular long form?"""
        here = set()
        for e in extra:
            here |= self.mentions.get(e.get_id(), set())
        focus = [k for k in self.long if k in here]
        rest = {k: t for k, t in self.texts.items() if k not in here}
        kept = {k: self.texts[k] for k in focus if k in self.texts}
        tries = [{**rest, **kept}]
        for k in focus:
            others = {**rest, **{o: t for o, t in kept.items() if o != k}}
            for n in sorted(self.long[k][1], key=str):
                tries += [{**others, k: "a" * m} for m in (n + 1, n, n - 1)] if type(n) is int else [{**others, k: n}]
        for n in sorted(set().union(*[n for _, n in self.long.values()]), key=str):
            if type(n) is int:
                if len(focus) > 1:
                    tries.append({**rest, **{k: "a" * n + chr(98 + i % 24) for i, k in enumerate(focus)}})
                    tries.append({**rest, **{k: "a" * (n + 1) for k in focus}})
                if len(self.long) > len(focus):
                    tries.append({k: "a" * n + chr(98 + i % 24) for i, k in enumerate(self.long)})
                    tries.append({k: "a" * (n - 1) for k in self.long})
        done = []
        for t in tries[:16]:
            if not t or t in done:
                continue
            done.append(t)
            eqs = [(self.long[k][0], z3.StringVal(v)) for k, v in t.items()]
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(*[z3.simplify(z3.substitute(a, *eqs)) for a in list(self.solver.assertions()) + list(extra)])
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                self.found = s.model()
                for x, v in eqs:
                    self.found.update_value(x, v)
                self.texts.update(t)
                return z3.sat
        return z3.unknown

    def _push(self, cons):
        self.solver.push()
        if cons is not None:
            self.solver.add(cons)

    # ---- decisions -----------------------------------------------------------------------------------------------
    def fresh(self):
        """Is this decision point reached for the first time (neither replayed nor part of the job prefix)?"""
        return self.pos >= len(self.trail) and self.loaded >= len(self.prefix)

    def _replayed(self):
        """Entry to replay, or None."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            return e
        return None

    def _preset(self):
        """Next decision of the job prefix: (choice, pushed, other choices left), or None."""
        if self.loaded < len(self.prefix):
            p = self.prefix[self.loaded]
            self.loaded += 1
            return p
        return None

    def _append(self, choice, alts, pushed, preset=False):
        self.trail.append(Entry(choice, alts, pushed))
        self.pos += 1
        if preset:
            self.model = None
        else:
            self.stats.states += 1
            if len(self.trail) > self.max_decisions:
                raise PathIncomplete("decision bound")

    def branch(self, cond):
        """Decide a z3 boolean: both feasible sides get explored."""
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        if z3.is_true(cond):
            return not neg
        if z3.is_false(cond):
            return neg
        key = cond.get_id()
        f = self.facts.get(key)
        if f is not None:
            return f[1] != neg
        e = self._replayed()
        if e is not None:
            val = e.choice
        else:
            p = self._preset()
            if p is not None:
                val, pushed, alts = p
                if pushed:
                    self._push(cond if val else z3.Not(cond))
                self._append(val, [(a, cond if a else z3.Not(cond), None) for a in alts], pushed, True)
            else:
                val = self._decide(cond)
        self.facts[key] = (cond, val)
        return val != neg

    def _decide(self, cond):
        self.stats.branches += 1
        ncond = z3.Not(cond)
        mt = mf = None
        st = sf = None
        if self.model is not None:
            if z3.is_true(self.model.eval(cond, model_completion=True)):
                st, mt = True, self.model
            else:
                sf, mf = True, self.model
        if st is None:
            r = self._check(cond)
            st = r != z3.unsat
            if r == z3.sat:
                mt = self._model()
        if sf is None:
            if not st:
                sf = True
            else:
                r = self._check(ncond)
                sf = r != z3.unsat
                if r == z3.sat:
                    mf = self._model()
        if st and sf:
            self._push(cond)
            self.model = mt
            self.stats.transitions += 1
            self._append(True, [(False, ncond, mf)], True)
            return True
        val = bool(st)
        self.model = mt if val else mf
        self.stats.forced += 1
        self._append(val, [], False)
        return val

    def choose(self, n, var=None):
        """An n-way decision over a fresh variable: every option is feasible."""
        e = self._replayed()
        if e is not None:
            return e.choice
        p = self._preset()
        if p is not None:
            self._push((var == p[0]) if var is not None else None)
            self._append(p[0], [(i, (var == i) if var is not None else None, None) for i in p[2]], True, True)
            return p[0]
        # var is fresh and occurs in no other constraint, so a model of the path stays one up to var's value
        alts = [(i, (var == i) if var is not None else None, self.model) for i in range(n)]
        c = alts.pop(0)
        self._push(c[1])
        self.stats.transitions += 1
        self._append(0, alts, True)
        return 0

    def add(self, cons, var=None, default=None):
        """Add a constraint known to be consistent (range of a fresh variable; default is a value in range)."""
        if self._replayed() is not None:
            return
        self._push(cons)
        preset = self._preset() is not None
        if not preset and self.model is not None:
            if not z3.is_true(self.model.eval(cons, model_completion=True)):
                if var is not None:
                    self.model.update_value(var, default)
                else:
                    self.model = None
        self._append(None, [], True, preset)

    def assume(self, cons):
        if z3.is_true(cons):
            return
        e = self._replayed()
        if e is not None:
            if e.choice is False:
                raise PathStop()
            return
        p = self._preset()
        if p is not None:
            if p[1]:
                self._push(cons)
            self._append(p[0], [], p[1], True)
            if p[0] is False:
                raise PathStop()
            return
        if self.model is not None and z3.is_true(self.model.eval(cons, model_completion=True)):
            ok = True
        else:
            r = self._check(cons)
            ok = r != z3.unsat
            self.model = self._model() if r == z3.sat else None
        if ok:
            self._push(cons)
            self._append(True, [], True)
        else:
            self._append(False, [], False)
            self.stats.stopped += 1
            raise PathStop()

    def pick(self, expr):
        """Some feasible value of expr (recorded, so that re-execution picks the same); None if there is none."""
        e = self._replayed()
        if e is not None:
            v = e.choice
        else:
            p = self._preset()
            if p is not None:
                v = p[0]
                self._append(v, [], False, True)
            else:
                m = self.path_model()
                v = None if m is None else to_py(m.eval(expr, model_completion=True))
                self._append(v, [], False)
        return None if v is None else like(expr, v)

    def entails(self, cond):
        """Does the path condition imply cond?  Not a decision; usable only for checks."""
        r = self._check(z3.Not(cond))
        if r == z3.sat:
            return False, self._model()
        if r == z3.unknown:
            return None, None
        return True, None

    def path_model(self):
        if self.model is not None:
            return self.model
        r = self._check()
        if r == z3.sat:
            self.model = self._model()
            return self.model
        return None

    # ---- exploration ---------------------------------------------------------------------------------------------
    def _backtrack(self):
        """Move to the next unexplored alternative; False when there is none."""
        while self.trail:
            e = self.trail[-1]
            if e.pushed:
                self.solver.pop()
            if e.alts:
                choice, cons, model = e.alts.pop(0)
                e.choice = choice
                e.pushed = True
                self._push(cons)
                self.model = model
                self.stats.transitions += 1
                return True
            self.trail.pop()
        return False

    def run_one(self, fn):
        global ENG
        ENG = self
        self.pos = 0
        self.facts = {}
        self.path_vars = {}
        try:
            fn()
            self.stats.completed += 1
            return "done"
        except PathStop:
            return "stop"
        except PathIncomplete as e:
            self.stats.incomplete[e.why] = self.stats.incomplete.get(e.why, 0) + 1
            return "incomplete"
        except RecursionError:
            self.stats.incomplete["recursion"] = self.stats.incomplete.get("recursion", 0) + 1
            return "incomplete"
        finally:
            self.stats.paths += 1

    def explore(self, fn, until=None, max_paths=None, split=0):
        """Run fn over all feasible paths of this job until the time is up.

        Returns the unexplored rest as a list of jobs (see export)."""
        n = 0
        while True:
            self.run_one(fn)
            n += 1
            if self.loaded < len(self.prefix):
                raise EngineError("job prefix not consumed: the harness is not deterministic")
            if not self._backtrack():
                return []
            if (until is not None and time.time() > until) or (max_paths is not None and n >= max_paths):
                return self.export(split)

    def export(self, split):
        """The unexplored rest as jobs: up to `split` of the shallowest alternatives become jobs of their own."""
        out = []
        head = [(e.choice, e.pushed, []) for e in self.trail]
        for i, e in enumerate(self.trail):
            while e.alts and split > 0:
                a = e.alts.pop()
                out.append(head[:i] + [(a[0], True, [])])
                split -= 1
        out.append([(e.choice, e.pushed, [a[0] for a in e.alts]) for e in self.trail])
        return out
