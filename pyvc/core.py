"""Path contexts, solver access and exploration control of the verifier.

A harness is executed repeatedly; every execution follows one path.  A path is
identified by its trail (the list of branch decisions).  The executor forks by
pushing alternative trails on a worklist and re-executing from the start.
"""
import time
import z3

z3.set_param("model.completion", True)


class Unsupported(Exception):
    """The construct is outside the verified subset."""


class Restart(Exception):
    """Loop knowledge changed: explore the harness again."""


class PathEnd(Exception):
    """This path is finished (assumption false, or loop body closed)."""


class Limit(Exception):
    """Exploration budget exhausted."""


def is_t(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    """to z3 Int"""
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    return z3.IntVal(int(x))


def zb(x):
    return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))


def simp(t):
    if not isinstance(t, z3.ExprRef):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.cvc5 = 0
        self.paths = 0
        self.restarts = 0
        self.obligations = 0
        self.discharged = 0
        self.covers = 0


class Failure:
    def __init__(self, name, kind, detail, model=None, inputs=None, precise=True):
        self.name = name
        self.kind = kind            # "cex" | "unknown"
        self.detail = detail
        self.model = model
        self.inputs = inputs
        self.precise = precise


class Solver:
    """Memoised satisfiability queries over a path condition."""

    def __init__(self, stats, timeout_ms=8000):
        self.stats = stats
        self.timeout = timeout_ms
        self.memo = {}
        self.keep = []              # keeps asts alive so that ids stay unique

    def new(self):
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", self.timeout)
        return s


class Path:
    """One execution."""

    def __init__(self, explorer, trail):
        self.ex = explorer
        self.trail = list(trail)
        self.picks = []
        self.pos = 0
        self.pc = []
        self.pckey = 0
        self.known = set()
        self.solver = None
        self.nadded = 0
        self.counter = 0
        self.precise = True
        self.notes = []
        self.inputs = []            # (name, generator, symbolic value)
        self.divcache = {}
        self.depth_cond = 0
        self.loop_entries = {}
        self.frozen = []            # stack of nested explorations
        self.serial = 0
        self.where = []

    # -- naming -----------------------------------------------------------
    def fresh_name(self, prefix):
        self.counter += 1
        return f"{prefix}!{self.counter}"

    def int(self, prefix="i", lo=None, hi=None):
        v = z3.Int(self.fresh_name(prefix))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def bool(self, prefix="b"):
        return z3.Bool(self.fresh_name(prefix))

    def real(self, prefix="r"):
        return z3.Real(self.fresh_name(prefix))

    # -- constraints --------------------------------------------------------
    def add(self, c):
        """Add a fact without checking feasibility."""
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        i = c.get_id()
        if i in self.known:
            return
        self.known.add(i)
        self.pc.append(c)
        self.pckey = hash((self.pckey, i))
        self.ex.keep.append(c)

    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.ex.timeout)
            self.nadded = 0
        for c in self.pc[self.nadded:]:
            self.solver.add(c)
        self.nadded = len(self.pc)

    def sat(self, c, want_model=False):
        """'sat' / 'unsat' / 'unknown' of pc and c."""
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_false(c):
            return "unsat"
        key = (self.pckey, len(self.pc), c.get_id())
        if not want_model:
            r = self.ex.memo.get(key)
            if r is not None:
                return r
        st = self.ex.stats
        st.queries += 1
        if self.ex.deadline and time.monotonic() > self.ex.deadline:
            raise Limit("time budget exhausted")
        t0 = time.monotonic()
        self._sync()
        self.solver.push()
        self.solver.add(c)
        r = str(self.solver.check())
        if r == "sat" and want_model:
            self.model = self.solver.model()
        self.solver.pop()
        dt = time.monotonic() - t0
        st.solver_s += dt
        if r == "unknown":
            r2 = self.ex.fallback(self.pc, c)
            if r2 != "unknown":
                r = r2
                st.cvc5 += 1
                if r == "sat" and want_model:
                    self.model = None
            else:
                st.unknown += 1
        self.ex.keep.append(c)
        self.ex.memo[key] = r
        return r

    def must(self, c):
        """Is c implied by the path condition?"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if c.get_id() in self.known:
            return True
        if z3.is_false(c):
            return False
        return self.sat(z3.Not(c)) == "unsat"

    def may(self, c):
        if isinstance(c, bool):
            return c
        return self.sat(c) != "unsat"

    def branch(self, c):
        """Decide c on this path, forking when both outcomes are possible."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.known:
            return True
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
        else:
            if self.ex.max_depth and len(self.trail) > self.ex.max_depth:
                raise Limit("path too long")
            t = self.may(c)
            if not t:
                d = False
            else:
                f = self.may(z3.Not(c))
                d = True
                if f:
                    self.push_alt(False)
            self.trail.append(d)
            self.pos += 1
        self.add(c if d else z3.Not(c))
        return d

    def choose(self, n, label=""):
        """Nondeterministic choice among n alternatives (all feasible)."""
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.push_alt(k)
        self.trail.append(0)
        self.pos += 1
        return 0

    def push_alt(self, d):
        self.ex.work.append(self.trail + [d])

    def concretize(self, t, lo, hi, what="value"):
        """Case split an int term over [lo, hi] (must be within)."""
        t = simp(t)
        if isinstance(t, int):
            return t
        for v in range(lo, hi):
            if self.branch(t == v):
                return v
        if not self.must(t == hi):
            raise Unsupported(f"cannot bound {what}")
        return hi

    # -- arithmetic helpers ---------------------------------------------------
    def divmod(self, a, c):
        """floor div/mod of an int term by a positive constant."""
        a = simp(a)
        if isinstance(a, int):
            return divmod(a, c)
        if c == 1:
            return a, 0
        key = (a.get_id(), c)
        r = self.divcache.get(key)
        if r is None:
            q = z3.Int(self.fresh_name("q"))
            m = z3.Int(self.fresh_name("m"))
            self.add(a == q * c + m)
            self.add(z3.And(m >= 0, m < c))
            r = (q, m)
            self.divcache[key] = r
            self.ex.keep.append(a)
        return r


class Explorer:
    def __init__(self, stats=None, timeout_ms=8000, max_paths=4000, deadline=None):
        self.stats = stats or Stats()
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_depth = 3000
        self.memo = {}
        self.keep = []
        self.work = []
        self.loops = {}             # loop key -> LoopInfo (persists over restarts)
        self.functions = set()
        self.failures = []
        self.obl = {}               # obligation name -> [seen, discharged]
        self.covered = set()
        self.notes = []
        self.groups = {}
        self.approx = set()

    def fallback(self, pc, c):
        from . import cvc
        return cvc.check(list(pc) + [c], 5000)

    def begin(self, p):
        """the inputs of path p are chosen: from here on, what is found belongs to their group"""
        g = tuple(p.picks)
        p.group = g
        group = self.groups.get(g)
        if group is None:
            group = self.groups[g] = Group()
        root = tuple(p.trail[:p.pos])
        if root not in group.roots:
            group.roots.append(root)
        group.paths += 1
        if group.paths > self.max_paths:
            raise Limit("too many paths")
        self.obl, self.failures = group.obl, group.failures
        self.covered, self.notes = group.covered, group.notes

    def restart(self, p):
        """explore the group of p again (loops are described per group)"""
        group = self.groups[p.group]
        roots = group.roots
        self.work = [t for t in self.work
                     if not any(tuple(t[:len(r)]) == r for r in roots)]
        self.work.extend(list(r) for r in reversed(roots))
        fresh = self.groups[p.group] = Group()
        fresh.restarts = group.restarts + 1
        if fresh.restarts > 400:
            raise Limit("too many restarts")

    def explore(self, run):
        """run(path) executes the harness once; it calls begin() when the inputs are chosen."""
        self.work = [[]]
        self.groups = {}
        try:
            while self.work:
                trail = self.work.pop()
                self.stats.paths += 1
                if self.deadline and time.monotonic() > self.deadline:
                    raise Limit("time budget exhausted")
                p = Path(self, trail)
                work = self.work
                try:
                    run(p)
                except PathEnd:
                    pass
                except Restart:
                    self.work = work
                    self.stats.restarts += 1
                    self.restart(p)
        finally:
            self.merge()
        for key, li in self.loops.items():
            li.finish(self)

    def merge(self):
        self.obl, self.failures, self.covered, self.notes = {}, [], set(), []
        for g in self.groups.values():
            for k, v in g.obl.items():
                o = self.obl.setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            self.failures += g.failures
            self.covered |= g.covered
            self.notes += [n for n in g.notes if n not in self.notes]


class Group:
    """what was found for one choice of the enumerated inputs"""

    def __init__(self):
        self.obl, self.failures, self.covered, self.notes = {}, [], set(), []
        self.roots = []
        self.paths = self.restarts = 0
