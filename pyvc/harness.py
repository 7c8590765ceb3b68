"""Running theorems: symbolically (proof), natively (replay, cross-check)."""
import ast
import inspect
import os
import random
import resource
import signal
import sys
import textwrap
import time
import traceback

import z3

from . import api, repeat
from .api import CheckFailed, AssumeFailed
from .core import *
from .core import Failure
from .values import *
from . import loops
from . import values as V
from .gens import Ev, NoModel
from .interp import Interp, PyRaise, StopIter, UNBOUND


class Config:
    def __init__(self, th, models=None, contracts=None, constructors=None):
        self.th = th
        self.models = dict(models or {})
        self.constructors = dict(constructors or {})
        self.contracts = dict(contracts or {})
        self.weakref = None
        self.unroll = th.opts.get("unroll", 12)
        self.providers = list(th.opts.get("providers", ()))
        self.inline = set()

    def is_user_module(self, name):
        return name is not None and (name == "snmp" or name.startswith("snmp.") or
                                     name.startswith("specs") or
                                     name in ("pyvc.ghost", "pyvc.api"))

    def contract(self, f):
        return self.contracts.get(f)

    def lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__ and c is not object:
                return c.__dict__[name]
        return None

    def global_override(self, globals_, name):
        return None

    def pure(self, f):
        return getattr(f, "__module__", None) in ("builtins", "math", "functools", "operator",
                                                  "_operator", "itertools", None, "enum",
                                                  "ipaddress", "typing", "snmp")


def m_witness(I, k):
    I.p.interest = I.p.__dict__.get("interest", ()) + (V.it(k),)
    loops.witness(I, V.it(k))


class Checker:
    """check / assume / cover during symbolic execution"""

    def __init__(self, th, ex):
        self.th, self.ex = th, ex
        self.cex = {}

    def obligation(self, I, name, cond):
        p, ex = I.p, self.ex
        full = f"{self.th.name}/{name}"
        o = ex.obl.setdefault(full, [0, 0])
        o[0] += 1
        ex.stats.obligations += 1
        if isinstance(cond, SBool):
            t = cond.t
        else:
            t = z3.BoolVal(bool(I.truth(cond)))
        r = p.sat(z3.Not(t))
        if r == "unsat":
            o[1] += 1
            ex.stats.discharged += 1
        elif r == "sat":
            if os.environ.get("PYVC_PC"):
                print("FAIL", full, [str(c)[:300].replace("\n", " ") for c in p.pc])
            n = self.cex.get(full, 0)
            self.cex[full] = n + 1
            inputs = []
            if n < 6:
                inputs = self.models(I, z3.Not(t), 2 if n else 4)
            ex.failures.append(Failure(full, "cex", p_text(p, t), None, inputs, p.precise))
        else:
            ex.failures.append(Failure(full, "unknown", "solver gave no answer", precise=p.precise))
        p.add(t)
        if z3.is_false(t):
            raise PathEnd()

    def models(self, I, q, count):
        """raw inputs of models of pc and q, small ones first"""
        p = I.p
        soft = []
        for name, g in self.th.gens.items():
            soft += g.small(name)
        out = []
        block = z3.BoolVal(True)
        for attempt in range(count):
            got = False
            for extra in ([z3.And(*soft)] if soft else []) + [z3.BoolVal(True)]:
                try:
                    r = p.sat(z3.And(q, block, extra), want_model=True)
                except Limit:
                    return out
                if r != "sat" or p.model is None:
                    continue
                ev = Ev(p.model)
                try:
                    raw = {n: g.model(ev, n) for n, g in self.th.gens.items()}
                except (NoModel, Exception):
                    continue
                if raw not in out:
                    out.append(raw)
                    got = True
                # ask for a different integer input next time
                diff = []
                for d in p.model.decls():
                    if d.arity() == 0 and "!" not in d.name() and z3.is_int(p.model[d]):
                        diff.append(d() != p.model[d])
                if diff:
                    block = z3.And(block, z3.Or(*diff))
                break
            if not got:
                break
        return out

    def m_check(self, I, name, cond):
        if not isinstance(cond, (bool, SBool)):
            cond = I.truth(cond)
        self.obligation(I, name, cond)

    def m_assume(self, I, cond):
        if isinstance(cond, SBool):
            if not I.p.may(cond.t):
                raise PathEnd()
            I.p.add(cond.t)
            return
        if not I.truth(cond):
            raise PathEnd()

    def m_cover(self, I, name):
        if name not in self.ex.covered and I.p.sat(True) == "sat":
            self.ex.covered.add(name)

    def m_same_type(self, I, a, b):
        return I.type_of(a) is I.type_of(b)


def p_text(p, t):
    s = str(t)
    return s if len(s) < 600 else s[:600] + "..."


def cover_names(fn):
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except OSError:
        return set()
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "cover" and n.args:
            if isinstance(n.args[0], ast.Constant):
                out.add(n.args[0].value)
    return out


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "?"
        self.obl = {}
        self.functions = []
        self.failures = []          # (obligation, kind, detail, [raw inputs], precise)
        self.unsupported = []
        self.stats = {}
        self.covers = []
        self.missing_covers = []
        self.violations = []        # (obligation, message, raw or None)
        self.native_runs = 0
        self.native_ok = 0
        self.replays = 0
        self.wall = 0.0


def symbolic(th, deadline, debug=False, timeout_ms=8000):
    """explore th; returns a Result without native parts"""
    from . import lib
    res = Result(th.name)
    ex = Explorer(timeout_ms=th.opts.get("timeout_ms", timeout_ms),
                  max_paths=th.opts.get("max_paths", 4000), deadline=deadline)
    ex.no_termination = th.opts.get("no_termination", False)
    ck = Checker(th, ex)
    models = {api.check: ck.m_check, api.assume: ck.m_assume, api.cover: ck.m_cover, api.witness: m_witness,
              api.same_type: ck.m_same_type, **repeat.models()}
    extra = th.opts.get("models")
    if extra:
        models.update(extra() if callable(extra) else extra)
    contracts = th.contracts
    if callable(contracts):
        contracts = contracts()
    ctors = th.opts.get("constructors")
    if callable(ctors):
        ctors = ctors()
    normal = [0]

    def run(p):
        cfg = Config(th, models, contracts, ctors)
        I = Interp(p, cfg)
        setup = th.opts.get("setup")
        if setup:
            setup(I, cfg)
        try:
            args = {}
            for n, g in th.gens.items():
                args[n] = g.sym(I, n)
            ex.begin(p)
            try:
                r = I.call(th.fn, [], args)
            except PyRaise as e:
                detail = f"uncaught {e.exc.cls.__name__}{e.exc.fields.get('args', '')!r:.200}"
                full = f"{th.name}/no-exception"
                o = ex.obl.setdefault(full, [0, 0])
                o[0] += 1
                ex.stats.obligations += 1
                r = p.sat(True)
                if r == "unsat":
                    o[1] += 1
                    ex.stats.discharged += 1
                    return
                n = ck.cex.get(full, 0)
                ck.cex[full] = n + 1
                inputs = ck.models(I, z3.BoolVal(True), 3) if n < 6 else []
                ex.failures.append(Failure(full, "cex" if r == "sat" else "unknown", detail, None,
                                           inputs, p.precise))
                return
            full = f"{th.name}/no-exception"
            o = ex.obl.setdefault(full, [0, 0])
            o[0] += 1
            o[1] += 1
            ex.stats.obligations += 1
            ex.stats.discharged += 1
            if not normal[0] and p.sat(True) == "sat":
                normal[0] += 1
        except Unsupported as e:
            note(ex, "unsupported", e, debug)
        except RecursionError as e:
            note(ex, "engine", e, debug)
        except (PathEnd, Restart, Limit, PyRaise):
            raise
        except z3.Z3Exception as e:
            note(ex, "engine", e, debug)
        except Exception as e:
            note(ex, "engine", e, debug)

    tried = set()

    def confirming(p):
        """once a failure is confirmed by CPython, the rest of the exploration can be short"""
        if not confirmed:
            for f in ex.failures:
                if f.name not in tried and f.kind == "cex" and f.inputs and len(tried) < 8:
                    tried.add(f.name)
                    if any(native(th, raw)[0] == "fail" for raw in f.inputs[:2]):
                        confirmed.append(f)
                        ex.deadline = min(ex.deadline or 1e30, time.monotonic() + AFTER)
                        break
        run(p)

    confirmed = []
    t0 = time.monotonic()
    try:
        ex.explore(confirming)
    except Limit as e:
        if not confirmed:
            note(res, "limit", e, False)
    res.wall = time.monotonic() - t0
    res.unsupported = ex.notes + res.unsupported
    res.obl = dict(ex.obl)
    res.functions = sorted(ex.functions)
    res.failures = [(f.name, f.kind, f.detail, f.inputs or [], f.precise) for f in ex.failures]
    res.stats = dict(ex.stats.__dict__)
    res.covers = sorted(ex.covered)
    if not res.unsupported:
        res.missing_covers = sorted(cover_names(th.fn) - ex.covered)
        if not normal[0] and not res.failures:
            res.missing_covers.append("<normal return>")
    bad = [f for f in res.failures]
    if res.unsupported:
        res.status = "incomplete"
    elif bad:
        res.status = "failed" if any(f[1] == "cex" for f in bad) else "unknown"
    elif res.missing_covers:
        res.status = "vacuous"
    elif not res.obl:
        res.status = "vacuous"
    else:
        res.status = "proved"
    return res


AFTER = 15      # seconds of exploration after a confirmed failure


def note(res, kind, e, debug):
    s = f"{kind}: {type(e).__name__}: {e}"
    if kind == "engine":
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        s += " @ " + " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[::-1])
    if debug:
        traceback.print_exc()
    notes = res.notes if isinstance(res, Explorer) else res.unsupported
    if s not in notes:
        notes.append(s)


# ---------------------------------------------------------------------------

class Alarm(BaseException):
    pass


def _alarm(*a):
    raise Alarm()


def native(th, raw, seconds=10):
    """run th under CPython; ('ok'|'assume'|'fail', obligation, message)"""
    try:
        args = {n: g.build(raw[n]) for n, g in th.gens.items()}
    except AssumeFailed:
        return ("assume", None, None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        th.fn(**args)
        return ("ok", None, None)
    except AssumeFailed:
        return ("assume", None, None)
    except CheckFailed as e:
        return ("fail", f"{th.name}/{e}", f"check {e} is false")
    except Alarm:
        return ("fail", f"{th.name}/terminates", f"no result within {seconds} s")
    except MemoryError:
        return ("assume", None, None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[::-1][:4])
        return ("fail", f"{th.name}/no-exception", f"raised {type(e).__name__}: {e} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def fuzz(th, res, seconds, seed, minruns=20):
    """random inputs under CPython; appends violations"""
    rng = random.Random(f"{seed}/{th.name}")
    t0 = time.monotonic()
    runs = ok = 0
    fails = {}
    cap = th.opts.get("native_runs", 20000)
    while (time.monotonic() - t0 < seconds or runs < minruns) and runs < cap:
        size = rng.choice((1, 3, 6, 12, 40))
        try:
            raw = {n: g.rand(rng, size) for n, g in th.gens.items()}
        except AssumeFailed:
            continue
        r, ob, msg = native(th, raw)
        runs += 1
        if r == "ok":
            ok += 1
        elif r == "fail" and ob not in fails:
            fails[ob] = (ob, msg, raw)
            if len(fails) >= 3:
                break
        if time.monotonic() - t0 > seconds * 3 + 20:
            break
    res.native_runs += runs
    res.native_ok += ok
    return list(fails.values())


def prove(th, tier="quick", debug=False):
    """symbolic verdict, with counterexamples replayed under CPython"""
    budget = th.opts.get("budget", 150) * (1 if tier == "quick" else 5)
    t0 = time.monotonic()
    res = symbolic(th, t0 + budget, debug, 8000 if tier == "quick" else 20000)
    confirmed = {}
    for ob, kind, detail, inputs, precise in res.failures:
        for raw in inputs:
            res.replays += 1
            r, ob2, msg = native(th, raw)
            if r == "fail" and ob2 not in confirmed:
                confirmed[ob2] = (ob2, msg, raw)
    res.violations.extend(confirmed.values())
    if not confirmed and res.status in ("failed", "vacuous"):
        seen = set()
        for ob, kind, detail, inputs, precise in res.failures:
            if kind == "cex" and ob not in seen:
                seen.add(ob)
                res.violations.append((ob, detail, None))
        for c in res.missing_covers:
            res.violations.append((f"{th.name}/reachable:{c}", "this point is never reached", None))
    res.wall = time.monotonic() - t0
    return res


def search(th, kind, tier, seed):
    """random search under CPython"""
    res = Result(th.name)
    t0 = time.monotonic()
    secs = th.opts.get("native_s", 2.0)
    if kind == "fuzz2":
        secs = max(10.0, secs * 2)
    if tier == "thorough":
        secs *= 8
        th.opts["native_runs"] = th.opts.get("native_runs", 20000) * 10
    res.violations.extend(fuzz(th, res, secs, f"{seed}{kind}"))
    res.status = "searched"
    res.wall = time.monotonic() - t0
    return res


def run_theorem(th, tier="quick", seed=1, debug=False):
    res = prove(th, tier, debug)
    r2 = search(th, "fuzz" if res.status == "proved" else "fuzz2", tier, seed)
    res.native_runs, res.native_ok = r2.native_runs, r2.native_ok
    have = {v[0] for v in res.violations if v[2] is not None}
    res.violations += [v for v in r2.violations if v[0] not in have]
    return res
