#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt run.py C07   (VERIF_TIER, VERIF_SEED)

Exit 0: every obligation discharged (or, where the verifier had no verdict, the
bounded search found nothing).  Exit 1 with a VIOLATION line otherwise.
"""
import sys
sys.dont_write_bytecode = True
import ast
import glob
import importlib
import json
import multiprocessing as mp
import os
import re
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
os.environ.setdefault("OPENSSL_CONF", "/opt/vp/openssl-legacy.cnf")
sys.setrecursionlimit(20000)


def load(prop):
    from pyvc import api
    files = sorted(glob.glob(os.path.join(HERE, "specs", prop.lower() + "*.py")))
    if not files:
        raise SystemExit(f"no specification for {prop}")
    mods, broken = [], []
    del api.REGISTRY[:]
    from specs import runtime  # the clock's stand-in comes before whoever imports the clock
    import snmp             # the library itself must load
    for f in files:
        n = len(api.REGISTRY)
        try:
            mods.append(importlib.import_module("specs." + os.path.basename(f)[:-3]))
        except (ImportError, AttributeError) as err:
            # the specification names something that is not there any more: no verdict from this file
            del api.REGISTRY[n:]
            broken.append(f"{os.path.basename(f)}: {err}")
            print(f"{prop}: specification not applicable: {broken[-1]}")
    if not mods:
        raise SystemExit(f"no specification of {prop} applies: {broken}")
    return mods, list(api.REGISTRY)


def child(kind, th, tier, seed, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(20000)
    from pyvc import harness
    try:
        if kind == "sym":
            res = harness.prove(th, tier)
        else:
            res = harness.search(th, kind, tier, seed)
        conn.send(res.__dict__)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        conn.send({"crash": f"{type(e).__name__}: {e}"})
    conn.close()


class Task:
    def __init__(self, kind, th, tier, seed, limit):
        self.kind, self.th = kind, th
        self.args = (kind, th, tier, seed)
        self.limit = limit
        self.result = None

    def start(self):
        self.r, w = mp.Pipe(False)
        self.p = mp.Process(target=child, args=self.args + (w,))
        self.t0 = time.monotonic()
        self.p.start()
        w.close()

    def poll(self):
        if self.r.poll(0):
            try:
                self.result = self.r.recv()
            except EOFError:
                self.result = {"crash": f"process ended ({self.p.exitcode})"}
            self.p.join()
            return True
        if not self.p.is_alive():
            if self.r.poll(0.2):
                return self.poll()
            self.result = {"crash": f"process ended ({self.p.exitcode})"}
            return True
        if time.monotonic() - self.t0 > self.limit:
            self.p.kill()
            self.p.join()
            self.result = {"crash": f"stopped after {self.limit:.0f} s"}
            return True
        return False


def run_tasks(tasks, workers, more):
    pending, running = list(tasks), []
    while pending or running:
        while pending and len(running) < workers:
            t = pending.pop(0)
            t.start()
            running.append(t)
        for t in list(running):
            if t.poll():
                running.remove(t)
                pending.extend(more(t))
        time.sleep(0.02)


def literal(x):
    return repr(x)


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) obligation=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def replay(path):
    d = json.load(open(path))
    mods, ths = load(d["property"])
    from pyvc import harness
    for th in ths:
        if th.name == d["theorem"] and d.get("inputs"):
            raw = ast.literal_eval(d["inputs"])
            print(harness.native(th, raw))
            return
    print("no concrete input;", d["obligation"], d["message"])


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = os.environ.get("VERIF_VERBOSE")
    t0 = time.monotonic()
    mods, ths = load(prop)
    if not ths:
        raise SystemExit("no theorems")
    import pyvc.harness
    names = [th.name for th in ths]
    assert len(set(names)) == len(names), "theorem names must be unique"
    factor = 1 if tier == "quick" else 5
    total = 700 if tier == "quick" else 3000
    tasks = []
    for th in sorted(ths, key=lambda t: -t.opts.get("budget", 150)):
        if not th.opts.get("native_only"):
            tasks.append(Task("sym", th, tier, seed, (th.opts.get("budget", 150) * factor) + 90))
    for th in ths:
        tasks.append(Task("fuzz", th, tier, seed, 200 * factor))
    sym, fuzz = {}, {}

    def more(t):
        if verbose:
            r = t.result
            print(f"  [{time.monotonic() - t0:6.1f}] {t.kind} {t.th.name}: {r.get('status', r.get('crash'))}"
                  f" {r.get('wall', 0):.1f}s", flush=True)
        if t.kind == "sym":
            sym[t.th.name] = t.result
            if (t.result.get("crash") or t.result["status"] != "proved") and time.monotonic() - t0 < total:
                return [Task("fuzz2", t.th, tier, seed + 1, 200 * factor)]
        else:
            fuzz.setdefault(t.th.name, []).append(t.result)
        return []
    run_tasks(tasks, 8, more)

    # -- verdict ---------------------------------------------------------------
    violations = []          # (theorem, obligation, message, raw or None, details)
    report = []
    obl = disch = queries = 0
    solver = 0.0
    functions, covered = set(), 0
    runs = okruns = replays = 0
    for th in ths:
        s = sym.get(th.name)
        fz = [r for r in fuzz.get(th.name, ()) if "crash" not in r]
        confirmed = {}
        entry = {"theorem": th.name}
        for r in fz:
            runs += r["native_runs"]
            okruns += r["native_ok"]
            for ob, msg, raw in r["violations"]:
                confirmed.setdefault(ob, (th.name, ob, msg, raw, ""))
        if s is None:
            entry["status"] = "bounded"
            entry["reason"] = [str(th.opts.get("native_only"))]
        elif "crash" in s:
            entry["status"] = "bounded"
            entry["reason"] = [s["crash"]]
        else:
            for o, (seen, done) in s["obl"].items():
                obl += seen
                disch += done
            queries += s["stats"].get("queries", 0)
            solver += s["stats"].get("solver_s", 0.0)
            functions.update(s["functions"])
            covered += len(s["covers"])
            replays += s["replays"]
            for ob, msg, raw in s["violations"]:
                if raw is not None:
                    confirmed.setdefault(ob, (th.name, ob, msg, raw, ""))
            entry["status"] = {"proved": "proved", "failed": "failed", "vacuous": "failed"}.get(
                s["status"], "bounded")
            entry["obligations"] = {k: list(v) for k, v in s["obl"].items()}
            entry["paths"] = s["stats"].get("paths")
            entry["wall_s"] = round(s["wall"], 2)
            if s["status"] in ("incomplete", "unknown"):
                entry["reason"] = s["unsupported"][:4] or \
                    [f"{f[0]}: {f[2]}" for f in s["failures"] if f[1] == "unknown"][:4]
            if not confirmed:
                for ob, msg, raw in s["violations"]:
                    if raw is None:
                        violations.append((th.name, ob, msg, None, ""))
        if entry["status"] == "bounded" and not fz:
            raise SystemExit(f"{th.name}: neither verifier nor bounded search gave an answer: {entry}")
        if th.opts.get("fz_required", True) and not fz and entry["status"] != "proved":
            raise SystemExit(f"{th.name}: bounded search did not finish")
        entry["native_runs"] = sum(r["native_runs"] for r in fz)
        violations.extend(confirmed.values())
        report.append(entry)

    findings = known_findings(prop)
    shown = set()
    real = []
    for v in violations:
        hit = None
        for ob, rx, text in findings:
            if ob == v[1] and v[3] is not None and rx.search(f"{v[2]} {literal(v[3])}"):
                hit = (ob, text)
        if hit:
            if hit not in shown:
                shown.add(hit)
                print(f"KNOWN-FINDING: property={prop} {hit[1]}")
        else:
            real.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bounded = [e["theorem"] for e in report if e["status"] == "bounded"]
    trusted, assumptions = [], []
    for m in mods:
        trusted += getattr(m, "TRUSTED", [])
        assumptions += getattr(m, "ASSUMPTIONS", [])
    base = ["pyvc: the verification-condition generator in /verif/pyvc (symbolic execution of the AST of "
            "/repo's functions, checked against CPython on the same theorems by random inputs)",
            "z3 (solver), cvc5 (fallback for unknown answers)",
            "CPython semantics of the builtins modelled in pyvc/lib.py"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": disch,
            "checker_cmd": f"cd /verif && python3-vt run.py {prop} {tier}",
            "trusted_base": base + trusted,
            "theorems": report,
            "proved_theorems": [e["theorem"] for e in report if e["status"] == "proved"],
            "bounded_stand_ins": bounded,
            "functions_under_contract": sorted(f for f in functions if not f.startswith(("specs", "pyvc"))),
            "solver": "z3 " + __import__("z3").get_version_string(),
            "solver_queries": queries, "solver_s": round(solver, 2),
            "reachability_checks": covered,
            "cpython_cross_check_runs": runs, "cpython_runs_past_assumptions": okruns,
            "counterexamples_replayed": replays,
        },
        "assumptions": assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(real),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if verbose or True:
        for e in report:
            print(f"{prop} {e['theorem']}: {e['status']}"
                  + (f" ({'; '.join(e['reason'])[:300]})" if e.get("reason") else ""))
        print(f"{prop}: {disch}/{obl} obligations discharged, {queries} queries, {solver:.1f} s solver, "
              f"{runs} CPython runs, {time.monotonic() - t0:.1f} s")
    if obl == 0 and runs == 0 and not real:
        raise SystemExit("no obligations were generated")
    for i, (th, ob, msg, raw, det) in enumerate(real):
        path = os.path.join(HERE, "evidence", f"replay_{prop}_{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "theorem": th, "obligation": ob, "message": msg,
                       "inputs": None if raw is None else literal(raw),
                       "verifier": sym.get(th, {}).get("failures", [])[:5] if sym.get(th) else [],
                       "run": f"python3-vt /verif/run.py --replay {path}"}, f, indent=1, default=repr)
        print(f"  obligation {ob}: {msg}" + ("" if raw is None else f"; input {literal(raw)[:400]}"))
        print(f"VIOLATION property={prop} replay={path}" + ("" if raw is not None else " no-failing-input-found"))
    sys.exit(1 if real else 0)


if __name__ == "__main__":
    main()
