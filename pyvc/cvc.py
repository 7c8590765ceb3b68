"""cvc5 fallback for queries z3 leaves unknown."""
import z3

try:
    import cvc5
except Exception:               # pragma: no cover
    cvc5 = None


def check(constraints, timeout_ms):
    if cvc5 is None:
        return "unknown"
    s = z3.Solver()
    for c in constraints:
        s.add(c)
    text = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption("tlimit-per", str(timeout_ms))
        solver.setLogic("ALL")
        parser = cvc5.InputParser(solver)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = parser.getSymbolManager()
        out = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(solver, sm)
            r = str(r).strip()
            if r in ("sat", "unsat", "unknown"):
                out = r
        return out
    except Exception:
        return "unknown"
