"""C14: time window: fresh messages pass, stale and replayed ones never do."""
from pyvc.api import *
from pyvc.gens import *

from snmp.security.usm.timekeeper import TimeKeeper

PROPERTY = "C14"
MAX = 2 ** 31 - 1
WINDOW = 150

TRUSTED = ["timestamps are treated as mathematical reals (floats of that size are exact to 1e-6 s)"]

BOOTS = Int(0, MAX, edges=(0, 1, 2, MAX - 1, MAX))
TIME = Int(0, MAX, edges=(0, 1, 149, 150, 151, 152, MAX))
NOW = Real(0, 2 ** 33)
ENGINE = Bytes(0, 32)
EVENT = Tup(Bool(), BOOTS, TIME, Real(0, 10 ** 6))


def replay_history(tk, engine, now, events):
    """events: (authenticated?, boots, time, seconds since the previous event)"""
    for authentic, boots, time, delay in events:
        now = now + delay
        if authentic:
            tk.updateAndVerify(engine, boots, time, now)
        else:
            tk.hint(engine, boots, time, now)
    return now


@theorem(engine=ENGINE, b=BOOTS, t=TIME, now=NOW, d=Real(0, 2 ** 33))
def first_message(engine, b, t, now, d):
    """the first authentic message sets the clock"""
    tk = TimeKeeper()
    check("unknown engine", tk.getEngineTime(engine, now) == (0, 0))
    ok = tk.updateAndVerify(engine, b, t, now)
    check("accepted unless boots are exhausted", bool(ok) == (b < MAX))
    boots, time = tk.getEngineTime(engine, now + d)
    check("boots", boots == b)
    check("time runs", t + d - 1 < time <= t + d)
    cover("end")


@theorem(engine=ENGINE, b0=BOOTS, t0=TIME, now=NOW, events=List(EVENT), b=BOOTS, t=TIME, d=Real(0, 2 ** 33))
def history_never_runs_back(engine, b0, t0, now, events, b, t, d):
    """whatever happens after an authentic message: the clock never runs back"""
    tk = TimeKeeper()
    tk.updateAndVerify(engine, b0, t0, now)
    then = replay_history(tk, engine, now, events)
    boots, time = tk.getEngineTime(engine, then)
    check("boots", boots >= b0)
    check("time", boots > b0 or time >= t0 + (then - now) - 1)
    cover("end")


STATE = dict(engine=ENGINE, b0=BOOTS, t0=TIME, now=NOW, events=List(EVENT))


@theorem(**STATE, d=Real(0, 2 ** 33))
def replay_dies(engine, b0, t0, now, events, d):
    """an accepted message is refused, whatever happened in between, once it is out of the window"""
    tk = TimeKeeper()
    assume(tk.updateAndVerify(engine, b0, t0, now))
    then = replay_history(tk, engine, now, events) + d
    again = bool(tk.updateAndVerify(engine, b0, t0, then))
    check("refused", not again or then - now < WINDOW + 1)
    cover("end")


@theorem(**STATE, b=BOOTS, t=TIME, d=Real(0, 2 ** 33))
def window(engine, b0, t0, now, events, b, t, d):
    """after any history: accepted if and only if it is within the window of the clock then known"""
    tk = TimeKeeper()
    tk.updateAndVerify(engine, b0, t0, now)
    then = replay_history(tk, engine, now, events) + d
    boots, time = tk.getEngineTime(engine, then)
    ok = bool(tk.updateAndVerify(engine, b, t, then))
    fresh = b > boots or b == boots and t >= time - WINDOW
    check("verdict", ok == (fresh and b < MAX))
    boots2, time2 = tk.getEngineTime(engine, then)
    ahead = b > boots or b == boots and t > time
    check("boots adopted", boots2 == (b if ahead else boots))
    check("time adopted", time2 == (t if ahead else time))
    cover("end")


@theorem(**STATE, b=BOOTS, t=TIME, d=Real(0, 2 ** 33))
def hints_cannot_move_an_authentic_clock(engine, b0, t0, now, events, b, t, d):
    tk = TimeKeeper()
    tk.updateAndVerify(engine, b0, t0, now)
    then = replay_history(tk, engine, now, events) + d
    before = tk.getEngineTime(engine, then)
    tk.hint(engine, b, t, then)
    check("unchanged", tk.getEngineTime(engine, then) == before)
    cover("end")


@theorem(engine=ENGINE, now=NOW, hints=List(Tup(BOOTS, TIME, Real(0, 10 ** 6)), maxlen=3), b=BOOTS, t=TIME,
         d=Real(0, 2 ** 33))
def hints_before_authentication(engine, now, hints, b, t, d):
    """unauthenticated values serve until the first authentic message, which replaces them"""
    tk = TimeKeeper()
    for boots, time, delay in hints:
        now = now + delay
        tk.hint(engine, boots, time, now)
        check("hint", tk.getEngineTime(engine, now) == (boots, time))
    then = now + d
    check("accepted", bool(tk.updateAndVerify(engine, b, t, then)) == (b < MAX))
    check("adopted", tk.getEngineTime(engine, then) == (b, t))
    cover("end")


@theorem(engine=ENGINE, other=ENGINE, b=BOOTS, t=TIME, now=NOW, b1=BOOTS, t1=TIME, kind=Bool(), d=Real(0, 10 ** 6))
def engines_are_independent(engine, other, b, t, now, b1, t1, kind, d):
    assume(engine != other)
    tk = TimeKeeper()
    tk.updateAndVerify(engine, b, t, now)
    before = tk.getEngineTime(engine, now + d)
    if kind:
        check("other accepted", bool(tk.updateAndVerify(other, b1, t1, now + d)) == (b1 < MAX))
    else:
        tk.hint(other, b1, t1, now + d)
    check("unchanged", tk.getEngineTime(engine, now + d) == before)
    check("set", tk.getEngineTime(other, now + d) == (b1, t1))
    cover("end")
