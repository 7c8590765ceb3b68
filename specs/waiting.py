"""Requests that are waited for, and the time that passes meanwhile (C20, C21)."""
from specs import runtime

from pyvc.api import *
from pyvc.gens import *

from snmp.manager import Timeout
from snmp.pdu import ErrorResponse

NEVER = 2 ** 40
NOW = Real(0, 2 ** 33)
DELAY = Real(0, 2 ** 20)
PERIOD = Choice(1.0, 0.75, 10.0)


class World(runtime.World):
    """what happens while somebody waits: a list of (how late the waiter is woken, what happens)"""

    def __init__(self, now, steps, still=False):
        self.now = now
        self.still = still
        self.steps = steps
        self.deliver = None
        self.deadlines = None
        self.resumed = now

    def time(self):
        """between two instants little time passes, unless somebody waits"""
        if self.still:
            return self.now
        dt = runtime.passing() / 64
        assume(dt <= 1 / 64)
        self.now = self.now + dt
        return self.now

    def waiting(self, event, timeout):
        check("waits", timeout >= 0)
        if self.deadlines is not None:
            for d in self.deadlines():
                check("wakes in time", timeout == 0 or self.resumed + timeout <= d)
        if self.steps:
            late, what = self.steps.pop(0)
        else:
            late, what = NEVER, None
        if what is None:
            self.now = self.now + timeout + late
        else:
            assume(late <= timeout)
            self.now = self.now + late
            self.deliver(what)
        self.resumed = self.now


def outcome(request):
    """what waiting for a request gives"""
    try:
        return ("result", request.wait())
    except Timeout:
        return ("timeout", None)
    except ErrorResponse as err:
        return ("error", err)
