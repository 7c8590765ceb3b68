"""Stand-ins for the run-time environment: locks, events, weak references, time.

`environment()` gives the models used by the verifier; World (below) gives the
same stand-ins to CPython for replays and for the random cross-check.
"""
import collections
import contextlib
import gc
import heapq
import math
import os
import random
import select
import threading
import time
import weakref

import z3
from pyvc.core import Unsupported, PathEnd, simp, zi
from pyvc.values import *
from pyvc.interp import ModelObj, PyRaise

TRUST = ("threading.Lock, Event: usual semantics, one thread at a time (the library's critical sections are "
         "atomic); weakref.ref gives the object until it is released, None afterwards; time.time is a "
         "non-decreasing real")


# -- time, and waiting --------------------------------------------------------------

REALTIME = time.time
REALEVENT = threading.Event
CURRENT = []
RNG = random.Random(0)


class World:
    """the time, and what happens while somebody waits"""

    def __init__(self, now):
        self.now = now

    def time(self):
        self.now = self.now + passing()
        return self.now

    def waiting(self, event, timeout):
        """an event is waited for; nothing happens until the timeout"""
        self.now = self.now + timeout


def passing():
    """any time, zero or more, that passes between two instants"""
    return RNG.choice((0.0, 0.0, 0.0, 0.25, 1.0))


def use(world):
    """from now on this is the world"""
    CURRENT[:] = [world]
    RNG.seed(repr(world.now))


def tick():
    return CURRENT[0].time() if CURRENT else REALTIME()


class NativeEvent(REALEVENT):
    def wait(self, timeout=None):
        if timeout is None or not CURRENT:
            return super().wait(timeout)
        if not self.is_set():
            CURRENT[0].waiting(self, timeout)
        return self.is_set()


time.time = tick
threading.Event = NativeEvent


class Event:
    """threading.Event, symbolically"""

    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if not self.flag:
            current().waiting(self, timeout)
        return self.flag


def current():
    return CURRENT[0]


def m_use(I, world):
    I.p.__dict__["world"] = world


def m_current(I):
    return I.p.__dict__["world"]


def m_passing(I):
    t = I.p.real("passing")
    I.p.add(t >= 0)
    return SReal(t)


def m_tick(I):
    world = I.p.__dict__.get("world")
    if world is None:
        return m_passing(I)
    return I.call(I.getattr(world, "time"), [], {})


def timing():
    return {tick: m_tick, use: m_use, current: m_current, passing: m_passing,
            NativeEvent: lambda I: I.call(Event, [], {})}


# -- file descriptors that are polled -------------------------------------------------

REAL = {"pipe": os.pipe, "read": os.read, "write": os.write, "close": os.close, "poll": select.poll}
NETWORK = []


class Blocked(Exception):
    """somebody waits for what never comes"""


class Network:
    """sockets with the datagrams that are going to arrive, and one pipe"""

    def __init__(self, queues):
        self.queues = queues
        self.wakes = 0
        self.closed = []

    def ready(self, fds):
        out = [fd for fd in fds if fd in self.queues and self.queues[fd]]
        if 2000 in fds and self.wakes > 0:
            out.append(2000)
        if not out:
            raise Blocked()
        return [(fd, select.POLLIN) for fd in out]

    def receive(self, fd, size):
        address, data = self.queues[fd].pop(0)
        return address, data[:size]


class Poll:
    def __init__(self, network):
        self.network = network
        self.fds = []

    def register(self, fd, mask=None):
        self.fds.append(fd)

    def poll(self, timeout=None):
        return self.network.ready(self.fds)


def connect(network):
    """from now on this is the network"""
    NETWORK[:] = [network]


def disconnect():
    del NETWORK[:]


def network():
    return NETWORK[0] if NETWORK else None


def real(name, *args):
    return REAL[name](*args)


def pipe():
    return (2000, 2001) if network() is not None else real("pipe")


def read(fd, n):
    net = network()
    if net is None or fd < 1000:
        return real("read", fd, n)
    if net.wakes == 0:
        raise Blocked()
    net.wakes = net.wakes - 1
    return bytes(1)


def write(fd, data):
    net = network()
    if net is None or fd < 1000:
        return real("write", fd, data)
    net.wakes = net.wakes + 1
    return 1


def close(fd):
    net = network()
    if net is None or fd < 1000:
        return real("close", fd)
    net.closed.append(fd)


def poll():
    net = network()
    return Poll(net) if net is not None else real("poll")


os.pipe, os.read, os.write, os.close, select.poll = pipe, read, write, close, poll


def m_connect(I, net):
    I.p.__dict__["network"] = net


def networking():
    return {connect: m_connect, disconnect: lambda I: m_connect(I, None),
            network: lambda I: I.p.__dict__.get("network")}


class Deadlock(Exception):
    """a lock is taken by the thread that already holds it"""


class LockModel(ModelObj):
    cls = type(threading.Lock())

    def __init__(self):
        self.held = False

    def snapshot(self):
        return self.held

    def restore(self, v):
        self.held = v

    def acquire(self, I, *a, **k):
        if self.held:
            I.raise_(Deadlock, "lock is already held")
        I.write(self, "held")
        self.held = True
        return True

    def release(self, I):
        if not self.held:
            I.raise_(RuntimeError, "release unlocked lock")
        I.write(self, "held")
        self.held = False

    def getattr(self, I, name):
        if name in ("acquire", "__enter__"):
            return Builtin(name, lambda *a, **k: self.acquire(I, *a, **k))
        if name == "release":
            return Builtin(name, lambda: self.release(I))
        if name == "__exit__":
            return Builtin(name, lambda *a: self.release(I))
        if name == "locked":
            return Builtin(name, lambda: self.held)
        raise Unsupported(f"Lock.{name}")


# -- heaps ------------------------------------------------------------------------

def pure_heapq():
    """the standard library's own Python text of heapq (CPython runs the same in C)"""
    import importlib.util
    import sys
    keep = sys.modules.get("_heapq")
    sys.modules["_heapq"] = None
    try:
        spec = importlib.util.spec_from_file_location("specs.pure_heapq", heapq.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        if keep is None:
            del sys.modules["_heapq"]
        else:
            sys.modules["_heapq"] = keep


PURE = pure_heapq()
HEAPS = ("heappush", "heappop", "heapreplace", "heappushpop", "heapify")


def heaps():
    def model(name):
        return lambda I, *args: I.call(getattr(PURE, name), list(args), {})
    return {getattr(heapq, name): model(name) for name in HEAPS}


def integral(e):
    """(the terms of a sum that are integers, the rest)"""
    out, rest = z3.IntVal(0), z3.RealVal(0)
    for x in (e.children() if z3.is_add(e) else [e]):
        n, y = 1, x
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and \
                x.arg(0).denominator_as_long() == 1:
            n, y = x.arg(0).numerator_as_long(), x.arg(1)
        if z3.is_rational_value(y) and y.denominator_as_long() == 1:
            out = out + n * y.numerator_as_long()
        elif z3.is_app_of(y, z3.Z3_OP_TO_REAL):
            out = out + n * y.arg(0)
        else:
            rest = rest + x
    return simp(out), simp(rest)


def whole(I, t):
    """the integer that is not above t, and not below it by one"""
    n, t = integral(simp(t))
    if z3.is_rational_value(t):
        return simp(n + t.numerator_as_long() // t.denominator_as_long())
    memo = I.p.__dict__.setdefault("floors", [])
    for u, v in memo:
        if u.eq(t):
            return simp(v + n)
    v = I.p.int("floor")
    I.p.add(z3.And(z3.ToReal(v) <= t, t < z3.ToReal(v) + 1))
    for u, w in memo:
        I.p.add(z3.Implies(t <= u, v <= w))
        I.p.add(z3.Implies(t >= u, v >= w))
        for u2, w2 in memo:
            for a, b, c in (((t, v), (u, w), (u2, w2)), ((u, w), (t, v), (u2, w2))):
                if z3.is_rational_value(simp(a[0] - b[0] - c[0])):
                    k = simp(a[0] - b[0] - c[0])
                    if k.numerator_as_long() == 0:
                        I.p.add(z3.And(a[1] - b[1] - c[1] >= 0, a[1] - b[1] - c[1] <= 1))
    memo.append((t, v))
    return simp(v + n)


def m_floor(I, x):
    if isinstance(x, SReal):
        return mkint(whole(I, x.t))
    return math.floor(x) if isinstance(x, (int, float)) else x


def m_ceil(I, x):
    if isinstance(x, SReal):
        return mkint(simp(-whole(I, -x.t)))
    return math.ceil(x) if isinstance(x, (int, float)) else x


def rounding():
    return {math.floor: m_floor, math.ceil: m_ceil}


# -- queues, and references that are used like the object ----------------------------

class Deque:
    """collections.deque"""

    def __init__(self, items=()):
        self.items = list(items)

    def append(self, x):
        self.items.append(x)

    def appendleft(self, x):
        self.items.insert(0, x)

    def pop(self):
        if not self.items:
            raise IndexError("pop from an empty deque")
        return self.items.pop()

    def popleft(self):
        if not self.items:
            raise IndexError("pop from an empty deque")
        return self.items.pop(0)

    def extend(self, items):
        for x in items:
            self.append(x)

    def clear(self):
        self.items.clear()

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]


def queues():
    return {collections.deque: lambda I, *args: I.call(Deque, list(args), {}),
            weakref.proxy: lambda I, obj, callback=None: obj}


# -- releasing objects -----------------------------------------------------------

def release(box):
    """drop the last strong references, which box (a list) holds"""
    box.clear()
    gc.collect()


def m_release(I, box):
    from pyvc.interp import Inst
    items = I.items_of(box)
    for x in items:
        if isinstance(x, Inst):
            fin = I.lookup(x.cls, "__del__")
            if fin is not None:
                try:
                    I.call(fin, [x], {})
                except PyRaise:
                    pass
            I.p.__dict__.setdefault("dead", set()).add(id(x))
            I.p.__dict__.setdefault("deadkeep", []).append(x)
    I.call(I.getattr(box, "clear"), [], {})


def m_ref(I, obj, callback=None):
    return WeakRef(obj)


def locks():
    return {threading.Lock: lambda I: LockModel(), threading.RLock: lambda I: LockModel(),
            release: m_release}
