"""The specification vocabulary.

A theorem is an ordinary Python function over typed inputs.  The verifier
executes it symbolically (all inputs, all paths); the same function runs under
CPython to replay counterexamples and to cross-check the verifier.
"""


import itertools

from .repeat import repeat


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


def check(name, cond):
    """An obligation: cond must hold here, on every path."""
    if not cond:
        raise CheckFailed(name)


def assume(cond):
    """A precondition of the theorem."""
    if not cond:
        raise AssumeFailed()


def cover(name):
    """This point must be reachable (vacuity guard)."""


def witness(k):
    """k stands for any place in a sequence: loops that only look for something are examined there"""


def same_type(a, b):
    return type(a) is type(b)


def raises(exc, fn, *args):
    """did fn(*args) raise exc?  any other exception propagates"""
    try:
        fn(*args)
    except exc:
        return True
    return False


class Theorem:
    def __init__(self, fn, gens, **opts):
        self.fn = fn
        self.name = fn.__name__
        self.gens = gens
        self.contracts = opts.pop("contracts", None)
        self.lemmas = opts.pop("proves", "")
        self.opts = opts


REGISTRY = []


def theorem(_opts=None, **gens):
    """register a theorem; the inputs named by `split` are enumerated, each choice a theorem of its own"""
    def deco(fn):
        opts = dict(_opts or {})
        split = opts.pop("split", ())
        cases = list(itertools.product(*[gens[k].values for k in split]))
        for i, case in enumerate(cases):
            fixed = {k: type(gens[k])(v) for k, v in zip(split, case)}
            th = Theorem(fn, {**gens, **fixed}, **opts)
            if split:
                th.name += f".{i + 1}"
            REGISTRY.append(th)
        return fn
    return deco
