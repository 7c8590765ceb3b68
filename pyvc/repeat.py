"""repeat(k, fn): fn() called k times, for any k.

Under CPython: exactly that.  Symbolically: one representative call, after which everything the call
changed in objects that existed before is generalised to "the same for any number of calls": a dictionary
that gained entries has an unknown number of entries like them, under arbitrary other keys; an integer that
changed becomes arbitrary.  Any other change is outside of what the rule covers and is not accepted.
"""
import z3

from .core import Unsupported, simp, zi
from .values import *
from .interp import ModelObj


def repeat(k, fn):
    return [fn() for _ in range(k)]


def int_key(k):
    t = it(k) if isinstance(k, (int, SInt, SBool)) else None
    if t is None:
        raise Unsupported("unknown dictionary content with keys that are no integers")
    return zi(t)


class OpenDict:
    """unknown further entries of a dictionary: their keys are a set of integers, their values are like
    one of the given templates"""

    def __init__(self, name, templates, gone=(), older=None):
        self.name = name
        self.templates = templates
        self.gone = tuple(gone)
        self.older = older
        self.member = z3.Function(f"member.{name}", z3.IntSort(), z3.BoolSort())

    def has(self, I, d, k):
        for x in self.gone:
            if I.truth(I.eq(x, k)):
                return False
        if self.older is not None and self.older.has(I, d, k):
            return True
        return I.p.branch(self.member(int_key(k)))

    def lookup(self, I, d, k):
        from .lib import MISSING
        for x in self.gone:
            if I.truth(I.eq(x, k)):
                return MISSING
        if self.older is not None:
            v = self.older.lookup(I, d, k)
            if v is not MISSING:
                return v
        if not I.p.branch(self.member(int_key(k))):
            return MISSING
        return self.templates[I.p.choose(len(self.templates))]

    def delete(self, I, d, k):
        """remove k if it is one of the unknown entries"""
        if not self.has(I, d, k):
            return False
        self.removed_(I, d, k)
        return True

    def removed_(self, I, d, k):
        I.write(d, "entries")
        d.base = OpenDict(self.name, self.templates, self.gone + (k,), self.older)

    def stored(self, I, d, k):
        pass

    def removed(self, I, d, k):
        self.removed_(I, d, k)

    def len(self, I, d):
        return mkint(simp(I.p.int("others", lo=0) + len(d.entries)))

    def nonempty(self, I, d):
        return True if d.entries else mkbool(I.p.bool("others"))

    def iter(self, I, d):
        raise Unsupported("iteration over an unknown number of entries")

    def view(self, I, d, name):
        raise Unsupported("iteration over an unknown number of entries")


def m_repeat(I, k, fn):
    from .loops import WriteLog
    p = I.p
    out = PList([])
    if not p.branch(zi(it(k)) > 0):
        return out
    log = WriteLog()
    I.writelogs.append(log)
    try:
        out.items.append(I.call(fn, [], {}))
    finally:
        I.writelogs.remove(log)
    new = set()
    for obj, name, v in log.old.values():
        if isinstance(obj, Inst) and v is UNBOUND_():
            new.add(id(obj))
    for obj, name, v in log.old.values():
        if id(obj) in new:
            continue
        if isinstance(obj, PDict):
            generalise_dict(I, obj, v)
        elif isinstance(obj, Inst):
            now = obj.fields.get(name)
            if v is now:
                continue
            if isinstance(now, (int, SInt)) and isinstance(v, (int, SInt)) and not isinstance(now, bool):
                I.write(obj, name)
                obj.fields[name] = mkint(p.int("after"))
            elif isinstance(now, Inst) and isinstance(v, Inst) and now.cls is v.cls:
                pass
            else:
                raise Unsupported(f"repeated change of {obj.cls.__name__}.{name}")
        elif isinstance(obj, ModelObj):
            if hasattr(obj, "generalise"):
                obj.generalise(I, v)
            elif not (hasattr(obj, "snapshot") and obj.snapshot() == v):
                raise Unsupported(f"repeated change of {obj!r}")
        elif isinstance(obj, (PList, PSet)):
            if id(obj) in created(I, obj, log) or list(v) == list(obj.items):
                continue
            raise Unsupported("repeated change of a list")
        else:
            raise Unsupported(f"repeated change of {obj!r}")
    return out


def UNBOUND_():
    from .interp import UNBOUND
    return UNBOUND


def created(I, obj, log):
    """lists that belong to objects made by the call"""
    out = set()
    for o, name, v in log.old.values():
        if isinstance(o, Inst) and v is UNBOUND_():
            for x in o.fields.values():
                if isinstance(x, (PList, PSet, PDict)):
                    out.add(id(x))
    return out


def generalise_dict(I, d, before):
    entries, base = before
    old = [k for k, _ in entries]
    fresh = [e for e in d.entries if not any(e[0] is k for k in old)]
    kept = [e for e in d.entries if any(e[0] is k for k in old)]
    if len(kept) != len(entries) or any(a[1] is not b[1] for a, b in zip(kept, entries)) or \
            (d.base is not base and base is None):
        raise Unsupported("repeated change of dictionary entries")
    if not fresh:
        return
    I.write(d, "entries")
    d.entries = [list(e) for e in d.entries]
    d.base = OpenDict(I.p.fresh_name("others"), [e[1] for e in fresh], [e[0] for e in d.entries], d.base)


def models():
    return {repeat: m_repeat}
