"""AST interpreter over symbolic values: the VC generator.

It executes the real functions of /repo (their AST is read from the source file
of the imported module on every run) and the harness functions of /verif/specs.
"""
import ast
import builtins
import enum
import inspect
import sys
import types
import z3

from .core import (Unsupported, PathEnd, Restart, Limit, simp, zi, zb)
from .values import *
from . import values as V
from . import bytesops as B


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class StopIter(Exception):
    pass


# ---------------------------------------------------------------------------
# source index

class FileIndex:
    def __init__(self, path):
        with open(path) as f:
            self.tree = ast.parse(f.read(), path)
        self.defs = {}
        self.lambdas = {}
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = node.lineno
                if node.decorator_list:
                    line = min(line, min(d.lineno for d in node.decorator_list))
                self.defs[(line, node.name)] = node
            elif isinstance(node, ast.Lambda):
                self.lambdas.setdefault(node.lineno, []).append(node)


_files = {}


def file_index(path):
    if path not in _files:
        _files[path] = FileIndex(path)
    return _files[path]


def function_node(fn):
    code = fn.__code__
    idx = file_index(code.co_filename)
    if code.co_name == "<lambda>":
        cands = idx.lambdas.get(code.co_firstlineno, [])
        if len(cands) == 1:
            return cands[0]
        for c in cands:
            args = [a.arg for a in c.args.posonlyargs + c.args.args]
            if tuple(args) == code.co_varnames[:code.co_argcount]:
                return c
        raise Unsupported("lambda source")
    node = idx.defs.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f"no source for {fn}")
    return node


class ScopeInfo:
    __slots__ = ("locals", "is_gen", "globals", "nonlocals")


_scopes = {}


def scope_info(node):
    s = _scopes.get(id(node))
    if s is not None:
        return s
    s = ScopeInfo()
    s.locals, s.globals, s.nonlocals = set(), set(), set()
    s.is_gen = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        s.locals.add(x.arg)
    if a.vararg:
        s.locals.add(a.vararg.arg)
    if a.kwarg:
        s.locals.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only the first iterable belongs to this scope; walrus targets leak
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    s.locals.add(sub.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            s.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            s.locals.add(n.name)
        if isinstance(n, ast.Global):
            s.globals.update(n.names)
        if isinstance(n, ast.Nonlocal):
            s.nonlocals.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                s.locals.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in body:
        walk(n)
    s.locals -= s.globals
    s.locals -= s.nonlocals
    _scopes[id(node)] = s
    return s


# ---------------------------------------------------------------------------

def getfield(obj, name):
    if isinstance(obj, Inst):
        return obj.fields[name]
    return getattr(obj, name)


def tags_equal(a, b):
    return all(int(getfield(a, f)) == int(getfield(b, f)) for f in ("cls", "number")) and \
        bool(getfield(a, "constructed")) == bool(getfield(b, "constructed"))


SYM = (SInt, SBool, SReal, SStr, SBytes)
ENGINE = (SInt, SBool, SReal, SStr, SBytes, Inst, AbsInst, PList, PTuple, ByteArr, PDict, PSet,
          SRange, BoundMethod, Closure, SuperObj, Builtin, WeakRef, Opaque, Poison)


def is_native(v):
    """deeply concrete value"""
    if isinstance(v, tuple):
        return all(is_native(x) for x in v)
    if isinstance(v, (list, set, frozenset)):
        return True
    if isinstance(v, ENGINE) or isinstance(v, (PIter, Seq, Range, ModelObj)):
        return False
    return True


class ModelObj(Heap):
    """Engine-side model of a library object."""

    cls = object

    def getattr(self, I, name):
        raise Unsupported(f"{type(self).__name__}.{name}")

    def setattr(self, I, name, value):
        raise Unsupported(f"set {type(self).__name__}.{name}")


class PIter:
    """Iterator over pending items (values / Range / byte segments)."""

    def __init__(self, items, exc=None, kind="list"):
        self.items = list(items)
        self.exc = exc
        self.kind = kind

    def next(self, I):
        p = P()
        while self.items:
            x = self.items[0]
            if isinstance(x, Range):
                if p.branch(zi(x.lo) < zi(x.hi)):
                    v = x.src.at(x.lo)
                    self.items[0] = Range(x.src, simp(x.lo + 1), x.hi)
                    return v
                self.items.pop(0)
                continue
            if isinstance(x, Seg):
                b, rest = B.head(self.items_prefix_segs())
                k = len(self.items_prefix_segs())
                self.items[0:k] = rest
                if b is None:
                    continue
                return mkint(b)
            self.items.pop(0)
            return x
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        raise StopIter()

    def items_prefix_segs(self):
        out = []
        for x in self.items:
            if not isinstance(x, Seg):
                break
            out.append(x)
        return out


class RangeIter:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def next(self, I):
        c = zi(self.lo) < zi(self.hi) if self.step > 0 else zi(self.lo) > zi(self.hi)
        if P().branch(c):
            v = mkint(self.lo)
            self.lo = simp(self.lo + self.step)
            return v
        raise StopIter()


class FnIter:
    """iterator given by an engine function raising StopIter"""

    def __init__(self, fn, parts=()):
        self.fn = fn
        self.parts = parts

    def next(self, I):
        return self.fn()


class GenIter:
    """Generator object: its body is run at the first next()."""

    def __init__(self, run):
        self.run = run
        self.buf = None

    def force(self):
        if self.buf is None:
            self.buf = self.run()
        return self.buf

    def next(self, I):
        return self.force().next(I)


ITERS = (PIter, RangeIter, FnIter, GenIter)


class Frame:
    __slots__ = ("env", "globals", "cls", "self", "node", "scope", "yields", "excs", "name",
                 "callpos", "parent", "line")

    def __init__(self):
        self.yields = None
        self.excs = []
        self.line = 0


RET, BRK, CNT = "ret", "brk", "cnt"


class Interp:
    def __init__(self, path, config):
        self.p = path
        self.cfg = config           # Config: contracts, builtins, roots
        self.frame = None
        self.depth = 0
        self.steps = 0
        self.writes = None          # write log (set while in loop bodies)
        self.writelogs = []
        V.CUR[0] = path

    # -- raising --------------------------------------------------------------
    def raise_(self, cls, *args):
        raise PyRaise(Inst(cls, {"args": tuple(args)}))

    def wrap_exc(self, e):
        if __import__("os").environ.get("PYVC_EXC"): __import__("traceback").print_stack(limit=9); print("EXC", repr(e))
        return PyRaise(Inst(type(e), {"args": tuple(e.args)}))

    # -- truth ----------------------------------------------------------------
    def truth(self, v):
        p = self.p
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return p.branch(v.t)
        if isinstance(v, SInt):
            return p.branch(zi(v.t) != 0)
        if isinstance(v, SReal):
            return p.branch(v.t != 0)
        if isinstance(v, (SBytes, ByteArr)):
            return p.branch(zi(blen(v)) > 0)
        if isinstance(v, (PList, PTuple)):
            n = items_len(v.items)
            return p.branch(zi(n) > 0)
        if isinstance(v, PDict):
            if v.base is None:
                return bool(v.entries)
            return self.truth(v.base.nonempty(self, v))
        if isinstance(v, PSet):
            if v.base is None:
                return bool(v.items)
            return self.truth(v.base.nonempty(self, v))
        if isinstance(v, SStr):
            return p.branch(v.t != str_id(""))
        if isinstance(v, Poison):
            raise Unsupported(f"uses {v.name} carried over loop")
        if isinstance(v, (BoundMethod, Closure, Builtin, WeakRef) + ITERS):
            return True
        if isinstance(v, SRange):
            return p.branch(zi(v.lo) < zi(v.hi))
        if isinstance(v, ModelObj):
            f = getattr(v, "truth", None)
            return f(self) if f else True
        if isinstance(v, AbsInst):
            if self.cfg.lookup(v.cls, "__bool__") is None and self.cfg.lookup(v.cls, "__len__") is None:
                return True
            raise Unsupported(f"truth of {v}")
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v}")
        cls = self.type_of(v)
        if isinstance(v, int) and cls.__bool__ is int.__bool__:
            return bool(v)
        if self.is_user_class(cls):
            m = self.lookup(cls, "__bool__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v, cls), [], {}))
            m = self.lookup(cls, "__len__")
            if m is not None:
                n = self.call(self.bind(m, v, cls), [], {})
                if not is_intlike(n):
                    self.raise_(TypeError, "'__len__' must return an integer")
                if self.truth(self.compare("<", n, 0)):
                    self.raise_(ValueError, "__len__() should return >= 0")
                return self.truth(n)
            return True
        return bool(v)

    # -- types ------------------------------------------------------------------
    def type_of(self, v):
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, AbsInst):
            return v.cls
        if isinstance(v, SInt):
            return v.cls or int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SReal):
            return float
        if isinstance(v, SStr):
            return str
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, ByteArr):
            return bytearray
        if isinstance(v, PList):
            return list
        if isinstance(v, PTuple):
            return tuple
        if isinstance(v, PDict):
            return dict
        if isinstance(v, PSet):
            return set
        if isinstance(v, SRange):
            return range
        if isinstance(v, (BoundMethod,)):
            return types.MethodType
        if isinstance(v, Closure):
            return types.FunctionType
        if isinstance(v, Builtin):
            return types.BuiltinFunctionType
        if isinstance(v, GenIter):
            return types.GeneratorType
        if isinstance(v, ITERS):
            return type(iter(()))
        if isinstance(v, ModelObj):
            return v.cls
        if isinstance(v, WeakRef):
            import weakref
            return weakref.ref
        if isinstance(v, PSlice):
            return slice
        if isinstance(v, Poison):
            raise Unsupported(f"type of {v.name} carried over loop")
        if isinstance(v, Opaque):
            return getattr(v, "cls", object)
        return type(v)

    def is_user_class(self, cls):
        return self.cfg.is_user_module(getattr(cls, "__module__", None))

    def lookup(self, cls, name):
        """static MRO lookup; None when absent"""
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if c is object:
                    return None
                return v
        return None

    def bind(self, attr, obj, cls):
        """descriptor protocol on instance access"""
        if isinstance(attr, types.FunctionType):
            return BoundMethod(attr, obj)
        if isinstance(attr, classmethod):
            return BoundMethod(attr.__func__, cls)
        if isinstance(attr, staticmethod):
            return attr.__func__
        if isinstance(attr, property):
            return self.call(attr.fget, [obj], {})
        if isinstance(attr, types.MemberDescriptorType):
            return UNBOUND
        return attr

    # -- attributes ---------------------------------------------------------------
    def getattr(self, obj, name):
        v = self.getattr_opt(obj, name)
        if v is UNBOUND:
            self.raise_(AttributeError, f"{self.type_of(obj).__name__!r} has no attribute {name!r}")
        return v

    def getattr_opt(self, obj, name):
        if isinstance(obj, Inst):
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                return PDict([(k, v) for k, v in obj.fields.items()])
            attr = self.lookup(obj.cls, name)
            if attr is not None and isinstance(attr, property):
                return self.bind(attr, obj, obj.cls)
            if name in obj.fields:
                return obj.fields[name]
            if attr is not None:
                if isinstance(attr, (types.FunctionType, classmethod, staticmethod, property)):
                    return self.bind(attr, obj, obj.cls)
                if isinstance(attr, types.MemberDescriptorType):
                    return UNBOUND
                if issubclass(obj.cls, BaseException) and name in ("with_traceback", "add_note"):
                    return Builtin(name, lambda *a, **k: obj)
                if isinstance(attr, (types.WrapperDescriptorType, types.MethodDescriptorType,
                                     types.GetSetDescriptorType)):
                    return self.object_slot(obj, name)
                return attr
            if issubclass(obj.cls, BaseException) and name in ("__cause__", "__context__", "__traceback__"):
                return obj.fields.get(name)
            slot = self.object_slot(obj, name)
            if slot is not UNBOUND:
                return slot
            g = self.lookup(obj.cls, "__getattr__")
            if g is not None:
                return self.call(g, [obj, name], {})
            return UNBOUND
        if isinstance(obj, AbsInst):
            if name == "__class__":
                return obj.cls
            if obj.spec is not None:
                v = obj.spec(self, obj, name)
                if v is not UNBOUND:
                    return v
            attr = self.lookup(obj.cls, name)
            if isinstance(attr, (types.FunctionType, classmethod, staticmethod)):
                return self.bind(attr, obj, obj.cls)
            if attr is not None and not isinstance(attr, property):
                return attr
            raise Unsupported(f"attribute {name} of {obj}")
        if isinstance(obj, ModelObj):
            return obj.getattr(self, name)
        if isinstance(obj, SuperObj):
            mro = self.type_of(obj.obj).__mro__ if not isinstance(obj.obj, type) else obj.obj.__mro__
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    attr = c.__dict__[name]
                    if isinstance(attr, types.FunctionType):
                        return BoundMethod(attr, obj.obj)
                    if isinstance(attr, classmethod):
                        o = obj.obj if isinstance(obj.obj, type) else self.type_of(obj.obj)
                        return BoundMethod(attr.__func__, o)
                    if isinstance(attr, staticmethod):
                        return attr.__func__
                    if isinstance(attr, property):
                        return self.call(attr.fget, [obj.obj], {})
                    if name == "__init__":
                        return Builtin("init", lambda *a, **k: self.builtin_init(c, obj.obj, a, k))
                    if name == "__new__":
                        return Builtin("new", lambda k, *a, **kw: Inst(k))
                    if c is object:
                        return self.object_slot(obj.obj, name, force=True)
                    return attr
            return UNBOUND
        if isinstance(obj, Poison):
            raise Unsupported(f"attribute of {obj.name} carried over loop")
        if isinstance(obj, SInt):
            if name == "value" and obj.cls:
                return SInt(obj.t, obj.tz)
            if name == "name" and obj.cls:
                return SStr(self.p.int("ename"))
            if name in ("real", "numerator"):
                return obj
            if name == "__class__":
                return obj.cls or int
            if obj.cls is not None:
                attr = self.lookup(obj.cls, name)
                if isinstance(attr, types.FunctionType) and self.is_user_class(obj.cls):
                    return BoundMethod(attr, obj)
        if isinstance(obj, type):
            return self.class_attr(obj, name)
        if isinstance(obj, Closure):
            if name == "__name__":
                return obj.name
            return obj.fields.get(name, UNBOUND)
        if isinstance(obj, BoundMethod):
            if name == "__self__":
                return obj.self
            if name == "__func__":
                return obj.fn
            if name == "__name__":
                return obj.fn.__name__
            return UNBOUND
        if isinstance(obj, (SYM, PList, PTuple, PDict, PSet, ByteArr, SRange) + ITERS) or \
                isinstance(obj, (int, bytes, str, tuple, list, dict, set, frozenset, float,
                                 bytearray, memoryview)):
            if name == "__class__":
                return self.type_of(obj)
            if isinstance(obj, tuple) and hasattr(type(obj), "_fields") and name in type(obj)._fields:
                return obj[type(obj)._fields.index(name)]
            if isinstance(obj, enum.Enum):
                attr = self.lookup(type(obj), name)
                if isinstance(attr, (types.FunctionType, classmethod, staticmethod)) \
                        and self.is_user_class(type(obj)):
                    return self.bind(attr, obj, type(obj))
                return getattr(obj, name)
            if self.is_user_class(type(obj)):
                attr = self.lookup(type(obj), name)
                if isinstance(attr, (types.FunctionType, classmethod, staticmethod, property)):
                    return self.bind(attr, obj, type(obj))
            from . import lib
            return lib.method(self, obj, name)
        if isinstance(obj, types.ModuleType):
            return getattr(obj, name, UNBOUND)
        if isinstance(obj, (WeakRef, Builtin, Opaque)):
            f = getattr(obj, "attr", None)
            if f:
                return f(self, name)
            raise Unsupported(f"attribute {name} of {obj}")
        # native object
        cls = type(obj)
        if self.is_user_class(cls):
            attr = self.lookup(cls, name)
            if attr is not None and isinstance(attr, property):
                return self.bind(attr, obj, cls)
            d = getattr(obj, "__dict__", {})
            if name in d:
                return d[name]
            if name == "__class__":
                return cls
            if attr is not None and isinstance(attr, (types.FunctionType, classmethod, staticmethod)):
                return self.bind(attr, obj, cls)
            slot = self.object_slot(obj, name)
            if slot is not UNBOUND:
                return slot
        try:
            return getattr(obj, name)
        except AttributeError:
            return UNBOUND

    def object_slot(self, obj, name, force=False):
        """methods inherited from object / BaseException"""
        cls = self.type_of(obj)
        if name == "__eq__":
            return Builtin("object.__eq__", lambda o: True if o is obj else NotImplemented)
        if name == "__ne__":
            def ne(o):
                m = self.lookup(cls, "__eq__")
                if m is None:
                    return False if o is obj else NotImplemented
                r = self.call(self.bind(m, obj, cls), [o], {})
                return r if r is NotImplemented else self.not_(r)
            return Builtin("object.__ne__", ne)
        if name == "__hash__":
            return Builtin("object.__hash__", lambda: self.hash(obj, identity=True))
        if name == "__init__":
            return Builtin("init", lambda *a, **k: self.builtin_init(object, obj, a, k))
        if name in ("__repr__", "__str__"):
            return Builtin(name, lambda: SStr(self.p.int("text")))
        if name == "__class__":
            return cls
        if name == "__setattr__":
            return Builtin(name, lambda n, v: self.setattr(obj, n, v))
        return UNBOUND

    def class_attr(self, cls, name):
        if name in ("__name__", "__qualname__", "__module__", "__mro__", "__dict__", "__bases__"):
            return getattr(cls, name)
        if name == "__class__":
            return type(cls)
        for c in cls.__mro__:
            if name in c.__dict__:
                attr = c.__dict__[name]
                if isinstance(attr, classmethod):
                    return BoundMethod(attr.__func__, cls)
                if isinstance(attr, staticmethod):
                    return attr.__func__
                if isinstance(attr, types.FunctionType):
                    return attr
                if isinstance(attr, property):
                    return attr
                if self.is_user_class(c) and not isinstance(cls, enum.EnumMeta):
                    return attr
                break
        from . import lib
        v = lib.class_method(self, cls, name)
        if v is not None:
            return v
        try:
            return getattr(cls, name)
        except AttributeError:
            return UNBOUND

    def setattr(self, obj, name, value):
        if isinstance(obj, Inst):
            attr = self.lookup(obj.cls, name)
            if isinstance(attr, property):
                if attr.fset is None:
                    self.raise_(AttributeError, f"property {name!r} has no setter")
                self.call(attr.fset, [obj, value], {})
                return
            s = self.lookup(obj.cls, "__setattr__")
            if isinstance(s, types.FunctionType):
                self.call(s, [obj, name, value], {})
                return
            self.write(obj, name)
            obj.fields[name] = value
            return
        if isinstance(obj, ModelObj):
            self.write(obj, name)
            obj.setattr(self, name, value)
            return
        if isinstance(obj, Closure):
            obj.fields[name] = value
            return
        raise Unsupported(f"assignment to attribute {name} of {obj!r}")

    def write(self, obj, name, old=None):
        """log a heap write (frame check of loops, rollback of nested runs)"""
        for log in self.writelogs:
            log.note(obj, name)

    # -- instantiation ------------------------------------------------------------
    def builtin_init(self, owner, obj, args, kwargs):
        cls = self.type_of(obj)
        if issubclass(cls, BaseException):
            self.write(obj, "args")
            obj.fields["args"] = tuple(args)
            return None
        if args or kwargs:
            self.raise_(TypeError, f"{cls.__name__}() takes no arguments")
        return None

    def instantiate(self, cls, args, kwargs):
        h = self.cfg.constructors.get(cls)
        if h is not None:
            return h(self, *args, **kwargs)
        from . import lib
        if not self.is_user_class(cls):
            h = lib.constructor(self, cls)
            if h is not None:
                return h(*args, **kwargs)
            if isinstance(cls, type) and issubclass(cls, BaseException):
                return Inst(cls, {"args": tuple(args)})
            if issubclass(cls, enum.Enum):
                return self.enum_value(cls, args[0])
            if all(is_native(a) for a in args) and all(is_native(a) for a in kwargs.values()):
                return self.native_call(cls, args, kwargs)
            raise Unsupported(f"constructor {cls}")
        if issubclass(cls, enum.Enum):
            return self.enum_value(cls, args[0])
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            try:
                return cls(*args, **kwargs)
            except TypeError as e:
                raise self.wrap_exc(e)
        if getattr(cls, "__abstractmethods__", None):
            self.raise_(TypeError, f"Can't instantiate abstract class {cls.__name__}")
        if issubclass(cls, (int, bytes, str, dict, list, set)) :
            raise Unsupported(f"subclass of builtin {cls}")
        new = self.lookup(cls, "__new__")
        if isinstance(new, staticmethod) and isinstance(new.__func__, types.FunctionType) \
                and self.cfg.is_user_module(new.__func__.__module__):
            obj = self.call(new.__func__, [cls] + list(args), kwargs)
            if not (isinstance(obj, Inst) and issubclass(obj.cls, cls)):
                return obj
        else:
            obj = Inst(cls)
        if issubclass(cls, BaseException):
            obj.fields["args"] = tuple(args)
        init = None
        for c in cls.__mro__:
            if "__init__" in c.__dict__:
                init = c.__dict__["__init__"]
                owner = c
                break
        if isinstance(init, types.FunctionType) and owner is not types.GenericAlias:
            if self.cfg.is_user_module(init.__module__):
                self.call(init, [obj] + list(args), kwargs)
                return obj
        if issubclass(cls, BaseException):
            return obj
        self.builtin_init(object, obj, args, kwargs)
        return obj

    def enum_value(self, cls, v):
        if isinstance(v, SBool):
            v = mkint(it(v))
        if isinstance(v, SInt):
            members = list(cls)
            vals = [int(m) for m in members]
            cond = z3.Or(*[v.t == x for x in vals])
            if self.p.branch(cond):
                return SInt(v.t, v.tz, cls)
            self.raise_(ValueError, f"not a valid {cls.__name__}")
        if not is_native(v):
            raise Unsupported("enum of symbolic value")
        try:
            return cls(v)
        except ValueError as e:
            raise self.wrap_exc(e)

    # -- calls --------------------------------------------------------------------
    def native_call(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise self.wrap_exc(e)

    def call(self, f, args, kwargs):
        if isinstance(f, BoundMethod):
            if isinstance(f.fn, (types.FunctionType, Closure)):
                return self.call(f.fn, [f.self] + list(args), kwargs)
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, types.FunctionType):
            h = self.cfg.models.get(f)
            if h is not None:
                return h(self, *args, **kwargs)
            if self.cfg.is_user_module(f.__module__):
                c = self.cfg.contract(f)
                if c is not None:
                    r = c(self, args, kwargs)
                    if r is not NotImplemented:
                        self.p.ex.functions.add("contract:" + f.__module__ + "." + f.__qualname__)
                        return r
                return self.call_function(f, args, kwargs)
            from . import lib
            h = lib.function(self, f)
            if h is not None:
                return h(*args, **kwargs)
            if self.all_native(args, kwargs) and self.cfg.pure(f):
                return self.native_call(f, args, kwargs)
            raise Unsupported(f"call of {f.__module__}.{f.__qualname__}")
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate_type(f, args, kwargs)
        if isinstance(f, WeakRef):
            return self.deref(f)
        if isinstance(f, ModelObj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, (Inst, AbsInst)):
            m = self.lookup(f.cls, "__call__")
            if m is None:
                self.raise_(TypeError, f"{f.cls.__name__!r} object is not callable")
            return self.call(self.bind(m, f, f.cls), args, kwargs)
        if isinstance(f, Poison):
            raise Unsupported("call of poisoned value")
        if isinstance(f, Opaque):
            raise Unsupported(f"call of {f}")
        if isinstance(f, types.MethodType):
            h = self.cfg.models.get(f)
            if h is not None:
                return h(self, *args, **kwargs)
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        from . import lib
        h = lib.function(self, f)
        if h is not None:
            return h(*args, **kwargs)
        if isinstance(f, types.GenericAlias):
            return self.call(f.__origin__, args, kwargs)
        if f is None or isinstance(f, (int, str, bytes, tuple)):
            self.raise_(TypeError, f"{type(f).__name__!r} object is not callable")
        if self.is_user_class(type(f)):
            m = self.lookup(type(f), "__call__")
            if m is not None:
                return self.call(self.bind(m, f, type(f)), args, kwargs)
        if self.all_native(args, kwargs) and self.cfg.pure(f):
            return self.native_call(f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def all_native(self, args, kwargs):
        return all(is_native(a) for a in args) and all(is_native(a) for a in kwargs.values())

    def instantiate_type(self, cls, args, kwargs):
        if cls is type and len(args) == 1:
            return self.type_of(args[0])
        from . import lib
        h = lib.function(self, cls)
        if h is not None:
            return h(*args, **kwargs)
        return self.instantiate(cls, args, kwargs)

    def deref(self, w):
        if w.obj is None or id(w.obj) in self.p.__dict__.get("dead", ()):
            return None
        if w.alive is None:
            return w.obj
        if self.truth(mkbool(w.alive) if not isinstance(w.alive, bool) else w.alive):
            return w.obj
        return None

    def call_function(self, f, args, kwargs):
        node = function_node(f)
        self.p.ex.functions.add(f.__module__ + "." + f.__qualname__)
        env = Cell(self.closure_env(f))
        fr = Frame()
        fr.globals = f.__globals__
        fr.cls = None
        if "__class__" in f.__code__.co_freevars:
            i = f.__code__.co_freevars.index("__class__")
            try:
                fr.cls = f.__closure__[i].cell_contents
            except ValueError:
                pass
        kwd = f.__kwdefaults__ or {}
        return self.run_body(fr, node, env, args, kwargs, f.__defaults__ or (), kwd,
                             f.__qualname__, f.__globals__)

    def closure_env(self, f):
        if not f.__closure__:
            return None
        env = Cell(None)
        for n, c in zip(f.__code__.co_freevars, f.__closure__):
            try:
                env.vars[n] = c.cell_contents
            except ValueError:
                pass
        return env

    def call_closure(self, f, args, kwargs):
        env = Cell(f.env)
        fr = Frame()
        fr.globals = f.frame.globals
        fr.cls = f.frame.cls
        return self.run_body(fr, f.node, env, args, kwargs, f.defaults, f.kwdefaults, f.name,
                             f.frame.globals)

    def run_body(self, fr, node, env, args, kwargs, defaults, kwdefaults, name, globs):
        fr.env = env
        fr.node = node
        fr.scope = scope_info(node)
        fr.name = name
        fr.parent = self.frame
        fr.callpos = self.frame.line if self.frame is not None else 0
        self.bind_args(node.args, env, args, kwargs, defaults, kwdefaults, name)
        pos = node.args.posonlyargs + node.args.args
        fr.self = env.vars[pos[0].arg] if pos else None
        if fr.scope.is_gen:
            return GenIter(lambda: self.run_generator(fr))
        return self.exec_frame(fr)

    def exec_frame(self, fr):
        saved = self.frame
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion depth")
        self.frame = fr
        try:
            if isinstance(fr.node, ast.Lambda):
                return self.eval(fr.node.body)
            r = self.exec_block(fr.node.body)
            if r is not None and r[0] is RET:
                return r[1]
            return None
        finally:
            self.frame = saved
            self.depth -= 1

    def run_generator(self, fr):
        fr.yields = PList()
        exc = None
        try:
            self.exec_frame(fr)
        except PyRaise as e:
            exc = e
            if issubclass(self.type_of(e.exc), StopIteration):
                exc = PyRaise(Inst(RuntimeError, {"args": ("generator raised StopIteration",)}))
        return PIter(fr.yields.items, exc)

    def bind_args(self, a, env, args, kwargs, defaults, kwdefaults, name):
        args = list(args)
        kwargs = dict(kwargs)
        pos = a.posonlyargs + a.args
        vars_ = env.vars
        if any(isinstance(x, Range) for x in args):
            # abstract *args: only a vararg may absorb them
            k = next(i for i, x in enumerate(args) if isinstance(x, Range))
            if a.vararg is None or k < len(pos):
                raise Unsupported("abstract argument list")
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.raise_(TypeError, f"{name}() takes {n} positional arguments but {len(args)} were given")
        for i, x in enumerate(pos):
            if i < len(args):
                if x.arg in kwargs and x not in a.posonlyargs:
                    self.raise_(TypeError, f"{name}() got multiple values for argument {x.arg!r}")
                vars_[x.arg] = args[i]
            elif x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            else:
                d = i - (n - len(defaults))
                if d < 0:
                    self.raise_(TypeError, f"{name}() missing required argument: {x.arg!r}")
                vars_[x.arg] = defaults[d]
        if a.vararg is not None:
            vars_[a.vararg.arg] = mktuple(args[n:])
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                vars_[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f"{name}() missing keyword-only argument {x.arg!r}")
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = PDict(list(kwargs.items()))
        elif kwargs:
            k = next(iter(kwargs))
            self.raise_(TypeError, f"{name}() got an unexpected keyword argument {k!r}")

    # -- names ------------------------------------------------------------------
    def load_name(self, name):
        fr = self.frame
        env = fr.env
        while env is not None:
            if name in env.vars:
                v = env.vars[name]
                if isinstance(v, Poison):
                    info = self.p.ex.loops.get(v.key)
                    if info is not None and not info.peel:
                        info.peel = True
                        raise Restart()
                    raise Unsupported(f"{name} carried over loop")
                return v
            env = env.parent
        if name in fr.scope.locals:
            self.raise_(UnboundLocalError, f"cannot access local variable {name!r}")
        if name in fr.globals:
            ov = self.cfg.global_override(fr.globals, name)
            if ov is not None:
                return ov
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, f"name {name!r} is not defined")

    def store_name(self, name, v):
        fr = self.frame
        if name in fr.scope.nonlocals:
            env = fr.env.parent
            while env is not None:
                if name in env.vars:
                    env.vars[name] = v
                    return
                env = env.parent
        if name in fr.scope.globals:
            raise Unsupported("global assignment")
        env = fr.env
        env.vars[name] = v

    # -- statements -----------------------------------------------------------------
    def exec_block(self, body):
        for s in body:
            r = self.exec(s)
            if r is not None:
                return r
        return None

    def exec(self, s):
        self.steps += 1
        if self.steps > 400000:
            raise Limit("too many steps on a path")
        fr = self.frame
        fr.line = getattr(s, "lineno", fr.line)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value)

    def x_Pass(self, s):
        return None

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            self.store_name(t.id, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_slice(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(s.value)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        from . import lib
        if isinstance(a, PList) and op == "Add":
            lib.list_extend(self, a, b)
            return a
        if isinstance(a, ByteArr) and op == "Add":
            self.write(a, "segs")
            a.segs = rope_norm(a.segs + tuple(rope(b)))
            return a
        if isinstance(a, PSet) and op == "BitOr":
            lib.set_update(self, a, b)
            return a
        if isinstance(a, (Inst,)):
            names = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__", "BitAnd": "__iand__"}
            m = self.lookup(a.cls, names.get(op, "__none__"))
            if m is not None:
                return self.call(m, [a, b], {})
        return self.binop(op, a, b)

    def x_Return(self, s):
        return (RET, None if s.value is None else self.eval(s.value))

    def x_Break(self, s):
        return (BRK,)

    def x_Continue(self, s):
        return (CNT,)

    def x_If(self, s):
        if self.truth(self.eval(s.test)):
            return self.exec_block(s.body)
        return self.exec_block(s.orelse)

    def x_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            args = () if s.msg is None else (self.eval(s.msg),)
            self.raise_(AssertionError, *args)

    def x_While(self, s):
        from . import loops
        return loops.while_loop(self, s)

    def x_For(self, s):
        from . import loops
        return loops.for_loop(self, s)

    def x_Raise(self, s):
        fr = self.frame
        if s.exc is None:
            f = fr
            if f.excs:
                raise PyRaise(f.excs[-1])
            self.raise_(RuntimeError, "No active exception to reraise")
        e = self.eval(s.exc)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.instantiate(e, [], {})
        if isinstance(e, BaseException):
            e = Inst(type(e), {"args": e.args})
        if isinstance(e, Poison) or not (isinstance(e, Inst) and issubclass(e.cls, BaseException)):
            self.raise_(TypeError, "exceptions must derive from BaseException")
        if s.cause is not None:
            e.fields["__cause__"] = self.eval(s.cause)
        raise PyRaise(e)

    def x_Try(self, s):
        fr = self.frame
        r = None
        pending = None
        try:
            try:
                r = self.exec_block(s.body)
            except PyRaise as e:
                self.frame = fr
                h = self.find_handler(s.handlers, e.exc)
                if h is None:
                    raise
                r = self.run_handler(h, e.exc)
            else:
                if r is None:
                    r = self.exec_block(s.orelse)
        except PyRaise as e:
            self.frame = fr
            pending = e
        if s.finalbody:
            r2 = self.exec_block(s.finalbody)
            if r2 is not None:
                return r2
        if pending is not None:
            raise pending
        return r

    def find_handler(self, handlers, exc):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type)
            ts = t if isinstance(t, tuple) else (t,)
            if any(issubclass(exc.cls, x) for x in ts):
                return h
        return None

    def run_handler(self, h, exc):
        fr = self.frame
        if h.name:
            self.store_name(h.name, exc)
        fr.excs.append(exc)
        try:
            return self.exec_block(h.body)
        except PyRaise as e:
            if e.exc is not exc and "__context__" not in e.exc.fields:
                e.exc.fields["__context__"] = exc
            raise
        finally:
            fr.excs.pop()
            if h.name and h.name in fr.env.vars:
                del fr.env.vars[h.name]

    def x_With(self, s):
        return self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            return self.exec_block(body)
        fr = self.frame
        item = items[0]
        cm = self.eval(item.context_expr)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v)
        try:
            r = self.with_items(items[1:], body)
        except PyRaise as e:
            self.frame = fr
            if self.truth(self.call(exit_, [e.exc.cls, e.exc, None], {})):
                return None
            raise
        self.call(exit_, [None, None, None], {})
        return r

    def x_Delete(self, s):
        from . import lib
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in self.frame.env.vars:
                    self.raise_(UnboundLocalError, t.id)
                del self.frame.env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                lib.delitem(self, self.eval(t.value), self.eval_slice(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Inst):
                    if t.attr not in o.fields:
                        self.raise_(AttributeError, t.attr)
                    self.write(o, t.attr)
                    del o.fields[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del target")

    def x_Global(self, s):
        return None

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for al in s.names:
            m = __import__(al.name)
            if al.asname:
                m = sys.modules[al.name]
            self.store_name((al.asname or al.name).split(".")[0], m)

    def x_ImportFrom(self, s):
        import importlib
        pkg = self.frame.globals.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for al in s.names:
            self.store_name(al.asname or al.name, getattr(m, al.name))

    def x_FunctionDef(self, s):
        f = self.make_closure(s, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d), [f], {})
        self.store_name(s.name, f)

    def make_closure(self, node, name):
        a = node.args
        defaults = tuple(self.eval(d) for d in a.defaults)
        kwd = {x.arg: self.eval(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, self.frame.env, self.frame, defaults, kwd, name)

    def x_Match(self, s):
        raise Unsupported("match statement")

    # -- assignment targets ------------------------------------------------------------
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.items_of(v)
                if any(isinstance(x, Range) for x in items):
                    raise Unsupported("starred unpacking of abstract sequence")
                i = star[0]
                after = n - i - 1
                if len(items) < n - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, PList(items[i:len(items) - after]))
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x)
                return
            items = self.unpack(v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PList) and not any(isinstance(x, Range) for x in v.items):
            items = list(v.items)
        else:
            itr = self.iter(v)
            items = []
            for _ in range(n + 1):
                try:
                    items.append(itr.next(self))
                except StopIter:
                    break
        if len(items) > n:
            self.raise_(ValueError, f"too many values to unpack (expected {n})")
        if len(items) < n:
            self.raise_(ValueError, f"not enough values to unpack (expected {n}, got {len(items)})")
        return items

    def assign_comp(self, t, v):
        """bind a comprehension target in the innermost scope"""
        if isinstance(t, ast.Name):
            self.frame.env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign_comp(e, x)
        else:
            raise Unsupported("comprehension target")

    # -- iteration -------------------------------------------------------------------
    def iter(self, v):
        """engine iterator for a value"""
        if isinstance(v, ITERS):
            return v
        if isinstance(v, (PList, PTuple)):
            return PIter(v.items)
        if isinstance(v, (SBytes, ByteArr)):
            return PIter(rope(v), kind="bytes")
        if isinstance(v, SRange):
            return RangeIter(v.lo, v.hi, v.step)
        if isinstance(v, PDict):
            if v.base is not None:
                return v.base.iter(self, v)
            return PIter([k for k, _ in v.entries])
        if isinstance(v, PSet):
            if v.base is not None:
                return v.base.iter(self, v)
            return PIter(v.items)
        if isinstance(v, (Inst, AbsInst)) or self.is_user_class(type(v)) and not isinstance(v, (type, tuple)):
            cls = self.type_of(v)
            m = self.lookup(cls, "__iter__")
            if m is not None:
                r = self.call(self.bind(m, v, cls), [], {})
                return self.iter_result(r)
            m = self.lookup(cls, "__getitem__")
            if m is not None:
                raise Unsupported("iteration by __getitem__")
            self.raise_(TypeError, f"{cls.__name__!r} object is not iterable")
        if isinstance(v, ModelObj):
            f = getattr(v, "iter", None)
            if f is None:
                self.raise_(TypeError, "object is not iterable")
            return f(self)
        if isinstance(v, (SInt, SBool, SReal, int, float)) or v is None:
            self.raise_(TypeError, f"{self.type_of(v).__name__!r} object is not iterable")
        if isinstance(v, SStr):
            raise Unsupported("iteration over opaque string")
        if isinstance(v, Poison):
            raise Unsupported("iteration over poisoned value")
        if isinstance(v, dict):
            return PIter(list(v.keys()))
        try:
            return PIter(list(v))
        except TypeError as e:
            raise self.wrap_exc(e)

    def iter_result(self, r):
        """value returned by __iter__"""
        if isinstance(r, ITERS):
            return r
        if isinstance(r, (Inst, AbsInst)):
            m = self.lookup(r.cls, "__next__")
            if m is None:
                self.raise_(TypeError, "iter() returned non-iterator")
            return FnIter(lambda: self.next_user(r, m))
        if isinstance(r, ModelObj):
            return r.iter(self)
        try:
            return PIter(list(r))
        except TypeError as e:
            raise self.wrap_exc(e)

    def next_user(self, r, m):
        try:
            return self.call(self.bind(m, r, r.cls), [], {})
        except PyRaise as e:
            if issubclass(e.exc.cls, StopIteration):
                raise StopIter()
            raise

    def items_of(self, v):
        """all items (values and Ranges) of an iterable"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PTuple):
            return list(v.items)
        if isinstance(v, PList):
            return list(v.items)
        if isinstance(v, PSet) and v.base is None:
            return list(v.items)
        if isinstance(v, PDict) and v.base is None:
            return [k for k, _ in v.entries]
        if isinstance(v, (bytes, bytearray)):
            return list(v)
        itr = self.iter(v)
        if isinstance(itr, GenIter):
            itr = itr.force()
        if isinstance(itr, PIter):
            out = []
            while itr.items:
                x = itr.items[0]
                if isinstance(x, Seg):
                    segs = itr.items_prefix_segs()
                    seg = segs[0]
                    if isinstance(seg, Sub) and not isinstance(seg.n, int):
                        from . import lib
                        out.append(lib.sub_range(seg))
                        itr.items.pop(0)
                        continue
                    if isinstance(seg, RangeSeg):
                        raise Unsupported("items of byte family")
                    n = seg.n
                    if not isinstance(n, int):
                        itr.items[0:1] = B.expand(seg)
                        continue
                    for _ in range(n):
                        out.append(itr.next(self))
                    continue
                out.append(x)
                itr.items.pop(0)
            if itr.exc is not None:
                e, itr.exc = itr.exc, None
                raise e
            return norm_items(out)
        if isinstance(itr, RangeIter):
            n = simp(zi(itr.hi) - zi(itr.lo))
            if itr.step == 1:
                if isinstance(n, int) and isinstance(itr.lo, int):
                    return list(range(itr.lo, itr.hi))
                lo = itr.lo
                if self.p.branch(zi(itr.lo) <= zi(itr.hi)):
                    return [Range(Seq("range", lambda k: mkint(zi(lo) + zi(k))), 0, n)]
                return []
        out = []
        from . import loops
        limit = loops.UNROLL
        while True:
            try:
                out.append(itr.next(self))
            except StopIter:
                return out
            if len(out) > 4096:
                raise Unsupported("long iteration")

    # -- expressions ------------------------------------------------------------------
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Tuple(self, e):
        return mktuple(self.elts(e.elts))

    def e_List(self, e):
        return PList(self.elts(e.elts))

    def e_Set(self, e):
        from . import lib
        s = PSet()
        for x in self.elts(e.elts):
            lib.set_add(self, s, x)
        return s

    def e_Dict(self, e):
        from . import lib
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                lib.dict_update(self, d, self.eval(v))
            else:
                kk = self.eval(k)
                lib.dict_set(self, d, kk, self.eval(v))
        return d

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items_of(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_Call(self, e):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if self.load_name("super") is builtins.super:
                fr = self.frame
                while fr is not None and fr.cls is None:
                    fr = fr.parent
                return SuperObj(self.frame.cls, self.frame.self, None)
        f = self.eval(e.func)
        args = self.elts(e.args)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, PDict) and d.base is None:
                    for kk, vv in d.entries:
                        if kk in kwargs:
                            self.raise_(TypeError, "multiple values for keyword argument")
                        kwargs[kk] = vv
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported("** of abstract mapping")
            else:
                kwargs[k.arg] = self.eval(k.value)
        line = self.frame.line
        self.frame.line = e.lineno
        try:
            return self.call(f, args, kwargs)
        finally:
            self.frame.line = line

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def not_(self, v):
        if isinstance(v, SBool):
            return mkbool(z3.Not(v.t))
        return not self.truth(v)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return self.not_(v)
        if isinstance(v, SBool):
            v = mkint(it(v))
        if isinstance(v, SInt):
            if op == "USub":
                return mkint(-v.t)
            if op == "UAdd":
                return v
            if op == "Invert":
                return mkint(-v.t - 1)
        if isinstance(v, SReal):
            if op == "USub":
                return SReal(-v.t)
            return v
        if isinstance(v, Inst):
            m = self.lookup(v.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m is not None:
                return self.call(m, [v], {})
            self.raise_(TypeError, f"bad operand type for unary {op}")
        if not is_native(v):
            self.raise_(TypeError, f"bad operand type for unary {op}")
        try:
            return {"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[op](v)
        except TypeError as ex:
            raise self.wrap_exc(ex)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import arith
        return arith.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            res = self.compare(OPS[type(op).__name__], left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import arith
        return arith.compare(self, op, a, b)

    def eq(self, a, b):
        return self.compare("==", a, b)

    def e_IfExp(self, e):
        if self.truth(self.eval(e.test)):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def e_Lambda(self, e):
        return self.make_closure(e, "<lambda>")

    def e_JoinedStr(self, e):
        parts = []
        concrete = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value)
            spec = ""
            if v.format_spec is not None:
                spec = self.eval(v.format_spec)
            s = self.fmt(x, spec, {-1: "s" if False else "", 115: "s", 114: "r", 97: "r"}[v.conversion])
            if not isinstance(s, str):
                concrete = False
            parts.append(s)
        if concrete:
            return "".join(parts)
        return SStr(self.p.int("fstr"), ("cat", parts))

    def fmt(self, x, spec, conv):
        if is_native(x) and not self.is_user_class(type(x)) and isinstance(spec, str) \
                and not isinstance(x, type):
            try:
                if conv == "r":
                    x = repr(x)
                elif conv == "s":
                    x = str(x)
                return format(x, spec)
            except Exception as ex:
                raise self.wrap_exc(ex)
        if isinstance(x, str):
            return x
        if spec != "":
            return SStr(self.p.int("fmt"))
        return self.text(x, "__repr__" if conv == "r" else "__str__")

    def text(self, x, which):
        """str()/repr() of a value: concrete when possible, opaque otherwise"""
        cls = self.type_of(x)
        if isinstance(x, SStr) and which == "__str__":
            return x
        if isinstance(x, SInt) and x.cls is None:
            from . import lib
            return lib.str_(self, x)
        if self.is_user_class(cls) and not isinstance(x, type):
            m = self.lookup(cls, which)
            if m is None and which == "__str__":
                m = self.lookup(cls, "__repr__")
            if m is not None and isinstance(m, types.FunctionType) and \
                    self.cfg.is_user_module(m.__module__) and not isinstance(x, AbsInst):
                return self.call(m, [x], {})
        if is_native(x):
            try:
                return str(x) if which == "__str__" else repr(x)
            except Exception:
                pass
        return SStr(self.p.int("text"))

    def e_FormattedValue(self, e):
        return self.fmt(self.eval(e.value), "", "")

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_slice(e.slice)
        return self.getitem(o, k)

    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x)
            return PSlice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s)

    def e_Slice(self, e):
        return self.eval_slice(e)

    def getitem(self, o, k):
        from . import lib
        return lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import lib
        return lib.setitem(self, o, k, v)

    def e_Starred(self, e):
        raise Unsupported("starred")

    # comprehensions
    def e_ListComp(self, e):
        from . import loops
        return PList(loops.comprehension(self, e, e.elt))

    def e_SetComp(self, e):
        from . import loops, lib
        s = PSet()
        for x in loops.comprehension(self, e, e.elt):
            if isinstance(x, Range):
                raise Unsupported("abstract set")
            lib.set_add(self, s, x)
        return s

    def e_DictComp(self, e):
        from . import loops, lib
        d = PDict()
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        for x in loops.comprehension(self, e, pair):
            if isinstance(x, Range):
                raise Unsupported("abstract dict")
            lib.dict_set(self, d, x[0], x[1])
        return d

    def e_GeneratorExp(self, e):
        from . import loops
        fr = self.frame
        # the outermost iterable is evaluated immediately
        first = self.iter(self.eval(e.generators[0].iter))

        def run():
            saved, self.frame = self.frame, fr
            try:
                buf = PList()
                exc = None
                try:
                    loops.comprehension(self, e, e.elt, first, out=buf.items)
                except PyRaise as ex:
                    exc = ex
                    if issubclass(ex.exc.cls, StopIteration):
                        exc = PyRaise(Inst(RuntimeError, {"args": ("generator raised StopIteration",)}))
                return PIter(buf.items, exc)
            finally:
                self.frame = saved
        return GenIter(run)

    def e_Yield(self, e):
        v = None if e.value is None else self.eval(e.value)
        fr = self.frame
        if fr.yields is None:
            raise Unsupported("yield outside generator frame")
        self.write(fr.yields, "items")
        fr.yields.items.append(v)
        return None

    def e_YieldFrom(self, e):
        fr = self.frame
        v = self.eval(e.value)
        items = self.items_of(v)
        self.write(fr.yields, "items")
        fr.yields.items.extend(items)
        return None

    # -- hash -----------------------------------------------------------------------
    def hash(self, v, identity=False):
        """a term standing for hash(v): congruent for equal parts"""
        from . import lib
        return lib.hash_(self, v, identity)


class PSlice:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


def rope_norm(segs):
    r = mkbytes(segs)
    return tuple(rope(r))


OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=",
       "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}
