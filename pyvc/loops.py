"""Loops: unrolling, inferred inductive invariants, maps over abstract sequences."""
import os
import ast
import itertools
import z3

from .core import Unsupported, PathEnd, Restart, Limit, simp, zi
from .values import *
from . import bytesops as B
from .interp import (PyRaise, StopIter, PIter, RangeIter, FnIter, GenIter, ITERS, RET, BRK, CNT,
                     scope_info, is_native, ModelObj, rope_norm)

UNROLL = 12


class WriteLog:
    """Heap writes since creation, with the means to undo them."""

    def __init__(self, undo=True):
        self.old = {}
        self.undo_ = undo

    def note(self, obj, name):
        k = (id(obj), name)
        if k in self.old:
            return
        if isinstance(obj, Inst):
            self.old[k] = (obj, name, obj.fields.get(name, UNBOUND))
        elif isinstance(obj, PList):
            self.old[k] = (obj, name, list(obj.items))
        elif isinstance(obj, PSet):
            self.old[k] = (obj, name, list(obj.items))
        elif isinstance(obj, PDict):
            self.old[k] = (obj, name, ([list(e) for e in obj.entries], obj.base))
        elif isinstance(obj, ByteArr):
            self.old[k] = (obj, name, obj.segs)
        elif isinstance(obj, ModelObj):
            self.old[k] = (obj, name, obj.snapshot() if hasattr(obj, "snapshot") else None)
        else:
            raise Unsupported(f"write to {obj!r}")

    def undo(self):
        for obj, name, v in self.old.values():
            if isinstance(obj, Inst):
                if v is UNBOUND:
                    obj.fields.pop(name, None)
                else:
                    obj.fields[name] = v
            elif isinstance(obj, PDict):
                obj.entries = [list(e) for e in v[0]]
                obj.base = v[1]
            elif isinstance(obj, (PList, PSet)):
                obj.items = list(v)
            elif isinstance(obj, ByteArr):
                obj.segs = v
            elif isinstance(obj, ModelObj):
                if v is None:
                    raise Unsupported("undo of model object")
                obj.restore(v)


CACHES = ("divcache", "seqcache", "strenc", "byteseqs", "compcache", "wits", "univ", "skolem", "seqrel", "bitlens", "ufcalls", "bodies")


def snapshot(p):
    s = {k: dict(p.__dict__[k]) if isinstance(p.__dict__.get(k), dict) else p.__dict__.get(k)
         for k in CACHES}
    return (s, list(p.pc), p.pckey, set(p.known), p.precise, list(p.__dict__.get("ghosts", ())))


def restore(p, snap):
    s, pc, key, known, precise, ghosts = snap
    for k, v in s.items():
        if v is None:
            p.__dict__.pop(k, None)
        else:
            p.__dict__[k] = dict(v) if isinstance(v, dict) else v
    p.pc = list(pc)
    p.pckey = key
    p.known = set(known)
    p.precise = precise
    p.ghosts = list(ghosts)


def env_snapshot(I):
    out = []
    fr = I.frame
    seen = set()
    while fr is not None:
        env = fr.env
        while env is not None and id(env) not in seen:
            seen.add(id(env))
            out.append((env, dict(env.vars)))
            env = env.parent
        fr = fr.parent
    return out


def env_restore(snap):
    for env, vars_ in snap:
        env.vars = dict(vars_)


def nested(I, thunk, limit=200):
    """Explore thunk from the current state along all its paths; state is
    restored after each.  Result: list of (added constraints, kind, value, writelog)."""
    p = I.p
    ex = p.ex
    p._sync()
    snap = snapshot(p)
    saved = (p.trail, p.pos, ex.work, p.counter)
    maxc = p.counter
    envs = env_snapshot(I)
    frame, depth = I.frame, I.depth
    work = [[]]
    results = []
    nlogs = len(I.writelogs)
    inputs = len(p.inputs)
    while work:
        if len(results) > limit:
            raise Unsupported("too many nested paths")
        t = work.pop()
        p.trail, p.pos, ex.work = list(t), 0, work
        p.counter = saved[3]
        log = WriteLog()
        I.writelogs.append(log)
        p.solver.push()
        nadd = p.nadded
        line = frame.line if frame else 0
        try:
            try:
                v = thunk()
                kind = "ok"
            except PyRaise as e:
                v, kind = e.exc, "raise"
            except PathEnd:
                v, kind = None, "end"
        finally:
            I.frame, I.depth = frame, depth
            if frame:
                frame.line = line
            del I.writelogs[nlogs:]
            added = p.pc[len(snap[1]):]
            if p.solver is not None:
                p.solver.pop()
            p.nadded = nadd
            maxc = max(maxc, p.counter)
            precise = p.precise
            restore(p, snap)
            env_restore(envs)
            p.trail, p.pos, ex.work = saved[0], saved[1], saved[2]
            p.counter = saved[3]
            log.undo()
        if kind != "end":
            results.append((added, kind, v, log))
    p.counter = maxc
    return results


# ---------------------------------------------------------------------------

class LoopInfo:
    def __init__(self, key, where):
        self.key = key
        self.where = where
        self.inv = False
        self.peel = False
        self.modes = {}
        self.heap = {}              # path -> kind
        self.dropped = set()
        self.variants = None
        self.iswhile = False
        self.uncounted = False
        self.entered = False
        self.names = None

    def finish(self, ex):
        if self.inv and self.iswhile and self.entered and not getattr(ex, "no_termination", False):
            name = f"termination:{self.where}"
            seen = ex.obl.setdefault(name, [0, 0])
            seen[0] += 1
            ex.stats.obligations += 1
            if self.variants is None or self.variants:
                seen[1] += 1
                ex.stats.discharged += 1
            else:
                from .core import Failure
                ex.failures.append(Failure(name, "unknown", "no decreasing measure found", precise=False))


def loop_key(I, node):
    fr = I.frame
    parts = [(fr.name, node.lineno - fr.node.lineno, node.col_offset)]
    while fr.parent is not None:
        parts.append((fr.parent.name, fr.callpos))
        fr = fr.parent
    return tuple(parts) + tuple(I.p.picks)


def get_info(I, node):
    key = loop_key(I, node)
    ex = I.p.ex
    info = ex.loops.get(key)
    if info is None:
        info = LoopInfo(key, f"{I.frame.name}:{node.lineno - I.frame.node.lineno}")
        ex.loops[key] = info
    return info


def assigned_names(node):
    names = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                names.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    names.add(sub.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in node.body:
        walk(n)
    if hasattr(node, "test"):
        walk(node.test)
    if hasattr(node, "target"):
        walk(node.target)
    return names


def while_loop(I, s):
    info = get_info(I, s)
    p = I.p
    count = 0
    total = 0
    if info.inv:
        form = None if info.uncounted else counting(s)
        if form is not None:
            found = counted(I, s, info, form)
            if found is not None:
                return found[0]
        return inv_loop(I, s, info, guard=lambda: I.truth(I.eval(s.test)))
    while True:
        n0 = p.pos
        if not I.truth(I.eval(s.test)):
            return I.exec_block(s.orelse)
        r = I.exec_block(s.body)
        if r is not None:
            if r[0] is BRK:
                return None
            if r[0] is RET:
                return r
        if p.pos > n0:
            count += 1
        total += 1
        if total > 20000:
            raise Unsupported("long concrete loop")
        if count > I.cfg.unroll:
            info.inv = True
            raise Restart()


def pure(e):
    """an expression that only reads"""
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == "len" and not e.keywords \
            and len(e.args) == 1 and pure(e.args[0])
    return isinstance(e, (ast.Name, ast.Constant))


FLIPPED = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}


def counting(s):
    """(name, bound, comparison, step) of a while loop that counts a variable up or down to a bound"""
    if len(s.body) < 2 or any(isinstance(n, (ast.Continue, ast.NamedExpr)) for n in ast.walk(s)):
        return None
    last = s.body[-1]
    if not isinstance(last, ast.AugAssign) or not isinstance(last.target, ast.Name) or \
            not isinstance(last.op, (ast.Add, ast.Sub)) or \
            not isinstance(last.value, ast.Constant) or last.value.value != 1 or last.value.value is True:
        return None
    name = last.target.id
    step = 1 if isinstance(last.op, ast.Add) else -1
    t = s.test
    if isinstance(t, ast.Name) and t.id == name:
        bound, op = ast.Constant(0), ast.NotEq
    elif isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in FLIPPED:
        left, right, op = t.left, t.comparators[0], type(t.ops[0])
        if isinstance(left, ast.Name) and left.id == name:
            bound = right
        elif isinstance(right, ast.Name) and right.id == name:
            bound, op = left, FLIPPED[op]
        else:
            return None
    else:
        return None
    if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(bound)):
        return None
    if not pure(bound) or op not in (ast.NotEq,) + ((ast.Lt, ast.LtE) if step > 0 else (ast.Gt, ast.GtE)):
        return None
    front = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=t, body=s.body[:-1], orelse=[])
    if name in assigned_names(ast.While(test=ast.Constant(True), body=s.body[:-1], orelse=[])):
        return None
    for n in (front, front.target):
        ast.copy_location(n, s)
    return name, bound, op, step, front


def counted(I, s, info, form):
    """a counting while loop, as a loop over the values its variable takes; None if it is not one after all"""
    p = I.p
    name, bound, op, step, front = form
    v, b = I.eval(ast.copy_location(ast.Name(id=name, ctx=ast.Load()), s)), I.eval(ast.copy_location(bound, s))
    if not (is_intlike(v) and is_intlike(b)):
        info.uncounted = True
        return None
    v, b = zi(it(v)), zi(it(b))
    if op in (ast.LtE, ast.GtE):
        b = b + step
    n = simp((b - v) * step)
    if op is ast.NotEq:
        if not p.must(zi(n) >= 0):
            info.uncounted = True
            raise Restart()
    if not p.branch(zi(n) > 0):
        return (I.exec_block(s.orelse),)
    rng = Range(int_seq(I), simp(v), simp(b)) if step > 0 else Range(Seq("count", lambda k: mkint(simp(v - zi(k)))), 0, n)

    def after():
        now = I.eval(ast.copy_location(bound, s))
        if not is_intlike(now) or not p.must(zi(it(now)) + (step if op in (ast.LtE, ast.GtE) else 0) == b):
            info.uncounted = True
            raise Restart()
    info.iswhile = False
    r = inv_range(I, front, info, rng, PIter([]), after)
    if r is None:
        set_env(I.frame, name, mkint(simp(b)))
        return (I.exec_block(s.orelse),)
    return (None,) if r[0] is BRK else (r,)


def structured_items(I, itr):
    """pending items of an iterator when it has a known structure, else None"""
    if isinstance(itr, GenIter):
        itr = itr.force()
    if isinstance(itr, PIter):
        return itr
    if isinstance(itr, RangeIter):
        if itr.step == 1:
            lo, hi = itr.lo, itr.hi
            if isinstance(simp(zi(hi) - zi(lo)), int) and isinstance(lo, int):
                return None
            return PIter([Range(int_seq(I), lo, hi)])
        return None
    if isinstance(itr, FnIter) and itr.parts:
        kind = itr.parts[0]
        if kind == "map":
            f, its = itr.parts[1], itr.parts[2]
            if len(its) == 1:
                sub = structured_items(I, its[0])
                if sub is None or not any(isinstance(x, (Range, Seg)) for x in sub.items):
                    return None
                out = []
                for x in seg_items(I, sub):
                    if isinstance(x, Range):
                        out.append(Range(Seq("map", lambda k, x=x: I.call(f, [x.src.at(k)], {})), x.lo, x.hi))
                    else:
                        out.append(Lazy(lambda x=x: I.call(f, [x], {})))
                return PIter(out, sub.exc)
        if kind == "enumerate":
            sub = structured_items(I, itr.parts[1])
            if sub is None or not any(isinstance(x, (Range, Seg)) for x in sub.items):
                return None
            out = []
            pos = itr.parts[2]
            for x in seg_items(I, sub):
                if isinstance(x, Range):
                    base = simp(zi(it(pos)) - zi(x.lo))
                    out.append(Range(Seq("enum", lambda k, x=x, base=base:
                                         (mkint(zi(k) + zi(base)), x.src.at(k))), x.lo, x.hi))
                    pos = mkint(zi(it(pos)) + zi(x.n))
                else:
                    out.append((pos, x))
                    pos = mkint(zi(it(pos)) + 1)
            return PIter(out, sub.exc)
        if kind == "zip":
            subs = [structured_items(I, x) for x in itr.parts[1]]
            if any(s is None for s in subs):
                return None
            lists = [seg_items(I, s) for s in subs]
            if not any(isinstance(x, Range) for L in lists for x in L):
                return None
            return PIter(zip_items(I, lists))
    return None


class Lazy:
    def __init__(self, f):
        self.f = f


_INTSEQ = []


def int_seq(I):
    if not _INTSEQ:
        _INTSEQ.append(Seq("int", lambda k: mkint(k)))
    return _INTSEQ[0]


def seg_items(I, pit):
    """items of a PIter with byte segments turned into int items / Ranges"""
    from . import lib
    out = []
    itr = PIter(pit.items, None)
    while itr.items:
        x = itr.items[0]
        if isinstance(x, Sub) and not isinstance(x.n, int):
            out.append(lib.sub_range(x))
            itr.items.pop(0)
        elif isinstance(x, Seg):
            if isinstance(x, RangeSeg):
                raise Unsupported("byte family in zip/map")
            if isinstance(x, Rep) and not isinstance(x.n, int):
                out.append(Range(Seq("rep", lambda k, x=x: mkint(x.v)), 0, x.n))
                itr.items.pop(0)
                continue
            n = x.n
            if not isinstance(n, int):
                itr.items[0:1] = B.expand(x)
                continue
            if n <= 0:
                itr.items.pop(0)
            for _ in range(n):
                out.append(itr.next(I))
        else:
            out.append(x)
            itr.items.pop(0)
    return out


def zip_items(I, lists):
    p = I.p
    lists = [list(x) for x in lists]
    out = []
    guard = 0
    while True:
        guard += 1
        if guard > 600:
            raise Unsupported("zip")
        for L in lists:
            while L and isinstance(L[0], Range) and p.must(zi(L[0].n) <= 0):
                L.pop(0)
        if any(not L for L in lists):
            return out
        if all(isinstance(L[0], Range) for L in lists):
            rs = [L[0] for L in lists]
            n = rs[0].n
            best = 0
            for j in range(1, len(rs)):
                if same(rs[j].n, rs[best].n) or p.must(zi(rs[best].n) <= zi(rs[j].n)):
                    continue
                if p.branch(zi(rs[best].n) <= zi(rs[j].n)):
                    continue
                best = j
            n = rs[best].n
            base = rs[best]

            def at(k, rs=rs, base=base):
                d = zi(k) - zi(base.lo)
                return tuple(r.src.at(simp(zi(r.lo) + d)) for r in rs)
            out.append(Range(Seq("zip", at), base.lo, base.hi))
            for L in lists:
                r = L[0]
                if same(r.n, n):
                    L.pop(0)
                else:
                    L[0] = Range(r.src, simp(zi(r.lo) + zi(n)), r.hi)
            continue
        vals = []
        ok = True
        for L in lists:
            if isinstance(L[0], Range):
                r = L[0]
                if not p.branch(zi(r.n) > 0):
                    L.pop(0)
                    ok = False
                    break
                L[0:1] = [r.src.at(r.lo), Range(r.src, simp(zi(r.lo) + 1), r.hi)]
        if not ok:
            continue
        out.append(tuple(L.pop(0) for L in lists))


def for_loop(I, s):
    p = I.p
    itr = I.iter(I.eval(s.iter))
    st = structured_items(I, itr)
    forced = False
    if st is None and isinstance(itr, RangeIter) and itr.step == 1 and I.cfg.unroll < 12 and get_info(I, s).inv:
        st, forced = PIter([Range(int_seq(I), itr.lo, itr.hi)]), True
    if st is None:
        count = total = 0
        while True:
            n0 = p.pos
            try:
                v = itr.next(I)
            except StopIter:
                return I.exec_block(s.orelse)
            I.assign(s.target, v)
            r = I.exec_block(s.body)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
            total += 1
            if p.pos > n0:
                count += 1
            if count > I.cfg.unroll and I.cfg.unroll < 12 and isinstance(itr, RangeIter) and itr.step == 1:
                get_info(I, s).inv = True
                raise Restart()
            if total > 20000 or count > 300:
                raise Unsupported("long for loop")
    # structured iterator: consume item by item
    while st.items:
        x = st.items[0]
        if isinstance(x, Sub) and not isinstance(x.n, int):
            from . import lib
            x = st.items[0] = lib.sub_range(x)
        elif isinstance(x, Rep) and not isinstance(x.n, int):
            x = st.items[0] = Range(Seq("rep", lambda k, x=x: mkint(x.v)), 0, x.n)
        if isinstance(x, (Range, RangeSeg)):
            if isinstance(x, Range) and not forced and small(I, x) or isinstance(x, RangeSeg) and same(x.lo, x.hi):
                if isinstance(x, RangeSeg):
                    st.items.pop(0)
                    continue
                index = x.lo if isinstance(x, Range) else None
                try:
                    v = st.next(I)
                except StopIter:
                    break
                if index is not None:
                    noted(I, index)
            else:
                st.items.pop(0)
                info = get_info(I, s)
                info.inv = True
                r = inv_range(I, s, info, x, st)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
                continue
        elif isinstance(x, Lazy):
            st.items.pop(0)
            v = x.f()
        else:
            v = st.next(I)
        I.assign(s.target, v)
        r = I.exec_block(s.body)
        if r is not None:
            if r[0] is BRK:
                return None
            if r[0] is RET:
                return r
    if st.exc is not None:
        e, st.exc = st.exc, None
        raise e
    return I.exec_block(s.orelse)


def small(I, r):
    n = r.n
    if isinstance(n, int):
        return n <= 64
    return I.p.must(zi(n) <= 4) or settled(I.p, n)


def settled(p, n):
    """is a number of iterations known after all (only one value is possible), and small?"""
    key = ("settled", n.get_id(), len(p.pc))
    if key not in p.divcache:
        p.ex.keep.append(n)
        v = None
        if p.sat(zi(n) <= 16, want_model=True) == "sat" and p.model is not None:
            v = p.model.eval(n, model_completion=True)
        p.divcache[key] = v is not None and z3.is_int_value(v) and p.must(n == v)
    return p.divcache[key]


# ---------------------------------------------------------------------------
# invariants

class Leaf:
    __slots__ = ("name", "kind", "head", "init")

    def __init__(self, name, kind, init, head):
        self.name, self.kind, self.init, self.head = name, kind, init, head


class Gen:
    """Generalisation of the state at a loop head."""

    def __init__(self, I, info, idx=None):
        self.I, self.info, self.idx = I, info, idx
        self.leaves = {}
        self.maps = {}
        self.drop = False

    def mode(self, name):
        return self.info.modes.get(name, "same")

    def leaf(self, name, kind, init, head):
        self.leaves[name] = Leaf(name, kind, init, head)

    def gen(self, name, v):
        """value at an arbitrary iteration"""
        p = self.I.p
        m = self.mode(name)
        if isinstance(v, Poison) or v is UNBOUND:
            return v
        if m == "same":
            if is_intlike(v) and not isinstance(v, (bool, SBool)):
                self.leaf(name, "int", it(v), it(v))
            return v
        if m == "bytesmap":
            mp = self.info_mp(name, None)
            self.maps[name] = mp
            return SBytes(rope_norm(tuple(rope(v)) + (RangeSeg(mp, self.idx.lo, self.idx.i),)))
        if m == "pos":
            mp, lo = self.idx.mp, self.idx.lo
            t = simp(zi(it(v)) + zi(mp.span(lo, self.idx.i)))
            self.leaf(name, "int", it(v), t)
            return mkint(t)
        if m == "poison":
            return Poison(self.info.key, name)
        if isinstance(v, (SInt, int)) and not isinstance(v, bool):
            h = p.int("inv")
            cls = v.cls if isinstance(v, SInt) else None
            self.leaf(name, "int", it(v), h)
            return SInt(h, 0, cls)
        if isinstance(v, (bool, SBool)):
            h = p.bool("inv")
            self.leaf(name, "bool", zb(v.t if isinstance(v, SBool) else v), h)
            return SBool(h)
        if isinstance(v, (SReal, float)):
            h = p.real("inv")
            self.leaf(name, "real", real_term(v), h)
            return SReal(h)
        if isinstance(v, (SStr, str)):
            return SStr(p.int("inv"))
        if isinstance(v, (bytes, SBytes)):
            segs = rope(v)
            if len(segs) == 1 and isinstance(segs[0], Sub):
                s = segs[0]
                off = self.gen(name + ".off", mkint(s.off))
                n = self.gen(name + ".n", mkint(s.n))
                return SBytes([Sub(s.a, it(off), it(n))])
            n = p.int("invlen", lo=0)
            self.leaf(name + "#len", "int", blen(v), n)
            return mkbytes([Sub(Atom(p.fresh_name("invbytes"), n), 0, n)])
        if isinstance(v, Inst):
            o = Inst(v.cls)
            for f, x in v.fields.items():
                o.fields[f] = self.gen(f"{name}.{f}", x)
            return o
        if isinstance(v, tuple):
            return tuple(self.gen(f"{name}.{i}", x) for i, x in enumerate(v))
        raise Unsupported(f"loop changes {name} ({type(v).__name__})")

    # content of mutable containers
    def gen_content(self, name, obj):
        p = self.I.p
        m = self.mode(name)
        if m == "same":
            return
        if isinstance(obj, PList):
            if m == "append":
                src = self.info.srcs[name](self)
                if self.idx is None:
                    raise Unsupported("list accumulation without an index")
                obj.items = norm_items(obj.items + [Range(src, self.idx.lo, self.idx.i)])
                return
            if m == "grow":
                n = p.int("grow", lo=0)
                k = self.info.grow[name]
                src = Seq(p.fresh_name("grown"), lambda i: k(self.I, i))
                obj.items = obj.items + [Range(src, 0, n)]
                self.leaf(name + "#n", "int", 0, n)
                return
        if isinstance(obj, ByteArr):
            if m == "bytesmap":
                mp = self.info_mp(name, obj)
                obj.segs = rope_norm(obj.segs + (RangeSeg(mp, self.idx.lo, self.idx.i),))
                return
            if m == "grow":
                n = p.int("growlen", lo=0)
                a = Atom(p.fresh_name("grownbytes"), n)
                obj.segs = rope_norm(obj.segs + (Sub(a, 0, n),))
                self.leaf(name + "#n", "int", 0, n)
                return
        raise Unsupported(f"loop changes contents of {name}")


class Idx:
    def __init__(self, lo, hi, i, mp=None, src=None):
        self.lo, self.hi, self.i, self.mp, self.src = lo, hi, i, mp, src


def reach(I):
    """objects reachable from the frames: id -> path"""
    out = {}
    queue = []
    fr = I.frame
    depth = 0
    while fr is not None and depth < 4:
        env = fr.env
        while env is not None:
            for n, v in env.vars.items():
                queue.append((f"{'^' * depth}{n}", v, 0))
            env = env.parent
        if fr.yields is not None:
            queue.append((f"{'^' * depth}<yields>", fr.yields, 0))
        fr = fr.parent
        depth += 1
    objs = {}
    i = 0
    while i < len(queue):
        path, v, d = queue[i]
        i += 1
        if isinstance(v, BoundMethod):
            v = v.self
        if not isinstance(v, (Heap, tuple, PTuple)) or isinstance(v, ModelObj) and False:
            continue
        if id(v) in out:
            continue
        if isinstance(v, Heap):
            out[id(v)] = path
            objs[path] = v
        if d > 5:
            continue
        if isinstance(v, Inst):
            for f, x in v.fields.items():
                queue.append((f"{path}.{f}", x, d + 1))
        elif isinstance(v, (PList, tuple, PTuple, PSet)):
            for j, x in enumerate(v if isinstance(v, tuple) else v.items):
                queue.append((f"{path}[{j}]", x, d + 1))
        elif isinstance(v, PDict):
            for j, (k, x) in enumerate(v.entries):
                queue.append((f"{path}<{j}>", x, d + 1))
    return out, objs


class HeadState:
    pass


def enter(I, s, info, idx, names):
    """Generalise the state at the loop head; returns the head state."""
    p = I.p
    fr = I.frame
    H = HeadState()
    H.ids, H.objs = reach(I)
    H.keep = list(H.objs.values())
    H.init_locals = {n: lookup_env(fr, n) for n in names}
    H.init_heap = {}
    for path, (objpath, field) in info.heap.items():
        o = H.objs.get(objpath)
        H.init_heap[path] = o, field, o.fields.get(field, UNBOUND) if isinstance(o, Inst) else \
            list(o.items) if isinstance(o, PList) else o.segs if isinstance(o, ByteArr) else None
    G = Gen(I, info, idx)
    run = one_iteration(I, s, idx, env_snapshot(I), dict(H.init_heap))
    G.info_mp = lambda name, obj: make_map(I, info, idx, name, run, obj)
    if idx is not None:
        G.leaf("#i", "int", idx.lo, idx.i)
    lists = {}
    G.info_list = lambda name: lists[name]
    for path in info.heap:
        if info.modes.get(path) == "append":
            o = H.objs.get(info.heap[path][0])
            if isinstance(o, PList) and idx is not None and idx.src is not None:
                lists[path] = make_list(I, idx, run, o)
    H.G = G
    H.names = names
    for n in sorted(names):
        v = H.init_locals[n]
        if v is UNBOUND:
            set_env(fr, n, Poison(info.key, n))
            continue
        set_env(fr, n, G.gen(n, v))
    for path in sorted(info.heap):
        objpath, field = info.heap[path]
        obj = H.objs.get(objpath)
        if obj is None:
            raise Unsupported(f"loop frame: {path}")
        if isinstance(obj, Inst):
            init = obj.fields.get(field, UNBOUND)
            H.init_heap[path] = (obj, field, init)
            if init is UNBOUND:
                raise Unsupported("field created in loop")
            I.write(obj, field)
            obj.fields[field] = G.gen(path, init)
        elif isinstance(obj, (PList, ByteArr)):
            init = list(obj.items) if isinstance(obj, PList) else obj.segs
            H.init_heap[path] = (obj, field, init)
            I.write(obj, field)
            G.gen_content(path, obj)
        else:
            raise Unsupported(f"loop changes {path}")
    H.head_locals = {n: lookup_env(fr, n) for n in names}
    H.head_heap = {}
    for path, (obj, field, init) in H.init_heap.items():
        if isinstance(obj, Inst):
            H.head_heap[path] = obj.fields[field]
        else:
            H.head_heap[path] = list(obj.items) if isinstance(obj, PList) else obj.segs
    # candidate invariants
    H.cands = candidates(I, info, G, H)
    vi = {n: l.init for n, l in G.leaves.items()}
    vh = {n: l.head for n, l in G.leaves.items()}
    bad = False
    for name, fn in H.cands:
        if name in info.dropped:
            continue
        if not p.must(fn(vi)):
            trace_drop("entry", name, fn(vi))
            info.dropped.add(name)
            bad = True
    if bad and info.entered:
        pass
    info.entered = True
    for name, fn in H.cands:
        if name not in info.dropped:
            p.add(fn(vh))
    if bad:
        # candidates assumed on earlier paths no longer hold at this entry
        if getattr(info, "assumed", None) and info.assumed & info.dropped:
            info.assumed = set()
            raise Restart()
    info.assumed = getattr(info, "assumed", set()) | {n for n, _ in H.cands if n not in info.dropped}
    H.log = WriteLog()
    I.writelogs.append(H.log)
    H.nlogs = len(I.writelogs)
    return H


def leave(I, H):
    if H.log in I.writelogs:
        I.writelogs.remove(H.log)


def lookup_env(fr, n):
    env = fr.env
    while env is not None:
        if n in env.vars:
            return env.vars[n]
        env = env.parent
    return UNBOUND


def set_env(fr, n, v):
    env = fr.env
    while env is not None:
        if n in env.vars:
            env.vars[n] = v
            return
        env = env.parent
    fr.env.vars[n] = v


def context_terms(I, names):
    """integer terms fixed during the loop: other locals, lengths"""
    out = {}
    fr = I.frame
    env = fr.env

    def add(n, v, d):
        if isinstance(v, (SInt,)) or type(v) is int:
            out[n] = it(v)
        elif isinstance(v, (bytes, SBytes)):
            if not isinstance(v, bytes):
                out[n + "#len"] = blen(v)
        elif isinstance(v, Inst) and d < 2:
            for f, x in v.fields.items():
                add(f"{n}.{f}", x, d + 1)
        elif isinstance(v, PTuple):
            out[n + "#n"] = items_len(v.items)
    while env is not None:
        for n, v in env.vars.items():
            if n not in names:
                add(n, v, 0)
        env = env.parent
    return out


def candidates(I, info, G, H):
    p = I.p
    out = []
    changing = [l for l in G.leaves.values() if l.kind == "int" and not same(l.init, l.head)]
    fixed = {n: t for n, t in context_terms(I, H.names).items()}
    for l in G.leaves.values():
        if l.kind == "int" and same(l.init, l.head):
            fixed[l.name] = l.init
    fixed = dict(list(fixed.items())[:14])
    for l in changing:
        n = l.name
        init = l.init
        out.append((f"{n}>=init", lambda v, n=n, init=init: zi(v[n]) >= zi(init)))
        out.append((f"{n}<=init", lambda v, n=n, init=init: zi(v[n]) <= zi(init)))
        out.append((f"{n}>=0", lambda v, n=n: zi(v[n]) >= 0))
        out.append((f"{n}<=255", lambda v, n=n: zi(v[n]) <= 255))
        if not isinstance(init, int):
            for bits in (31, 32, 64):
                out.append((f"{n}<2^{bits}", lambda v, n=n, bits=bits: zi(v[n]) < 2 ** bits))
        out.append((f"{n}%128", lambda v, n=n: zi(v[n]) % 128 == 0))
        for fn_, t in fixed.items():
            out.append((f"{n}<={fn_}", lambda v, n=n, t=t: zi(v[n]) <= zi(t)))
            out.append((f"{n}>={fn_}", lambda v, n=n, t=t: zi(v[n]) >= zi(t)))
        if G.idx is not None and G.idx.mp is None:
            i0 = G.idx.lo
    for a, b in itertools.combinations(changing, 2):
        out.append((f"{a.name}<={b.name}", lambda v, a=a, b=b: zi(v[a.name]) <= zi(v[b.name])))
        out.append((f"{a.name}>={b.name}", lambda v, a=a, b=b: zi(v[a.name]) >= zi(v[b.name])))
        out.append((f"{a.name}-{b.name}", lambda v, a=a, b=b:
                    zi(v[a.name]) - zi(a.init) == zi(v[b.name]) - zi(b.init)))
        out.append((f"{a.name}+{b.name}", lambda v, a=a, b=b:
                    zi(v[a.name]) - zi(a.init) == -(zi(v[b.name]) - zi(b.init))))
    if G.idx is not None:
        lo = G.idx.lo
        for l in changing:
            if l.name == "#i":
                continue
            out.append((f"{l.name}~i", lambda v, l=l: zi(v[l.name]) - zi(l.init) == zi(v["#i"]) - zi(lo)))
            out.append((f"{l.name}~-i", lambda v, l=l: zi(v[l.name]) - zi(l.init) == -(zi(v["#i"]) - zi(lo))))
    # folds of bytes: an accumulator holds the big-endian value of the bytes a cursor passed
    for a in atoms_in_context(I, H):
        for acc in changing:
            if not same(acc.init, 0):
                continue
            for cur in changing:
                if cur is acc:
                    continue
                c0 = cur.init
                def fold(v, a=a, acc=acc, cur=cur, c0=c0):
                    n = simp(zi(v[cur.name]) - zi(c0))
                    B.uint_facts(a, c0, n)
                    if not same(v[cur.name], cur.init):
                        B.uint_step(a, c0, simp(zi(cur.head) - zi(c0)))
                    return zi(v[acc.name]) == a.uf(zi(c0), zi(n))
                out.append((f"fold:{acc.name}:{cur.name}:{len(a.name)}", fold))
    out.extend(real_candidates(G, changing))
    for prov in I.cfg.providers:
        out.extend(prov(I, info, G, H, changing, fixed) or ())
    return out


def real_term(v):
    return v.t if isinstance(v, SReal) else z3.RealVal(repr(v)) if isinstance(v, float) else z3.ToReal(zi(it(v)))


def real_candidates(G, changing):
    """monotone reals, alone and as the second component of a lexicographic order"""
    out = []
    for r in [l for l in G.leaves.values() if l.kind == "real"]:
        out.append((f"{r.name}<=init", lambda v, r=r: v[r.name] <= r.init))
        out.append((f"{r.name}>=init", lambda v, r=r: v[r.name] >= r.init))
        for l in changing:
            out.append((f"{l.name};-{r.name}", lambda v, r=r, l=l:
                        z3.Or(zi(v[l.name]) > zi(l.init), v[r.name] <= r.init)))
            out.append((f"{l.name};+{r.name}", lambda v, r=r, l=l:
                        z3.Or(zi(v[l.name]) > zi(l.init), v[r.name] >= r.init)))
    return out


def atoms_in_context(I, H):
    out = []
    seen = set()

    def add(v, d):
        if isinstance(v, SBytes):
            for s in v.segs:
                if isinstance(s, Sub) and id(s.a) not in seen:
                    seen.add(id(s.a))
                    out.append(s.a)
        elif isinstance(v, Inst) and d < 2:
            for x in v.fields.values():
                add(x, d + 1)
    env = I.frame.env
    while env is not None:
        for v in env.vars.values():
            add(v, 0)
        env = env.parent
    return out[:2]


TRACE = bool(os.environ.get("PYVC_INV"))


def trace_drop(where, name, f):
    if TRACE:
        print("drop", where, name, str(f)[:200].replace("\n", " "))


def restored(obj, old):
    """the write was undone later: nothing changed"""
    if isinstance(obj, ModelObj):
        return old is not None and obj.snapshot() == old
    if isinstance(obj, PDict):
        return obj.base is old[1] and len(obj.entries) == len(old[0]) and \
            all(a[0] is b[0] and a[1] is b[1] for a, b in zip(obj.entries, old[0]))
    if isinstance(obj, PList):
        return len(obj.items) == len(old) and all(a is b for a, b in zip(obj.items, old))
    return False


def close(I, s, info, H, idx_end=None):
    """End of an arbitrary iteration: check that the generalised state is re-established."""
    p = I.p
    fr = I.frame
    changed = False
    # frame: heap writes to objects existing at the head must be declared
    for (oid, name), (obj, _, old) in list(H.log.old.items()):
        path = H.ids.get(oid)
        if path is None or restored(obj, old):
            continue
        full = f"{path}.{name}" if isinstance(obj, Inst) else f"{path}[]"
        if full not in info.heap:
            info.heap[full] = (path, name)
            changed = True
    if changed:
        raise Restart()
    G = H.G
    end = {}
    C = Closer(I, info, G, idx_end)
    for n in sorted(H.names):
        v0, vh = H.init_locals[n], H.head_locals[n]
        ve = lookup_env(fr, n)
        if isinstance(vh, Poison):
            continue
        if ve is UNBOUND:
            info.modes[n] = "poison"
            C.changed = True
            continue
        C.match(n, v0, vh, ve)
    for path, (obj, field, init) in H.init_heap.items():
        if isinstance(obj, Inst):
            C.match(path, init, H.head_heap[path], obj.fields.get(field, UNBOUND))
        elif isinstance(obj, PList):
            C.match_list(path, init, H.head_heap[path], obj.items)
        else:
            C.match_bytes(path, init, H.head_heap[path], obj.segs)
    if C.changed:
        raise Restart()
    end = C.end
    vh = {n: l.head for n, l in G.leaves.items()}
    for n, l in G.leaves.items():
        if n not in end:
            end[n] = l.head if n != "#i" else simp(zi(idx_end))
    bad = False
    for name, fn in H.cands:
        if name in info.dropped:
            continue
        if not p.must(fn(end)):
            trace_drop("back", name, fn(end))
            info.dropped.add(name)
            bad = True
    if bad:
        raise Restart()
    if info.iswhile:
        ms = measures(G, end)
        ok = set()
        for name, mh, me in ms:
            if info.variants is not None and name not in info.variants:
                continue
            if p.must(zi(me) < zi(mh)) and p.must(zi(mh) >= 0):
                ok.add(name)
        info.variants = ok
    raise PathEnd()


def measures(G, end):
    out = []
    ls = [l for l in G.leaves.values() if l.kind == "int"]
    for l in ls:
        if same(l.head, end[l.name]):
            continue
        out.append((l.name, l.head, end[l.name]))
        for m in ls:
            if m is l:
                continue
            out.append((f"{m.name}-{l.name}", simp(zi(m.head) - zi(l.head)),
                        simp(zi(end[m.name]) - zi(end[l.name]))))
    return out


class Closer:
    def __init__(self, I, info, G, idx_end):
        self.I, self.info, self.G, self.idx_end = I, info, G, idx_end
        self.changed = False
        self.end = {}

    def weaken(self, name, mode):
        self.info.modes[name] = mode
        self.changed = True

    def match(self, name, v0, vh, ve):
        p = self.I.p
        m = self.G.mode(name)
        if isinstance(ve, Poison):
            if m != "poison":
                self.weaken(name, "poison")
            return
        if m == "poison":
            return
        if m == "same":
            if ve is vh:
                if name in self.G.leaves:
                    self.end[name] = it(ve)
                return
            if self.same_value(vh, ve):
                if name in self.G.leaves:
                    self.end[name] = it(ve)
                return
            # which generalisation?
            if is_intlike(vh) and not isinstance(vh, (bool, SBool)) and is_intlike(ve) and \
                    self.G.idx is not None and self.G.idx.mp is not None and (name, "pos") not in self.info.dropped:
                self.info.dropped.add((name, "pos"))
                self.weaken(name, "pos")
                return
            if isinstance(vh, (bytes, SBytes)) and isinstance(ve, (bytes, SBytes)) and "." not in name and \
                    self.G.idx is not None and self.G.idx.src is not None and not self.info.iswhile and \
                    (name, "bytesmap") not in self.info.dropped:
                self.info.dropped.add((name, "bytesmap"))
                if p.must(zi(blen(ve)) >= zi(blen(vh))) and \
                        self.sure_eq(mkbytes(B.split(rope(ve), blen(vh))[0]), vh):
                    self.weaken(name, "bytesmap")
                    return
            if self.shape(vh, ve):
                self.weaken(name, "fresh")
                return
            if not self.info.peel:
                self.info.peel = True
                self.changed = True
                return
            self.weaken(name, "poison")
            return
        if m == "bytesmap":
            if isinstance(ve, (bytes, SBytes)):
                try:
                    want = mkbytes(tuple(rope(vh)) + tuple(B.elem_bytes(self.G.maps[name], self.G.idx.i)))
                    if self.sure_eq(ve, want):
                        return
                except Unsupported:
                    pass
            self.weaken(name, "fresh")
            return
        if m == "pos":
            idx = self.G.idx
            want = simp(zi(it(v0)) + zi(idx.mp.span(idx.lo, self.idx_end)))
            if is_intlike(ve) and p.must(zi(it(ve)) == zi(want)):
                self.end[name] = it(ve)
                return
            if self.info.peel and self.info.iswhile and not getattr(self.info, "shift", 0):
                # the peeled iteration consumed an element: start from the next one
                self.info.shift = 1
                self.info.dropped.clear()
                self.info.modes.clear()
                self.changed = True
                return
            self.weaken(name, "fresh")
            return
        # fresh
        if isinstance(vh, (SInt,)) and is_intlike(ve):
            self.end[name] = it(ve)
            return
        if isinstance(vh, SBool) and isinstance(ve, (bool, SBool)):
            self.end[name] = zb(ve.t if isinstance(ve, SBool) else ve)
            return
        if isinstance(vh, SReal) and isinstance(ve, (SReal, float)):
            self.end[name] = real_term(ve)
            return
        if isinstance(vh, SStr) and isinstance(ve, (str, SStr)):
            return
        if isinstance(vh, SBytes) and isinstance(ve, (bytes, SBytes)):
            if name + ".off" in self.info.modes or name + ".off" in self.G.leaves:
                segs = rope(ve)
                hs = rope(vh)[0]
                if len(segs) == 1 and isinstance(segs[0], Sub) and segs[0].a is hs.a:
                    s0 = rope(v0)[0]
                    self.match(name + ".off", mkint(s0.off), mkint(hs.off), mkint(segs[0].off))
                    self.match(name + ".n", mkint(s0.n), mkint(hs.n), mkint(segs[0].n))
                    return
                raise Unsupported(f"shape of {name} changes in loop")
            self.end[name + "#len"] = blen(ve)
            return
        if isinstance(vh, Inst) and isinstance(ve, Inst) and vh.cls is ve.cls and \
                set(vh.fields) == set(ve.fields):
            for f in vh.fields:
                self.match(f"{name}.{f}", v0.fields[f], vh.fields[f], ve.fields[f])
            return
        if isinstance(vh, tuple) and isinstance(ve, tuple) and len(vh) == len(ve):
            for i in range(len(vh)):
                self.match(f"{name}.{i}", v0[i], vh[i], ve[i])
            return
        if not self.info.peel:
            self.info.peel = True
            self.changed = True
            return
        self.weaken(name, "poison")

    def same_value(self, a, b):
        p = self.I.p
        if is_intlike(a) and is_intlike(b):
            if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
                return False
            return p.must(zi(it(a)) == zi(it(b)))
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            if a is b:
                return True
            if set(a.fields) != set(b.fields):
                return False
            return all(self.same_value(a.fields[f], b.fields[f]) for f in a.fields)
        if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
            A, Bs = rope(a), rope(b)
            if len(A) == len(Bs) == 1 and isinstance(A[0], Sub) and isinstance(Bs[0], Sub):
                return A[0].a is Bs[0].a and p.must(zi(A[0].off) == zi(Bs[0].off)) and \
                    p.must(zi(A[0].n) == zi(Bs[0].n))
            return a is b or (isinstance(a, bytes) and isinstance(b, bytes) and a == b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same_value(x, y) for x, y in zip(a, b))
        if isinstance(a, SReal) and isinstance(b, SReal):
            return p.must(a.t == b.t)
        if isinstance(a, SStr) and isinstance(b, SStr):
            return p.must(a.t == b.t)
        if is_native(a) and is_native(b):
            return a is b or (type(a) is type(b) and a == b)
        return a is b

    def shape(self, a, b):
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            return isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))
        if is_intlike(a):
            return is_intlike(b)
        for t in ((SReal, float), (SStr, str), (bytes, SBytes)):
            if isinstance(a, t):
                return isinstance(b, t)
        if isinstance(a, Inst):
            return isinstance(b, Inst) and a.cls is b.cls
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b)
        return False

    def sure_eq(self, a, b):
        if a is b:
            return True
        try:
            r = self.I.eq(a, b)
        except (Unsupported, PyRaise):
            return False
        return r is True or isinstance(r, SBool) and self.I.p.must(r.t)

    def sources(self, idx):
        """what iteration i may append: an element of the sequence iterated over"""
        out = []
        if idx.src is not None:
            out.append(("src", lambda G: G.idx.src))
        if idx.mp is not None and getattr(idx.mp, "src", None) is not None:
            out.append(("mpsrc", lambda G: G.idx.mp.src))
        return out

    def match_list(self, name, init, head, end):
        I, p = self.I, self.I.p
        m = self.G.mode(name)
        if m == "same":
            if len(end) == len(init) and all(x is y for x, y in zip(end, init)):
                return
            if len(end) > len(init) and all(x is y for x, y in zip(init, end)):
                extra = end[len(init):]
                idx = self.G.idx
                if idx is not None and len(extra) == 1:
                    for tag, f in self.sources(idx):
                        if (name, tag) in self.info.dropped:
                            continue
                        try:
                            good = self.sure_eq(f(self.G).at(idx.i), extra[0]) and \
                                I.type_of(f(self.G).at(idx.i)) is I.type_of(extra[0])
                        except (Unsupported, PyRaise):
                            good = False
                        if good:
                            self.info.srcs = getattr(self.info, "srcs", {})
                            self.info.srcs[name] = f
                            self.info.dropped.add((name, tag))
                            self.weaken(name, "append")
                            return
                    if idx.src is not None and not self.info.iswhile and (name, "map") not in self.info.dropped:
                        self.info.srcs = getattr(self.info, "srcs", {})
                        self.info.srcs[name] = lambda G, name=name: G.info_list(name)
                        self.info.dropped.add((name, "map"))
                        self.weaken(name, "append")
                        return
                k = element_kind(I, extra)
                if k is not None:
                    self.info.grow = getattr(self.info, "grow", {})
                    self.info.grow[name] = k
                    self.weaken(name, "grow")
                    return
            raise Unsupported(f"loop rewrites list {name}")
        if m == "append":
            idx = self.G.idx
            n = len(head)
            # head == init + [Range(src, lo, i)]: expect exactly one more element
            if len(end) == len(init) + 2 and all(x is y for x, y in zip(end, init)) and \
                    isinstance(end[-2], Range):
                src = self.info.srcs[name](self.G)
                if self.sure_eq(src.at(idx.i), end[-1]):
                    return
            elif same(simp(idx.i), simp(idx.lo)) and len(end) == len(init) + 1:
                src = self.info.srcs[name](self.G)
                if self.sure_eq(src.at(idx.i), end[-1]):
                    return
            if idx.src is not None and not self.info.iswhile and (name, "map") not in self.info.dropped:
                self.info.srcs[name] = lambda G, name=name: G.info_list(name)
                self.info.dropped.add((name, "map"))
                self.changed = True
                return
            k = element_kind(I, [end[-1]]) if end else None
            if k is None:
                raise Unsupported(f"accumulated list {name}")
            self.info.grow = getattr(self.info, "grow", {})
            self.info.grow[name] = k
            self.weaken(name, "grow")
            return
        if m == "grow":
            pre = len(init) + 1
            if len(end) >= pre and all(x is y for x, y in zip(end[:pre], head)):
                extra = end[pre:]
                k = element_kind(I, extra)
                if not extra or k is not None and k.kind == self.info.grow[name].kind:
                    r = head[-1]
                    self.end[name + "#n"] = simp(zi(r.hi) + len(extra))
                    return
            raise Unsupported(f"loop rewrites list {name}")

    def match_bytes(self, name, init, head, end):
        I, p = self.I, self.I.p
        m = self.G.mode(name)
        if m == "same":
            if len(init) == len(end) and all(x is y for x, y in zip(init, end)):
                return
            le = B.sum_len(end)
            if same(le, B.sum_len(init)) and B.eq(mkbytes(init), mkbytes(end)) is True:
                return
            if self.G.idx is not None and (name, "bytesmap") not in self.info.dropped:
                self.info.dropped.add((name, "bytesmap"))
                self.weaken(name, "bytesmap")
                return
            self.weaken(name, "grow")
            return
        if m == "bytesmap":
            idx = self.G.idx
            mp = self.info_mp_of(head, init)
            want = mkbytes(tuple(head) + tuple(B.elem_bytes(mp, idx.i)))
            r = B.eq(mkbytes(end), want)
            if r is True or isinstance(r, SBool) and p.must(r.t):
                return
            self.weaken(name, "grow")
            return
        if m == "grow":
            d = simp(zi(B.sum_len(end)) - zi(B.sum_len(init)))
            # prefix must be untouched
            if not p.must(zi(d) >= 0):
                raise Unsupported(f"loop shrinks bytearray {name}")
            pre, _ = B.split(end, B.sum_len(init))
            r = B.eq(mkbytes(pre), mkbytes(init))
            if not (r is True or isinstance(r, SBool) and p.must(r.t)):
                raise Unsupported(f"loop rewrites bytearray {name}")
            self.end[name + "#n"] = d

    def info_mp_of(self, head, init):
        for s in reversed(head):
            if isinstance(s, RangeSeg):
                return s.mp
        raise Unsupported("byte family lost")


class Kind:
    def __init__(self, kind, make):
        self.kind, self.make = kind, make

    def __call__(self, I, k):
        return self.make(I, k)


def element_kind(I, extra):
    """what is known about each appended element: only its class"""
    kinds = set()
    for x in extra:
        if isinstance(x, (Inst, AbsInst)):
            kinds.add(x.cls)
        elif is_intlike(x) and not isinstance(x, (bool, SBool)):
            kinds.add(int)
        elif isinstance(x, (bytes, SBytes)):
            kinds.add(bytes)
        else:
            return None
    if len(kinds) > 1:
        return None
    if not kinds:
        return Kind(None, None)
    c = kinds.pop()
    if c is int:
        return Kind(int, lambda I, k: mkint(I.p.int("elem")))
    if c is bytes:
        def mkb(I, k):
            n = I.p.int("elemlen", lo=0)
            return mkbytes([Sub(Atom(I.p.fresh_name("elem"), n), 0, n)])
        return Kind(bytes, mkb)
    return Kind(c, lambda I, k: AbsInst(c, I.p.int("elem")))


def one_iteration(I, s, idx, envs, heap):
    """run the loop body for one element from the state before the loop, and take something from the state after it;
    what the loop carries along has its initial value, so a result that depends on it is found to differ"""
    fr = I.frame

    def run(k, prepare, result):
        frame, depth = I.frame, I.depth
        now = env_snapshot(I)
        log = WriteLog()
        outer, I.writelogs = I.writelogs, [log]     # undone below: invisible outside
        try:
            env_restore(envs)
            I.frame = fr
            for o, field, init in heap.values():
                if isinstance(o, Inst):
                    log.note(o, field)
                    if init is UNBOUND:
                        o.fields.pop(field, None)
                    else:
                        o.fields[field] = init
                elif isinstance(o, PList):
                    log.note(o, "items")
                    o.items = list(init)
                elif isinstance(o, ByteArr):
                    log.note(o, "segs")
                    o.segs = init
            prepare(log)
            I.assign(s.target, idx.src.at(k))
            r = I.exec_block(s.body)
            if r is not None and r[0] is not CNT:
                raise PathEnd()
            return result()
        except PyRaise:
            raise PathEnd()
        finally:
            I.frame, I.depth = frame, depth
            env_restore(now)
            I.writelogs = outer
            log.undo()
    return run


def make_map(I, info, idx, name, run, obj=None):
    """byte family produced by one iteration of the loop body (re-executed on demand): what it appends to a
    bytearray, or to a variable with bytes"""
    fr = I.frame

    def prepare(log):
        if obj is None:
            set_env(fr, name, b"")
        else:
            log.note(obj, "segs")
            obj.segs = ()

    def result():
        if obj is not None:
            return obj.segs
        v = lookup_env(fr, name)
        if not isinstance(v, (bytes, SBytes)):
            raise Unsupported(f"loop changes {name}")
        return rope(v)

    mp = new_map(I, f"fam{name}", lambda k: run(k, prepare, result), idx.lo, idx.hi)
    mp.src = idx.src
    return mp


def make_list(I, idx, run, obj):
    """sequence of the elements that iteration k appends to a list"""
    def prepare(log):
        log.note(obj, "items")
        obj.items = []

    def result():
        if len(obj.items) != 1:
            raise Unsupported("iteration appends several elements")
        return obj.items[0]

    src = Seq(I.p.fresh_name("acc"), lambda k: run(k, prepare, result))
    src.base = idx.src
    return src


def new_map(I, name, produce, lo, hi):
    p = I.p
    mp = MapBytes(p.fresh_name(name), None, 0)
    mp.produce = produce

    def cases(k):
        return [(z3.BoolVal(True), SBytes(tuple(produce(k))))]
    mp.cases = cases
    consts = []

    # minimal length of an element
    def probe():
        k = p.int("k")
        p.add(z3.And(k >= zi(lo), k < zi(hi)))
        segs = tuple(produce(k))
        n = B.sum_len(segs)
        if all(isinstance(x, Lit) or isinstance(x, Sub) and not mentions(k, x.off, x.n) and
               f"{k}" not in x.a.name for x in segs) and segs:
            consts.append(segs)
        else:
            consts.append(None)
        for m in (1, 0):
            if p.must(zi(n) >= m):
                return m
        return 0
    try:
        res = nested(I, probe)
        vals = [v for _, kind, v, _ in res if kind == "ok"]
        mp.minlen = min(vals) if vals else 0
        if len(consts) == 1 and consts[0] is not None:
            mp.const = consts[0]        # every element is this same string
    except Unsupported:
        mp.minlen = 0
    mp.src = None
    return mp


def mentions(k, *terms):
    todo = [t for t in terms if isinstance(t, z3.ExprRef)]
    while todo:
        t = todo.pop()
        if t.eq(k):
            return True
        todo.extend(t.children())
    return False


def inv_loop(I, s, info, guard):
    """while loop by inductive invariant"""
    p = I.p
    info.iswhile = True
    if info.peel:
        if not guard():
            return I.exec_block(s.orelse)
        r = I.exec_block(s.body)
        if r is not None:
            if r[0] is BRK:
                return None
            if r[0] is RET:
                return r
    names = assigned_names(s)
    idx = find_idx(I, info)
    saved_ghosts = list(p.__dict__.get("ghosts", ()))
    if idx is not None:
        p.ghosts = saved_ghosts + [idx.i, simp(idx.i + 1)]
        p.add(z3.And(zi(idx.lo) <= idx.i, idx.i <= zi(idx.hi)))
        p.add(z3.And(zi(idx.mp.span(idx.lo, idx.i)) >= 0, zi(idx.mp.span(idx.i, idx.hi)) >= 0))
    H = enter(I, s, info, idx, names)
    try:
        if not guard():
            leave(I, H)
            return I.exec_block(s.orelse)
        r = I.exec_block(s.body)
        if r is not None and r[0] is BRK:
            leave(I, H)
            return None
        if r is not None and r[0] is RET:
            leave(I, H)
            return r
    except PyRaise:
        leave(I, H)
        raise
    close(I, s, info, H, simp(idx.i + 1) if idx is not None else None)


def find_idx(I, info):
    """a cursor into a byte family: index generalisation of a while loop"""
    p = I.p
    for a in ropes_in_context(I):
        for seg in a:
            if isinstance(seg, RangeSeg) and not same(seg.lo, seg.hi):
                if getattr(info, "shift", 0):
                    lo = simp(zi(seg.lo) + 1)
                    if not p.branch(zi(lo) <= zi(seg.hi)):
                        continue
                    return Idx(lo, seg.hi, p.int("gi"), seg.mp, getattr(seg.mp, "src", None))
                return Idx(seg.lo, seg.hi, p.int("gi"), seg.mp, getattr(seg.mp, "src", None))
    return None


def ropes_in_context(I):
    out = []

    def add(v, d):
        if isinstance(v, SBytes):
            out.append(v.segs)
        elif isinstance(v, Inst) and d < 2:
            for x in v.fields.values():
                add(x, d + 1)
    env = I.frame.env
    while env is not None:
        for v in env.vars.values():
            add(v, 0)
        env = env.parent
    return out


def inv_range(I, s, info, rng, st, after=None):
    """for loop over an abstract range of elements"""
    p = I.p
    lo, hi = rng.lo, rng.hi
    isbytes = isinstance(rng, RangeSeg)

    def run_elem(k):
        if isbytes:
            itr = PIter(B.elem_bytes(rng.mp, k), kind="bytes")
            while True:
                try:
                    v = itr.next(I)
                except StopIter:
                    return None
                I.assign(s.target, v)
                r = I.exec_block(s.body)
                if r is not None and r[0] is not CNT:
                    return r
        v = rng.src.at(k)
        I.assign(s.target, v)
        r = I.exec_block(s.body)
        if r is None and after is not None:
            after()
        return None if r is not None and r[0] is CNT else r

    if info.peel:
        if not p.branch(zi(lo) < zi(hi)):
            return None
        try:
            r = run_elem(lo)
        except PyRaise:
            noted(I, lo)
            raise
        if r is not None:
            noted(I, lo)
            if r[0] is BRK:
                restore_iter(st, rng, simp(lo + 1), isbytes)
            return r
        lo = simp(lo + 1)
    names = assigned_names(s)
    i = p.int("gi")
    p.add(z3.And(zi(lo) <= i, i <= zi(hi)))
    p.add(zi(lo) <= zi(hi))
    idx = Idx(lo, hi, i, rng.mp if isbytes else None,
              getattr(rng.mp, "src", None) if isbytes else rng.src)
    p.ghosts = list(p.__dict__.get("ghosts", ())) + [i, simp(i + 1)]
    # the loop variable itself is defined by the index
    tnames = target_names(s.target)
    H = enter_for(I, s, info, idx, names - tnames)
    try:
        if not p.branch(i < zi(hi)):
            leave(I, H)
            every_element(I, info, H, rng, lo, run_elem)
            for n in tnames:
                set_env(I.frame, n, Poison(info.key, n))
            return None
        for n in tnames:
            set_env(I.frame, n, Poison(info.key, n))
        r = run_elem(i)
        if r is not None:
            leave(I, H)
            noted(I, i)
            if r[0] is BRK:
                restore_iter(st, rng, simp(i + 1), isbytes)
            return r
    except PyRaise:
        leave(I, H)
        noted(I, i)
        raise
    close(I, s, info, H, simp(i + 1))


def noted(I, i):
    """the loop stopped at i: what is known of all elements is known of that one"""
    if I.p.__dict__.get("univ"):
        witness(I, i)


def unchanging(info, H):
    """does no iteration change anything that outlives it?"""
    return not info.heap and not set(H.G.leaves) - {"#i"} and all(isinstance(v, Poison) for v in H.head_locals.values())


def every_element(I, info, H, rng, lo, run_elem):
    """a loop that changes nothing has ended: no element made it stop earlier"""
    p = I.p
    if not unchanging(info, H):
        return
    for k in list(p.__dict__.get("interest", ())):
        for at in [k] if same(rng.lo, 0) else [k, simp(zi(rng.lo) + zi(k))]:
            if p.branch(z3.And(zi(lo) <= zi(at), zi(at) < zi(rng.hi))):
                try:
                    if run_elem(at) is not None:
                        raise PathEnd()
                except PyRaise:
                    raise PathEnd()
                for n, v in H.head_locals.items():
                    set_env(I.frame, n, v)
    first = p.counter
    k = p.int("k")

    def one():
        p.add(z3.And(zi(lo) <= k, k < zi(rng.hi)))
        if run_elem(k) is not None:
            raise PathEnd()
    results = nested(I, one)
    if any(not added for added, kind, _, _ in results if kind == "ok") or \
            all(kind == "ok" for _, kind, _, _ in results) and len(results) > 8:
        return
    fact = z3.Or(*[z3.And(*added) for added, kind, _, _ in results if kind == "ok"])
    fresh = fresh_in(fact, first, k)
    if fresh is None:
        return

    def holds(at):
        p.add(z3.substitute(fact, (k, zi(at)), *[(c, z3.Const(p.fresh_name("e"), c.sort())) for c in fresh]))
    forall(I, lo, rng.hi, holds)


def fresh_in(fact, first, k):
    """the constants in a formula that were made after the first-th (None if there are functions among them)"""
    seen, out, todo = set(), [], [fact]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if not z3.is_app(t):
            return None
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            number = d.name().rpartition("!")[2]
            if number.isdigit() and int(number) > first and not t.eq(k):
                if d.arity():
                    return None
                out.append(t)
        todo.extend(t.children())
    return out


def enter_for(I, s, info, idx, names):
    return enter(I, s, info, idx, names)


def restore_iter(st, rng, k, isbytes):
    if isbytes:
        raise Unsupported("break inside a byte family")
    st.items.insert(0, Range(rng.src, k, rng.hi))


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


# ---------------------------------------------------------------------------
# comprehensions

def comprehension(I, node, elt, first=None, out=None):
    """evaluate a comprehension; result: list of items and Ranges"""
    fr = I.frame
    out = [] if out is None else out
    env0 = fr.env
    env = Cell(env0)
    fr.env = env
    scope_names = set()
    try:
        gen_rec(I, node, elt, 0, first, out)
    finally:
        fr.env = env0
    return out


def gen_rec(I, node, elt, gi, first, out):
    p = I.p
    if gi == len(node.generators):
        out.append(I.eval(elt))
        return
    g = node.generators[gi]
    if gi == 0 and first is not None:
        itr = first
    else:
        itr = I.iter(I.eval(g.iter))
    st = structured_items(I, itr)
    if st is None:
        n = 0
        while True:
            try:
                v = itr.next(I)
            except StopIter:
                return
            one(I, node, elt, gi, g, v, out)
            n += 1
            if n > 5000:
                raise Unsupported("long comprehension")
    items = st
    while items.items:
        x = items.items[0]
        if isinstance(x, Sub) and not isinstance(x.n, int):
            from . import lib
            x = items.items[0] = lib.sub_range(x)
        if isinstance(x, Range) and not small(I, x):
            items.items.pop(0)
            if gi != len(node.generators) - 1 or g.ifs:
                raise Unsupported("filtered comprehension over an abstract sequence")
            out.append(map_range(I, node, elt, g, x))
            continue
        if isinstance(x, RangeSeg):
            raise Unsupported("comprehension over a byte family")
        if isinstance(x, Lazy):
            items.items.pop(0)
            v = x.f()
        else:
            try:
                v = items.next(I)
            except StopIter:
                break
        one(I, node, elt, gi, g, v, out)
    if items.exc is not None:
        e, items.exc = items.exc, None
        raise e


def one(I, node, elt, gi, g, v, out):
    I.assign_comp(g.target, v)
    for c in g.ifs:
        if not I.truth(I.eval(c)):
            return
    gen_rec(I, node, elt, gi + 1, None, out)


def map_range(I, node, elt, g, rng):
    """[elt for x in rng]: a sequence whose element k is elt evaluated at rng[k]"""
    p = I.p
    fr = I.frame
    env = fr.env
    free = {n.id for n in ast.walk(elt) if isinstance(n, ast.Name)} - target_names(g.target)
    closed = not any(lookup_env(fr, n) is not UNBOUND for n in free)
    key = (id(node), id(rng.src)) if closed else None
    cache = p.__dict__.setdefault("compcache", {})
    if key is not None and key in cache:
        src = cache[key][0]
    else:
        envs = dict(env.vars)

        def at(k):
            frame = I.frame
            cur = fr.env
            sub = Cell(env)
            try:
                I.frame = fr
                fr.env = sub
                I.assign_comp(g.target, rng.src.at(k))
                return I.eval(elt)
            finally:
                fr.env = cur
                I.frame = frame
        src = Seq(p.fresh_name("comp"), at)
        src.base = rng.src
        if key is not None:
            cache[key] = (src, node, rng.src)

    def probe():
        k = p.int("k")
        p.add(z3.And(k >= zi(rng.lo), k < zi(rng.hi)))
        src.at(k)
        return True
    res = nested(I, probe)
    if not res:
        # no element can exist
        return Range(src, rng.lo, rng.hi)
    for _, kind, v, log in res:
        if log.old and writes_visible(I, log):
            raise Unsupported("comprehension with side effects")
    if any(kind == "raise" for _, kind, _, _ in res):
        if p.branch(p.bool("raises")):
            k = p.int("k")
            p.add(z3.And(k >= zi(rng.lo), k < zi(rng.hi)))
            src.at(k)               # must raise here
            raise PathEnd()
        # no element raises: evaluation of an element that raises is excluded
        inner = src._at

        def safe(k):
            try:
                return inner(k)
            except PyRaise:
                raise PathEnd()
        s2 = Seq(src.name + "'", safe)
        s2.base = rng.src
        src = s2
        if key is not None:
            cache[key] = (src, node, rng.src)
    return Range(src, rng.lo, rng.hi)


def writes_visible(I, log):
    ids, objs = reach(I)
    return any(oid in ids for (oid, _) in log.old)


def range_bytes(I, rng):
    """b"".join over an abstract range of byte strings"""
    p = I.p
    cache = p.__dict__.setdefault("compcache", {})
    key = ("join", id(rng.src))
    if key in cache:
        mp = cache[key][0]
    else:
        mp = new_map(I, "join", lambda k: rope(rng.src.at(k)), rng.lo, rng.hi)
        mp.src = getattr(rng.src, "base", None)
        cache[key] = (mp, rng.src)
    return [RangeSeg(mp, rng.lo, rng.hi)]


def any_all(I, itr, want):
    """any(it) (want=True) / all(it) (want=False)"""
    p = I.p
    st = structured_items(I, itr)
    if st is None:
        n = 0
        while True:
            try:
                v = itr.next(I)
            except StopIter:
                return not want
            if I.truth(v) == want:
                return want
            n += 1
            if n > 5000:
                raise Unsupported("long any/all")
    while st.items:
        x = st.items[0]
        if isinstance(x, Sub) and not isinstance(x.n, int):
            from . import lib
            x = st.items[0] = lib.sub_range(x)
        if isinstance(x, Range) and not small(I, x):
            st.items.pop(0)

            def probe():
                k = p.int("k")
                p.add(z3.And(k >= zi(x.lo), k < zi(x.hi)))
                return I.truth(x.src.at(k))
            res = nested(I, probe)
            if any(kind == "raise" for _, kind, _, _ in res):
                if p.branch(p.bool("raises")):
                    k = p.int("k")
                    p.add(z3.And(k >= zi(x.lo), k < zi(x.hi)))
                    x.src.at(k)
                    raise PathEnd()
            vals = {v for _, kind, v, _ in res if kind == "ok"}
            if vals <= {not want}:
                continue
            if p.branch(p.bool("exists")):
                k = p.int("k")
                p.add(z3.And(k >= zi(x.lo), k < zi(x.hi)))
                if I.truth(x.src.at(k)) != want:
                    raise PathEnd()
                witness(I, k)
                return want

            # for all elements: not want
            def holds(k, x=x):
                if I.truth(x.src.at(k)) == want:
                    raise PathEnd()
            forall(I, x.lo, x.hi, holds)
            continue
        if isinstance(x, Lazy):
            st.items.pop(0)
            v = x.f()
        else:
            index = x.lo if isinstance(x, Range) else None
            try:
                v = st.next(I)
            except StopIter:
                break
            if index is not None and "univ" in p.__dict__:
                witness(I, zi(index))
        if I.truth(v) == want:
            return want
    if st.exc is not None:
        e, st.exc = st.exc, None
        raise e
    return not want


def witness(I, k):
    """k is an index of interest: every known universal fact is instantiated there"""
    p = I.p
    ks = p.__dict__.setdefault("skolem", {})
    ks[len(ks)] = k
    for fact in list(p.__dict__.get("univ", {}).values()):
        instantiate(I, fact, k)


def forall(I, lo, hi, holds):
    """record that holds(k) (which ends the path otherwise) for lo <= k < hi"""
    p = I.p
    us = p.__dict__.setdefault("univ", {})
    fact = us[len(us)] = (lo, hi, holds)
    for k in list(p.__dict__.get("skolem", {}).values()):
        instantiate(I, fact, k)


def instantiate(I, fact, k):
    lo, hi, holds = fact
    if I.p.branch(z3.And(zi(lo) <= zi(k), zi(k) < zi(hi))):
        try:
            holds(k)
        except PyRaise:
            pass
