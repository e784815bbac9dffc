"""Loops over lists with segments of unbounded length (sym.SegList).

The rule, applied whenever instrumented code iterates over a segment:
 * step: the body is executed once for an arbitrary element of the segment, from an arbitrary state the loop may have at
   that moment.  If the body completes, it has to have produced exactly the ghost trace `calls` specifies for the element
   and may not have changed anything else (see Frame); that path ends there.  If the body leaves the loop (break, return,
   exception), the path continues behind the loop with the elements before having been handled completely.
 * exit: the path continues behind the segment with the ghost trace extended by "for each element: its calls".
Locations the body does change (flags like "found = True") are not part of the frame: they are found automatically, and
the exploration is restarted with these locations having an arbitrary one of the values seen (the finite invariant is
checked on every step path and extended until it is inductive) or, for other values, an unusable one (sym.POISON).
"""
import sys, ctypes, types, operator, gc
import z3
from . import sym as S
from .sym import PathEnd, Unsupported, Restart, Seg, SegList, POISON

LEAF = (int, float, str, bytes, bool, type(None), S.Sym, S.SymBytes, type, types.BuiltinFunctionType, types.ModuleType, z3.AstRef, S.Poison, range, S.Seg, S.Twin)


def _engine(x):
    m = getattr(type(x), "__module__", "") or ""
    return m.startswith("vf.ctx") or m.startswith("vf.world") or m.startswith("z3")


class Snapshot:
    """shallow copies of everything reachable from the frames of the code under verification and its modules"""
    def __init__(self, frames, modules, extra=()):
        self.store = {}        # id -> (object, copy, access path)
        self.frames = []
        todo = []
        for k, f in enumerate(frames):
            loc = _Locals(f.f_locals)
            self.frames.append((f, loc))
            for n, v in loc.items(): todo.append((v, "f%d.%s" % (k, n)))
        for n, m in modules.items():
            d = m.__dict__
            for a, v in list(d.items()):
                if not a.startswith("__") and not isinstance(v, types.ModuleType): todo.append((v, n + "." + a))
        for k, x in enumerate(extra): todo.append((x, "e%d" % k))
        while todo:
            x, path = todo.pop()
            if id(x) in self.store: continue
            if isinstance(x, type):
                if not (x.__module__ or "").startswith("pyswitch"): continue
                d = {k: v for k, v in vars(x).items() if not isinstance(v, (types.FunctionType, property, staticmethod, classmethod)) and not k.startswith("__")}
                self.store[id(x)] = _Entry((x, d, path))
                for k, v in d.items(): todo.append((v, path + "." + k))
                continue
            if isinstance(x, LEAF) or _engine(x): continue
            if isinstance(x, dict):
                self.store[id(x)] = _Entry((x, dict(x), path))
                for k, v in x.items():
                    todo.append((v, "%s[%r]" % (path, k if isinstance(k, (int, str)) else type(k).__name__)))
                    if not isinstance(k, LEAF): todo.append((k, path + "{k}"))
            elif isinstance(x, SegList):
                self.store[id(x)] = _Entry((x, list(x.items), path))
                for k, v in enumerate(x.items):
                    if not isinstance(v, Seg): todo.append((v, "%s<%d>" % (path, k)))
            elif isinstance(x, (list, tuple, set, frozenset)):
                self.store[id(x)] = _Entry((x, list(x), path))
                for k, v in enumerate(x): todo.append((v, "%s[%d]" % (path, k)))
                if isinstance(x, list) and hasattr(x, "__dict__"): todo.append((x.__dict__, path + ".__dict__"))
            elif isinstance(x, types.FunctionType):
                cells = x.__closure__ or ()
                self.store[id(x)] = _Entry((x, None, path))
                for k, cl in enumerate(cells):
                    try: todo.append((cl.cell_contents, "%s.cell%d" % (path, k)))
                    except ValueError: pass
            elif isinstance(x, types.MethodType):
                self.store[id(x)] = _Entry((x, None, path))
                todo.append((x.__self__, path + ".self"))
            elif hasattr(x, "__dict__"):
                self.store[id(x)] = _Entry((x, dict(x.__dict__), path))
                for k, v in x.__dict__.items(): todo.append((v, path + "." + k))
                if not isinstance(x.__class__, type): continue
                todo.append((type(x), path + ".class"))

    def diff(self, ghosts):
        """[(kind, container, key, old, new, path)] of changed locations"""
        out = []
        for x, old, path in self.store.values():
            if old is None or any(x is g for g in ghosts): continue
            if isinstance(x, type):
                new = {k: v for k, v in vars(x).items() if k in old or not (isinstance(v, (types.FunctionType, property, staticmethod, classmethod)) or k.startswith("__"))}
                kind = "class"
            elif isinstance(x, dict): new, kind = x, "dict"
            elif isinstance(x, SegList):
                if len(x.items) != len(old) or any(a is not b for a, b in zip(x.items, old)): out.append(("list", x, None, old, x.items, path))
                continue
            elif isinstance(x, (list, tuple, set, frozenset)):
                new = list(x)
                if len(new) != len(old) or any(not _unchanged(a, b) for a, b in zip(old, new)):
                    if isinstance(x, list) and len(new) == len(old):
                        for k, (a, b) in enumerate(zip(old, new)):
                            if not _unchanged(a, b): out.append(("item", x, k, a, b, path))
                    else: out.append(("list", x, None, old, new, path))
                continue
            else: new, kind = x.__dict__, "attr"
            for k in set(old) | set(new):
                a, b = old.get(k, _MISSING), new.get(k, _MISSING)
                if not _unchanged(a, b): out.append((kind, x, k, a, b, path))
        return out

    def path_of(self, x):
        e = self.store.get(id(x))
        return e[2] if e and e[0] is x else None

    def by_path(self, path):
        for x, old, p in self.store.values():
            if p == path: return x
        return None


class _M:
    def __repr__(self): return "<missing>"
_MISSING = _M()


def _unchanged(a, b):
    if a is b: return True
    if isinstance(a, S.Sym) and isinstance(b, S.Sym) and type(a) is type(b):
        return z3.eq(z3.simplify(a.e), z3.simplify(b.e))
    if type(a) is type(b) and type(a) in (int, bool, str, float, bytes): return a == b
    if type(a) is tuple and type(b) is tuple and len(a) == len(b): return all(_unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType): return a == b
    return False


def _stack(f):
    """frames of the code under verification and of the harness"""
    out = []
    while f is not None and f.f_globals.get("__name__") != "vf.run":
        n = f.f_globals.get("__name__", "")
        if not n.startswith("vf."): out.append(f)
        f = f.f_back
    return out


def _setlocal(frame, name, value):
    if value is _MISSING:
        return
    frame.f_locals[name] = value
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def _setloc(kind, x, k, v):
    if kind == "attr":
        if v is _MISSING: x.__dict__.pop(k, None)
        else: x.__dict__[k] = v
    elif kind == "dict":
        if v is _MISSING: x.pop(k, None)
        else: x[k] = v
    elif kind == "item": x[k] = v
    elif kind == "class":
        if v is not _MISSING: setattr(x, k, v)


def _abstract(v, snap):
    """restart-stable description of a value"""
    if v is _MISSING: return ("missing",)
    if v is None or type(v) in (bool, str): return ("const", v)
    if type(v) is int: return ("const", v) if abs(v) < 2 else ("int",)
    if isinstance(v, S.Sym):
        c = S.as_const(z3.simplify(v.e))
        if isinstance(v, S.Index): return ("poison",)
        if c is not None and isinstance(v, S.SymBool): return ("const", c)
        if isinstance(v, S.SymInt): return ("const", c) if c is not None and abs(c) < 2 else ("int",)
    p = snap.path_of(v)
    if p is not None: return ("ref", p)
    return ("poison",)


def _concrete(d, snap):
    if d[0] == "missing": return _MISSING
    if d[0] == "const": return d[1]
    if d[0] == "int": return S.CUR.int("loop value")
    if d[0] == "ref":
        x = snap.by_path(d[1])
        return POISON if x is None else x
    return POISON


def iterate(o):
    if isinstance(o, SegList): return _iterate(o, lambda lst, x: x)
    if isinstance(o, Iter): return _iterate(o.lst, o.what)
    if isinstance(o, S.Twin): return _iterate(o.base, lambda lst, x: o.fn(x))
    return o


class Iter:
    """range(len(list)), enumerate(list)"""
    def __init__(self, lst, what): self.lst, self.what = lst, what
    def __iter__(self): raise Unsupported("iteration over a list with segments")


def _range(*a):
    if len(a) == 1 and isinstance(a[0], S.Length): return Iter(a[0].owner, lambda lst, x: lst.index_of(x))
    if len(a) == 2 and type(a[0]) is int and a[0] == 0 and isinstance(a[1], S.Length): return Iter(a[1].owner, lambda lst, x: lst.index_of(x))
    if any(isinstance(x, S.SymBool) for x in a): raise Unsupported("range of a condition")
    return range(*[S.CUR.concretize(x) if isinstance(x, S.SymInt) else x for x in a])


def _enumerate(x, start=0):
    if isinstance(x, SegList): return Iter(x, lambda lst, e: (lst.index_of(e) + start if start else lst.index_of(e), e))
    return enumerate(x, start)


def _zip(*a):
    if any(isinstance(x, (SegList, S.Twin, Iter)) for x in a):
        fns = [((lambda x: x), l) if isinstance(l, SegList) else (l.fn, l.base) if isinstance(l, S.Twin) else (None, None) for l in a]
        if any(b is not fns[0][1] or f is None for f, b in fns): raise Unsupported("zip of different lists with segments")
        return Iter(fns[0][1], lambda lst, e: tuple(f(e) for f, b in fns))
    return zip(*a)


def _iterate(lst, what):
    ctx = S.CUR
    k = 0
    while k < len(lst.items):
        x = lst.items[k]
        if not isinstance(x, Seg):
            yield what(lst, x)
            if k >= len(lst.items) or lst.items[k] is not x: raise Unsupported("list changed while iterating over it")
            k += 1
            continue
        yield from _segment(ctx, lst, k, x, what)
        k += 1


FACTS = ("trace", "state", "kept", "dropped")


def loop():
    """while loops"""
    ctx = S.CUR
    rule = ctx.rule
    if rule is None:
        while True: yield None
    seg = Seg(rule.name, lambda: None, (lambda e: rule.calls()) if rule.calls else None)
    yield from _segment(ctx, SegList([seg]), 0, seg, lambda lst, x: None, rule=rule)


def _linear(old, new):
    """the constant number added, if it is one"""
    if isinstance(old, bool) or isinstance(new, bool): return None
    if not isinstance(old, (int, S.SymInt)) or not isinstance(new, (int, S.SymInt)) or isinstance(old, S.Index) or isinstance(new, S.Index): return None
    d = new - old
    if isinstance(d, S.Sym): d = S.as_const(z3.simplify(d.e))
    return d if type(d) is int else None


def _segment(ctx, lst, k, seg, what, frame=None, hold=None, rule=None):
    frame = frame or sys._getframe(0).f_back
    while frame.f_globals.get("__name__") == "vf.loops": frame = frame.f_back
    frames = _stack(frame)
    occ = ctx.key("loop " + seg.name)
    lkey = (seg.name, occ, frame.f_code.co_name, frame.f_lineno)
    info = ctx.loopinfo.setdefault(lkey, {})
    if hold is not None: hold.append(info)
    ghosts = ctx.ghosts()
    mods = {n: m for n, m in ctx.world.modules.items() if n.split(".")[0] == "pyswitch"}
    # arbitrary state at the start of an iteration / after the loop: changed locations have one of the values seen
    snap0 = Snapshot(frames, mods)
    linear = []
    for loc in sorted(info, key=repr):
        if loc[0] in FACTS: continue
        if loc[0] == "grow":
            # a list the loop appends each element to
            cur = frame.f_locals.get(loc[1])
            if not isinstance(cur, (list, SegList)) or info[loc] not in ({"e"}, {"items"}): raise Unsupported("a loop extends the list %s" % loc[1])
            if info[loc] == {"e"}:
                seg.n()          # as many elements
                new = seg.copy()
            else: new = seg.flattened()
            _setlocal(frame, loc[1], SegList((cur.items if isinstance(cur, SegList) else list(cur)) + [new]))
            continue
        vals = sorted(info[loc], key=repr)
        if loc[0] == "local":
            cur = frame.f_locals.get(loc[1], _MISSING)
            if len(vals) == 1 and vals[0][0] == "lin":
                linear.append((lambda v, n=loc[1]: _setlocal(frame, n, v), cur, vals[0][1]))
                continue
            opts = [("poison",)] if ("poison",) in vals else [("entry",)] + [v for v in vals if v != _abstract(cur, snap0)]
            v = ctx.pick_of(occ + " " + loc[1], opts)
            if v != ("entry",): _setlocal(frame, loc[1], _concrete(v, snap0))
        else:
            x = snap0.by_path(loc[1])
            if x is None: raise Unsupported("loop state not found: %r" % (loc,))
            cur = x[loc[3]] if loc[2] in ("dict", "item") and (loc[2] == "item" or loc[3] in x) else x.__dict__.get(loc[3], _MISSING) if loc[2] in ("attr", "class") else _MISSING
            if len(vals) == 1 and vals[0][0] == "lin":
                linear.append((lambda v, loc=loc, x=x: _setloc(loc[2], x, loc[3], v), cur, vals[0][1]))
                continue
            opts = [("poison",)] if ("poison",) in vals else [("entry",)] + [v for v in vals if v != _abstract(cur, snap0)]
            v = ctx.pick_of(occ + " " + loc[1], opts)
            if v != ("entry",): _setloc(loc[2], x, loc[3], _concrete(v, snap0))
    if ("trace",) in info and seg.calls is not None:
        for k2, d in enumerate(seg.dropped):
            # what has been filtered out before has no effects to be missed
            if ctx.pick("dropped %d " % k2 + occ):
                e = d()
                ctx.check("loop over %s: nothing expected for elements left out" % seg.name, S.unmark(list(seg.calls(e))) == [])
                raise PathEnd()
    if ("state",) in info and seg.dropped and seg.after: raise Unsupported("loop over a part of %s changes the state of the elements" % seg.name)
    if rule is None and not ctx.pick("step " + occ):
        # exit
        for put, cur, d in linear: put(cur + d * seg.n())
        if ("trace",) in info and seg.calls is not None: ctx.trace.append(seg.mark())
        if ("state",) in info and seg.after: seg.make = seg.after
        return
    if seg.length is not None: ctx.assume(seg.length >= 1)
    e = seg.make()
    parts = seg.split(e)
    if ("state",) in info and seg.after: parts[0].make = seg.after
    lst.items[k:k + 1] = parts
    ctx.within = parts[0]
    if rule:
        rule.before, rule.k = parts[0], parts[0].n()
        if rule.inv:
            ctx.check("loop %s: invariant at the start" % rule.name, rule.inv(0))
            ctx.assume(rule.inv(rule.k))
    for put, cur, d in linear: put(cur + d * parts[0].n())
    if ("trace",) in info and seg.calls is not None: ctx.trace.append(parts[0].mark())
    pos = len(ctx.trace)
    snap = Snapshot(frames, mods, (e,))
    own = Snapshot([], {}, (e,))
    if seg.calls is not None: seg.calls(e)      # installs the specifications of nested lists
    yield what(lst, e)
    # the body has completed
    if seg.passed: seg.passed(e)
    if rule and rule.inv: ctx.check("loop %s: invariant after an iteration" % rule.name, rule.inv(rule.k + 1))
    delta = ctx.trace[pos:]
    if delta and ("trace",) not in info:
        info[("trace",)] = ()
        raise Restart()
    if ("trace",) in info and seg.calls is not None: want = list(seg.calls(e))
    else: want = []
    delta, want = S.unmark(delta), S.unmark(want)
    ctx.check("loop over %s: exactly the specified effects for each element" % seg.name, ctx.eq(delta, want), lambda: "got %r, expected %r" % (ctx.show(delta), ctx.show(want)))
    changed, grown, seen = [], set(), set()
    more = False
    for kind, x, key, a, b, path in snap.diff(ghosts):
        if _owned(own, x, e, frames, mods, lst):
            if ("state",) not in info:
                info[("state",)] = ()
                more = True
            if seg.inv is None: raise Unsupported("loop changes the state of the elements of %s: %s.%s" % (seg.name, type(x).__name__, key))
            continue
        changed.append((kind, x, key, a, b, path))
    if more: raise Restart()
    if ("state",) in info and seg.inv is not None: seg.inv(e)
    for f, old in snap.frames:
        new = f.f_locals
        for n in set(old) | set(new):
            a, b = old.get(n, _MISSING), new.get(n, _MISSING)
            if _unchanged(a, b) or isinstance(a, SegList) and a is b: continue
            if f is not frame: raise Unsupported("a loop body changes variables of its callers")
            if isinstance(a, list) and isinstance(b, SegList) and _grown(seg, e, a, b.items):
                if n not in frame.f_locals or len(a) == len(b.items): continue
                grown.add(n)
                more |= _grow(info, n, seg, e, b.items[len(a):])
                continue
            seen.add(("local", n))
            more |= _note(info, ("local", n), b, a, snap)
    for kind, x, key, a, b, path in changed:
        if kind == "list":
            name = path[3:]
            if path != "f0." + name or not name.isidentifier() or not _grown(seg, e, a, b) or sum(1 for n, v in frame.f_locals.items() if v is x) != 1:
                raise Unsupported("loop over %s changes a list: %s" % (seg.name, path))
            grown.add(name)
            more |= _grow(info, name, seg, e, b[len(a):])
            continue
        if not isinstance(key, (int, str)): raise Unsupported("loop over %s changes a dictionary" % seg.name)
        seen.add(("heap", path, kind, key))
        more |= _note(info, ("heap", path, kind, key), b, a, snap)
    for loc in info:
        if loc not in seen and loc[0] in ("local", "heap") and any(v[0] == "lin" for v in info[loc]) and ("int",) not in info[loc]:
            info[loc].add(("int",))
            more = True
        if loc[0] == "grow" and loc[1] not in grown and "not all" not in info[loc] and not (info[loc] == {"items"} and not _items(seg.grows(e))):
            info[loc].add("not all")
            more = True
    if more: raise Restart()
    raise PathEnd()


def _items(x): return x.items if isinstance(x, SegList) else list(x)


def _grown(seg, e, old, new):
    """something has been appended"""
    return len(new) > len(old) and all(p is q for p, q in zip(old, new))


def _grow(info, name, seg, e, new):
    if len(new) == 1 and new[0] is e: kind = "e"
    elif seg.grows and len(new) == len(_items(seg.grows(e))) and all(p is q or isinstance(p, Seg) and isinstance(q, Seg) and p.spec is q.spec and not p.dropped and p.part == q.part
        for p, q in zip(new, _items(seg.grows(e)))): kind = "items"
    else: kind = "other"
    if kind in info.get(("grow", name), ()): return False
    info.setdefault(("grow", name), set()).add(kind)
    return True


def _note(info, loc, new, old, snap):
    s = info.setdefault(loc, set())
    lin = _linear(old, new)
    if lin is not None:
        if ("lin", lin) in s and len(s) == 1: return False
        if not s:
            s.add(("lin", lin))
            return True
    d = _abstract(new, snap)
    if any(v[0] == "lin" for v in s):
        s.clear()
        d = ("int",)
    if d[0] == "ref" and d[1].startswith("e"): d = ("poison",)
    if d in s or ("poison",) in s: return False
    if len(s) > 5: d = ("poison",)
    s.add(d)
    return True


def _owned(own, x, e, frames, mods, lst):
    """x belongs to the element only: reachable from it, but not from elsewhere (except through the list)"""
    if id(x) not in own.store: return False
    hide = lst.items
    lst.items = [y for y in hide if y is not e]
    try:
        fr = []
        s = Snapshot([], mods, [v for f in frames for n, v in f.f_locals.items() if v is not e and not isinstance(v, (tuple,))])
    finally:
        lst.items = hide
    return id(x) not in s.store


def listcomp(orig, it, cond, elt):
    if isinstance(it, Iter): lst, what = it.lst, it.what
    elif isinstance(it, S.Twin): lst, what = it.base, lambda lst, x: it.fn(x)
    elif isinstance(it, SegList): lst, what = it, lambda lst, x: x
    else: return orig(it)
    ctx = S.CUR
    frame = sys._getframe(1)
    while frame.f_globals.get("__name__").startswith("vf."): frame = frame.f_back
    out = []
    for k in range(len(lst.items)):
        x = lst.items[k]
        if not isinstance(x, Seg):
            v = what(lst, x)
            if cond is None or cond(v): out.append(elt(v))
            continue
        hold = []
        for v in _segment(ctx, lst, k, x, what, frame, hold):
            keep = True if cond is None else bool(cond(v))
            if ("kept" if keep else "dropped",) not in hold[0]:
                hold[0][("kept" if keep else "dropped",)] = ()
                raise Restart()
            if keep: elt(v)
        # exit: the elements are elt(e) for those with cond(e)
        if ("kept",) not in hold[0]: continue            # for none
        pure = not any(loc[0] not in ("kept", "dropped") for key, i in ctx.loopinfo.items() if key[0] == x.name and key[2:] == (frame.f_code.co_name, frame.f_lineno) for loc in i)

        def make(x=x, pure=pure):
            if not pure or not isinstance(it, SegList): raise Unsupported("result of a comprehension with effects")
            e = x.make()
            if cond is not None: ctx.assume(cond(e))
            return elt(e)
        s = Seg(x.name, make, spec=x.spec)
        s.part = x.part
        s.dropped = x.dropped
        if ("dropped",) in hold[0]:
            def drop(x=x):
                if isinstance(it, Iter): raise Unsupported("filtered enumeration")
                e = x.make()
                ctx.assume(not ctx.is_true(cond(it.fn(e) if isinstance(it, S.Twin) else e)))
                return e
            s.dropped = s.dropped + (drop,)
        if ("dropped",) not in hold[0]: s.length = x.n()          # for all
        out.append(s)
    return SegList(out)


class _Locals(dict):
    """copy of the variables of a frame"""
class _Entry(tuple):
    """(object, copy, access path)"""


def _aliased(a, frame):
    """is there another reference to the list than one variable of the frame?"""
    n, f = 0, frame
    while f is not None:
        if f is frame or not f.f_globals.get("__name__", "").startswith("vf."):
            for v in f.f_locals.values():
                if v is a: n += 1
        f = f.f_back
    if n != 1: return True
    for r in gc.get_referrers(a):
        if not isinstance(r, (_Locals, _Entry, types.FrameType)) and r is not frame.f_locals: return True
    return False


def iadd(a, b):
    """a += b for a local variable"""
    if type(a) is list and isinstance(b, SegList):
        if _aliased(a, sys._getframe(1)): raise Unsupported("list with aliases extended by a list with segments")
        return SegList(a + b.items)
    return operator.iadd(a, b)
