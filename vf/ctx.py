"""Verification contexts: the same contract harness runs

 * symbolically (SymCtx): all feasible paths, every `check` is an obligation decided by z3,
 * concretely (ConcreteCtx): replay of a counter-model, or random cross-check, on the unmodified modules.
"""
import time, random, types
from fractions import Fraction
import z3
from . import sym as S
from .sym import (PathEnd, Unsupported, Restart, Budget, SymInt, SymReal, SymBool, SymStr, sbool, zb, conj, disj, neg,
                  implies, iff, ite)


class ShapeMismatch(S.VfStop):
    """the private representation a state-injecting contract talks about is not there any more"""


class CheckFailed(S.VfStop):
    def __init__(self, name, info=None):
        self.name = name
        self.info = info


class BaseCtx:
    symbolic = False
    segments = False

    def __init__(self):
        self.world = None
        self.reset_path()

    def reset_path(self):
        self.counts = {}
        self.g = {}
        self._now = 0
        self.trace = []

    def key(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    # -- program under verification
    def mod(self, name):
        return self.world.load(name)

    def stub(self, name, **attrs):
        """a module of the environment, with these attributes"""
        m = self.world.stubs.setdefault(name, types.ModuleType(name))
        m.__dict__.update(attrs)
        return m

    def get(self, path):
        """ 'pyswitch.misc:PeriodCounter' """
        m, a = path.split(":")
        return getattr(self.mod(m), a)

    # -- clock (integer milliseconds)
    def seq(self, n, elem):
        """list of n elements elem(0), elem(1), ...; n may be symbolic (unbounded)"""
        if self.symbolic and isinstance(n, S.SymInt): return S.Seq(n, elem)
        if n > 200000: raise PathEnd()
        return [elem(i) for i in range(n)]

    def seg(self, name, make, calls=None, inv=None, after=None, passed=None, grows=None):
        """any number of arbitrary elements (see sym.Seg); concretely a few"""
        self.segments = True
        if self.symbolic: return S.Seg(name, make, calls, inv, after, passed=passed, grows=grows)
        n = self.int(name + " length", 0, 3) if self.rng is not None else self.int(name + " length", 0)
        s = S.Seg(name, make, calls, inv, after, passed=passed, grows=grows)
        s.elements = [make() for i in range(min(n, 50))]
        return s

    def segs(self, *items):
        """list made of known elements and segments"""
        if self.symbolic: return S.SegList(items)
        out = []
        for x in items:
            if isinstance(x, S.Seg): out.extend(x.elements)
            else: out.append(x)
        return out

    def flat(self, items, grows):
        """list of all the items appended by a loop over the list made of these items; grows(e) are those of a known element"""
        out = S.SegList([]) if self.symbolic else []
        for x in items:
            if not isinstance(x, S.Seg): out.extend(grows(x))
            elif self.symbolic: out.append(x.flattened())
            else:
                for e in x.elements: out.extend(x.grows(e))
        return out

    def check_items(self, name, got, want):
        """the same objects"""
        got, want = [list(x.items) if isinstance(x, S.SegList) else list(x) for x in (got, want)]
        self.check(name, len(got) == len(want) and all(x is y or isinstance(x, S.Seg) and isinstance(y, S.Seg) and x.spec is y.spec and x.part == y.part
            and not x.dropped and not y.dropped for x, y in zip(got, want)), lambda: "got %r, expected %r" % (got, want))

    def twin(self, lst, fn):
        """list parallel to lst: fn(element) for each element"""
        return S.Twin(lst, fn) if isinstance(lst, S.SegList) else [fn(x) for x in lst]

    def while_rule(self, name, calls=None, inv=None):
        """while loops are handled by the loop rule from now on: calls(): ghost trace of an iteration which is followed by another one; inv(k):
        holds before each iteration (k: iterations completed); rule.k, rule.mark(): the iterations completed before the last one"""
        self.rule = S.WhileRule(name, calls, inv)
        return self.rule

    def position(self):
        """number of elements of the same segment before the one a loop is being checked for"""
        return self.within.n()

    def unroll(self, items, calls):
        """ghost trace of a loop over the list made of these items; calls(e) are those of a known element"""
        out = []
        for x in items:
            if not isinstance(x, S.Seg): out.extend(calls(x))
            elif self.symbolic:
                for y in x.flat():
                    if x.calls is None: continue
                    if not isinstance(y, S.Seg): out.extend(x.calls(y))
                    else: out.append(y.mark())
            else:
                for e in x.elements: out.extend(x.calls(e) if x.calls else [])
        return out

    rule = None

    def ghosts(self): return [self.trace] + self.g.get("ghosts", [])

    def now(self): return self._now
    def set_now(self, t): self._now = t
    def advance(self, dt): self._now = self._now + dt

    # -- state injection for inductive contracts
    def inject(self, obj, fields, allow=()):
        """set private fields; the object must have exactly the fields the coupling invariant knows about"""
        d = obj.__dict__
        for k in fields:
            if k not in d:
                raise ShapeMismatch("%s has no field %s" % (type(obj).__name__, k))
        known = set(fields) | set(allow)
        extra = [k for k in d if k not in known]
        if extra:
            raise ShapeMismatch("%s has fields the coupling invariant does not know: %s" % (type(obj).__name__, sorted(extra)))
        for k, v in fields.items():
            d[k] = v

    def field(self, obj, name):
        d = obj.__dict__
        if name not in d:
            raise ShapeMismatch("%s has no field %s" % (type(obj).__name__, name))
        return d[name]

    def field_of(self, cls, name):
        if name not in vars(cls): raise ShapeMismatch("%s has no attribute %s" % (cls.__name__, name))
        return vars(cls)[name]

    # -- helpers valid in both modes
    def all(self, xs): return conj(xs)
    def any(self, xs): return disj(xs)
    def not_(self, x): return neg(x)
    def implies(self, a, b): return implies(a, b)
    def iff(self, a, b): return iff(a, b)
    def ite(self, c, a, b): return ite(c, a, b)
    def flag(self, name): return self.choice(name, (False, True))

    def eq(self, a, b):
        """deep equality as one condition (never forks)"""
        if a is b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return self.text_eq(a, b)
        if isinstance(a, (bytes, S.SymBytes)) and isinstance(b, (bytes, S.SymBytes)):
            a, b = list(a), list(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if len(a) != len(b):
                return False
            return conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return conj([self.eq(a[k], b[k]) for k in a])
        if a is None or b is None:
            return False
        r = (a == b)
        if r is NotImplemented:
            return False
        return r if isinstance(r, S.Sym) else bool(r)

    def check_eq(self, name, got, want, info=None):
        self.check(name, self.eq(got, want), info if info is not None else (lambda: "got %r, expected %r" % (self.show(got), self.show(want))))

    def check_trace(self, name, got, want):
        if self.symbolic: got, want = S.unmark(got), S.unmark(want)
        self.check_eq(name, list(got), list(want))

    def check_is(self, name, got, want):
        self.check(name, got is want, lambda: "got %r, expected %r" % (got, want))

    def raises(self, fn, exc=Exception):
        """True if fn() raises exc"""
        try:
            fn()
        except exc:
            return True
        return False

    def show(self, x): return x


class ConcreteCtx(BaseCtx):
    def __init__(self, assignment=None, rng=None):
        super().__init__()
        self.assignment = assignment or {}
        self.rng = rng
        self.used = {}
        self.checked = 0
        self.names = set()
        self.missing = []

    def _get(self, name, gen, default):
        k = self.key(name)
        if k in self.assignment:
            v = self.assignment[k]
        elif self.rng is not None:
            v = gen(self.rng)
        else:
            v = default
            self.missing.append(k)
        self.used[k] = v
        return v

    def int(self, name, lo=None, hi=None):
        def gen(r):
            l = lo if lo is not None else -1000
            h = hi if hi is not None else (l + 100000 if lo is not None else 1000)
            if h < l:
                raise PathEnd()
            k = r.random()
            if k < 0.35:
                return max(l, min(h, r.choice((l, l + 1, h, h - 1, 0, 1, 2, -1))))
            if k < 0.7:
                return max(l, min(h, l + r.randint(0, 12) if lo is not None else r.randint(-3, 8)))
            return r.randint(l, h)
        d = 0
        if lo is not None: d = max(d, lo)
        if hi is not None: d = min(d, hi)
        return int(self._get(name, gen, d))

    def real(self, name, lo=None, hi=None):
        def gen(r):
            l = lo if lo is not None else -10
            h = hi if hi is not None else l + 20
            return float(Fraction(r.randint(int(l * 64), int(h * 64)), 64))
        v = self._get(name, gen, float(lo if lo is not None else 0))
        if isinstance(v, str):
            v = Fraction(v)
        return float(v)

    def bool(self, name):
        return bool(self._get(name, lambda r: r.random() < 0.5, False))

    def choice(self, name, options, weights=None):
        options = list(options)
        i = self._get(name, lambda r: r.choices(range(len(options)), weights)[0] if weights else r.randrange(len(options)), 0)
        if not 0 <= i < len(options):
            raise PathEnd()
        return options[i]

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def check(self, name, cond, info=None):
        self.checked += 1
        self.names.add(name)
        if not cond:
            if callable(info):
                info = info()
            raise CheckFailed(name, info)

    def cover(self, name, cond=True): pass

    def text_eq(self, a, b): return a == b
    def is_true(self, x): return bool(x)
    def monotonic(self): return Fraction(self._now, 1000)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, timeout_ms=15000, deadline=None, max_paths=20000, max_decisions=3000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.decisions = []        # list of [value, [alternatives]]
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.stats = {"paths": 0, "queries": 0, "solver_s": 0.0, "ended": 0}
        self.obl = {}              # name -> {"discharged": n, "refuted": n, "unknown": n}
        self.failures = []
        self.unknowns = []
        self.unsupported = {}
        self.covers = {}
        self.smt_dump = None
        self.loopinfo = {}
        self.tok_by_expr = {}
        self.tok_by_char = {}
        self.keep = []
        self.interned = {}
        super().__init__()

    def reset_path(self):
        super().reset_path()
        self.pos = 0
        self.inputs = {}
        self.pc = []
        self.ndec = 0

    # -- solver
    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget used up")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def add(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def _take(self, n):
        """next recorded decision or None"""
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
            self.pos += 1
            return v
        return None

    def _record(self, v, alts):
        self.ndec += 1
        if self.ndec > self.max_decisions or self.pos > self.max_decisions:
            raise Unsupported("too many decisions on one path")
        self.decisions.append([v, list(alts)])
        self.pos += 1

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        v = self._take(2)
        if v is None:
            can_t = self._check(e) != z3.unsat
            can_f = self._check(z3.Not(e)) != z3.unsat if can_t else True
            if can_t and can_f:
                self._record(True, [False])
                v = True
            else:
                v = can_t
                self._record(v, [])
        self.add(e if v else z3.simplify(z3.Not(e)))
        return v

    def is_true(self, x):
        """python bool of a condition, forking"""
        return bool(x)

    def valid(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        return self._check(z3.Not(e)) == z3.unsat

    def concretize(self, s, limit=70):
        e = z3.simplify(s.e)
        c = S.as_const(e)
        if c is not None:
            return c
        for _ in range(limit):
            v = self._take(0)
            if v is None:
                if self._check() != z3.sat:
                    raise Unsupported("cannot enumerate the values of an integer")
                val = self.solver.model().eval(e, model_completion=True).as_long()
                rest = self._check(e != val) != z3.unsat
                self._record(("v", val, True), [("v", val, False)] if rest else [])
                v = ("v", val, True)
            _, val, eq = v
            if eq:
                self.add(e == val)
                return val
            self.add(e != val)
        raise Unsupported("more than %d values for an integer used as an index or a count" % limit)

    # -- inputs
    def _reg(self, k, kind, term):
        self.inputs[k] = (kind, term)

    def int(self, name, lo=None, hi=None):
        k = self.key(name)
        x = z3.Int(k)
        self._reg(k, "int", x)
        if lo is not None: self.add(x >= S._lift(lo)[0])
        if hi is not None: self.add(x <= S._lift(hi)[0])
        return SymInt(x)

    def real(self, name, lo=None, hi=None):
        k = self.key(name)
        x = z3.Real(k)
        self._reg(k, "real", x)
        if lo is not None: self.add(x >= S._lift(float(lo) if isinstance(lo, int) else lo)[0])
        if hi is not None: self.add(x <= S._lift(float(hi) if isinstance(hi, int) else hi)[0])
        return SymReal(x)

    def bool(self, name):
        k = self.key(name)
        x = z3.Bool(k)
        self._reg(k, "bool", x)
        return SymBool(x)

    def choice(self, name, options, weights=None):
        options = list(options)
        k = self.key(name)
        v = self._take(0)
        if v is None:
            v = 0
            self._record(0, range(1, len(options)))
        self.inputs[k] = ("choice", v)
        return options[v]

    def pick(self, name):
        """free choice of the engine (not an input)"""
        v = self._take(0)
        if v is None:
            v = True
            self._record(True, [False])
        return v

    def pick_of(self, name, options):
        v = self._take(0)
        if v is None:
            v = 0
            self._record(0, range(1, len(options)))
        return options[v]

    def assume(self, cond):
        if isinstance(cond, S.Sym) or z3.is_expr(cond):
            e = z3.simplify(zb(cond))
            if z3.is_true(e):
                return
            v = self._take(0)
            if v is None:
                ok = (not z3.is_false(e)) and self._check(e) != z3.unsat
                v = ok
                self._record(v, [])
            if not v:
                raise PathEnd()
            self.add(e)
        elif not cond:
            raise PathEnd()

    def cover(self, name, cond=True):
        if cond is True or (not isinstance(cond, S.Sym) and cond):
            self.covers[name] = True
        elif isinstance(cond, S.Sym) and not self.covers.get(name):
            self.covers[name] = self._check(zb(cond)) == z3.sat
        else:
            self.covers.setdefault(name, False)

    # -- obligations
    def check(self, name, cond, info=None):
        o = self.obl.setdefault(name, {"discharged": 0, "refuted": 0, "unknown": 0})
        if isinstance(cond, S.Sym) or z3.is_expr(cond):
            e = z3.simplify(zb(cond))
        else:
            e = z3.BoolVal(bool(cond))
        if z3.is_true(e):
            if self.pos >= len(self.decisions): o["discharged"] += 1
            return
        v = self._take(0)
        if v is None:
            ne = z3.simplify(z3.Not(e))
            r = self._check(ne) if not z3.is_false(e) else self._check()
            if self.smt_dump is not None and len(self.smt_dump) < 400:
                s2 = z3.Solver()
                s2.add(*self.pc); s2.add(ne)
                self.smt_dump.append((name, str(r), s2.to_smt2()))
            if r == z3.unsat:
                o["discharged"] += 1
                v = "ok"
            elif r == z3.sat:
                o["refuted"] += 1
                m = self.solver.model()
                self.failures.append(self._failure(name, m, info))
                v = "bad"
                if z3.is_false(e) or self._check(e) == z3.unsat:
                    v = "end"
            else:
                o["unknown"] += 1
                self.unknowns.append(name)
                v = "ok"
            self._record(v, [])
        if v == "end":
            raise PathEnd()
        self.add(e)

    def _failure(self, name, m, info):
        asg = {}
        for k, (kind, t) in self.inputs.items():
            if kind == "choice":
                asg[k] = t
            else:
                val = m.eval(t, model_completion=True)
                c = S.as_const(val)
                if c is None:
                    c = 0
                asg[k] = str(c) if isinstance(c, Fraction) else c
        txt = None
        if info is not None:
            try:
                txt = info() if callable(info) else info
            except S.VfStop:
                raise
            except BaseException as ex:
                txt = "(%s)" % ex
        return {"obligation": name, "assignment": asg, "info": None if txt is None else str(txt)[:2000],
                "path_condition": [str(p)[:300] for p in self.pc[-30:]]}

    def check_exception(self, ex, where):
        """an exception escaped from the code under verification: obligation 'does not raise' is refuted (needs replay)"""
        name = "no unexpected exception"
        o = self.obl.setdefault(name, {"discharged": 0, "refuted": 0, "unknown": 0})
        if self._check() != z3.sat:
            return
        o["refuted"] += 1
        f = self._failure(name, self.solver.model(), "%s: %s at %s" % (type(ex).__name__, ex, where))
        f["exception"] = True
        self.failures.append(f)

    # -- text
    def token(self, s, spec=''):
        e = z3.simplify(s.e)
        c = S.as_const(e)
        if c is not None and not isinstance(s, SymStr):
            if isinstance(s, SymInt): return format(int(c), spec)
            return format(float(c), spec)
        k = (e.get_id(), spec)
        ch = self.tok_by_expr.get(k)
        if ch is None:
            ch = chr(0xE000 + len(self.tok_by_expr)) if len(self.tok_by_expr) < 6000 else None
            if ch is None:
                raise Unsupported("too many symbolic texts")
            self.tok_by_expr[k] = ch
            self.tok_by_char[ch] = (e, spec, s.kind if isinstance(s, S.SymNum) else 's')
            self.keep.append(e)
        return ch

    def strterm(self, o):
        if isinstance(o, SymStr): return o.e
        if not isinstance(o, str): return None
        if o not in self.interned:
            self.interned[o] = len(self.interned)
        return z3.IntVal(self.interned[o])

    def has_token(self, s):
        return any('\ue000' <= ch <= '\uf8ff' for ch in s)

    def _pieces(self, s):
        out = []
        lit = ''
        for ch in s:
            if ch in self.tok_by_char:
                if lit: out.append(lit); lit = ''
                out.append((ch,))
            else:
                lit += ch
        if lit: out.append(lit)
        return out

    def _number_texts(self, pa, pb):
        """texts in which every symbolic part is an integer and touches neither digits nor signs: read from left to right the parts are
        unique, so the texts are equal iff the literals are and the numbers are.  None: not of this kind"""
        import re
        sides = []
        for ps in (pa, pb):
            out = []                       # str (one character of a literal) | z3 integer
            for p in ps:
                if isinstance(p, tuple):
                    e, spec, kind = self.tok_by_char[p[0]]
                    if kind != 'i' or spec not in ('', 'd'): return None
                    if out and not isinstance(out[-1], str): return None
                    if out and out[-1] in "-0123456789" and not (out[-1] == '-' and self.valid(e >= 0)): return None
                    out.append(e)
                else:
                    if out and not isinstance(out[-1], str) and p[0] in "0123456789": return None
                    for m in re.finditer("[0-9]+|[^0-9]", p):
                        t = m.group()
                        if t[0] in "0123456789":
                            if len(t) > 1 and t[0] == "0": return None
                            out.append(z3.IntVal(int(t)))
                        else: out.append(t)
            sides.append(out)
        cs = []
        for i in range(max(len(sides[0]), len(sides[1]))):
            x, y = (s[i] if i < len(s) else "" for s in sides)
            if isinstance(x, str) and isinstance(y, str):
                if x != y: return False
            elif isinstance(x, str) or isinstance(y, str):
                if "-" in (x, y): return None
                return False
            else: cs.append(x == y)
        return sbool(z3.And(cs))

    def text_eq(self, a, b):
        if a == b:
            return True
        if not self.has_token(a) and not self.has_token(b):
            return False
        pa, pb = self._pieces(a), self._pieces(b)
        if len(pa) == len(pb) and all((isinstance(x, tuple) and isinstance(y, tuple)) or x == y for x, y in zip(pa, pb)):
            cs = []
            for x, y in zip(pa, pb):
                if isinstance(x, tuple):
                    ex, sx, kx = self.tok_by_char[x[0]]
                    ey, sy, ky = self.tok_by_char[y[0]]
                    if sx != sy:
                        raise Unsupported("comparison of differently formatted symbolic texts")
                    if kx != ky:
                        raise Unsupported("comparison of texts of symbolic values of different kinds")
                    cs.append(ex == ey)
            # literals between tokens could only shift if digits adjoin them
            return sbool(z3.And(cs))
        r = self._number_texts(pa, pb)
        if r is not None:
            return r
        if self.has_token(a) and self.has_token(b):
            raise Unsupported("comparison of differently structured symbolic texts %r / %r" % (pa, pb))
        if self.has_token(b):
            pa, pb, a, b = pb, pa, b, a
        # a has tokens, b literal
        import re
        rx = ''
        toks = []
        for p in pa:
            if isinstance(p, tuple):
                e, spec, kind = self.tok_by_char[p[0]]
                if spec == 'chr':
                    rx += '([\\s\\S])'
                elif kind == 'i' and spec in ('', 'd'):
                    rx += '(-?(?:0|[1-9][0-9]*))'
                else:
                    # formatted/real text: compare only if impossible by literals
                    rx += '([\\s\\S]+)'
                toks.append((e, spec, kind))
            else:
                rx += re.escape(p)
        mm = re.fullmatch(rx, b)
        if not mm:
            return False
        cs = []
        for (e, spec, kind), g in zip(toks, mm.groups()):
            if spec == 'chr':
                cs.append(e == ord(g))
            elif kind == 'i' and spec in ('', 'd'):
                cs.append(e == int(g))
            else:
                raise Unsupported("comparison of formatted symbolic text with a constant")
        return sbool(z3.And(cs))

    def show(self, x):
        if isinstance(x, (list, tuple)):
            return [self.show(y) for y in x]
        if isinstance(x, S.SymBytes):
            return ["bytes"] + [self.show(y) for y in x.items]
        if isinstance(x, (S.SymNum, SymBool)):
            return "<%s>" % z3.simplify(x.e)
        if isinstance(x, str):
            out = ''
            for p in self._pieces(x):
                out += p if isinstance(p, str) else "<%s>" % self.tok_by_char[p[0]][0]
            return out
        return x

    def monotonic(self):
        n = self._now
        if isinstance(n, SymInt):
            return SymReal(z3.simplify(z3.ToReal(n.e) / 1000), (n.e, 1000))
        return Fraction(n, 1000)

    # -- exploration
    def explore(self, run_path):
        """run_path(ctx) executes one path; all feasible paths are explored depth first"""
        self.decisions = []
        while True:
            self.reset_path()
            self.solver.push()
            n0 = len(self.decisions)
            try:
                run_path(self)
                self.stats["ended"] += 1
            except PathEnd:
                pass
            except Unsupported as u:
                self.unsupported[str(u)] = self.unsupported.get(str(u), 0) + 1
            finally:
                self.solver.pop()
            self.stats["paths"] += 1
            # backtrack
            del self.decisions[max(self.pos, 0):]
            while self.decisions and not self.decisions[-1][1]:
                self.decisions.pop()
            if not self.decisions:
                return
            if self.stats["paths"] >= self.max_paths:
                raise Budget("path budget used up")
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget used up")
            d = self.decisions[-1]
            d[0] = d[1].pop(0)
