"""Symbolic values and the path-exploring verification context.

The code under verification runs under CPython itself; the values it computes with are proxies carrying z3 terms.  Each
branch on a symbolic condition forks the path (re-execution with a decision prefix), so a harness is explored on *all*
feasible paths; every `check` is an obligation  (path condition => condition)  discharged by z3.
"""
import z3
from fractions import Fraction

CUR = None            # current context (SymCtx or ConcreteCtx)


class VfStop(BaseException):      # never caught by `except Exception` in the code under verification
    pass
class PathEnd(VfStop):            # path finished early (assumption false / iteration cut)
    pass
class Unsupported(VfStop):        # outside the verifiable subset: nothing may be concluded from this path
    pass
class Restart(VfStop):            # loop invariant candidates or modified sets changed: explore again
    pass
class Budget(VfStop):
    pass


def is_sym(x):
    return isinstance(x, Sym)


def _lift(x):
    """python number / symbolic number -> (z3 term, kind) or None"""
    if isinstance(x, Sym):
        return x.num()
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0), 'i'
    if isinstance(x, int):
        return z3.IntVal(x), 'i'
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), 'r'
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}"), 'r'
    return None


def _pair(a, b):
    """lift both, harmonize kinds"""
    la, lb = _lift(a), _lift(b)
    if la is None or lb is None:
        return None
    (ea, ka), (eb, kb) = la, lb
    if ka == kb:
        return ea, eb, ka
    if ka == 'i':
        ea = z3.ToReal(ea)
    if kb == 'i':
        eb = z3.ToReal(eb)
    return ea, eb, 'r'


def mk(e, k):
    return SymInt(e) if k == 'i' else SymReal(e)


def as_const(e):
    """python value of a z3 constant term, else None"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


class Sym:
    __slots__ = ()
    def __hash__(self):
        raise Unsupported("hash of a symbolic value")
    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self


class SymNum(Sym):
    __slots__ = ('e', 'frac')
    kind = '?'

    def num(self):
        return self.e, self.kind

    # comparison
    def _cmp(self, other, op):
        p = _pair(self, other)
        if p is None:
            return NotImplemented
        a, b, _ = p
        return sbool(op(a, b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        p = _pair(self, o)
        if p is None:
            return False if not isinstance(o, Sym) else NotImplemented
        a, b, _ = p
        return sbool(a == b)
    def __ne__(self, o):
        p = _pair(self, o)
        if p is None:
            return True if not isinstance(o, Sym) else NotImplemented
        a, b, _ = p
        return sbool(a != b)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return CUR.branch(self.e != 0)

    # arithmetic
    def _ar(self, other, op):
        p = _pair(self, other)
        if p is None:
            return NotImplemented
        a, b, k = p
        return mk(z3.simplify(op(a, b)), k)
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            raise Unsupported("sequence repetition by a symbolic count")
        return _mul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return mk(-self.e, self.kind)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.e >= 0, self.e, -self.e), self.kind)
    def __truediv__(self, o): return _truediv(self, o)
    def __rtruediv__(self, o): return _truediv(o, self)
    def __floordiv__(self, o): return _floordiv(self, o)
    def __rfloordiv__(self, o): return _floordiv(o, self)
    def __mod__(self, o): return _mod(self, o)
    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("string formatting with %")
        return _mod(o, self)
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("symbolic power")
    def __divmod__(self, o): return _floordiv(self, o), _mod(self, o)

    # text
    def __str__(self): return CUR.token(self)
    def __repr__(self): return CUR.token(self)
    def __format__(self, spec):
        return CUR.token(self, spec)


class SymInt(SymNum):
    __slots__ = ()
    kind = 'i'
    def __init__(self, e):
        self.e = e
        self.frac = None
    def __index__(self):
        return CUR.concretize(self)
    def __int__(self):
        return CUR.concretize(self)
    def __lshift__(self, o):
        if isinstance(o, int): return self * (1 << o)
        raise Unsupported("symbolic shift")
    def __rshift__(self, o):
        if isinstance(o, int): return self // (1 << o)
        raise Unsupported("symbolic shift")
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return _bitop(self, o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o):
        return _bitop(self, o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o):
        return _bitop(self, o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def is_integer(self): return True


def _bitop(a, b, op):
    p = _pair(a, b)
    if p is None:
        return NotImplemented
    x, y, k = p
    if k != 'i':
        raise TypeError("bit operation on float")
    # exact for values in [0, 2^16); outside of that: unsupported
    lim = 1 << 16
    if not CUR.valid(z3.And(x >= 0, x < lim, y >= 0, y < lim)):
        raise Unsupported("bit operation on a value not known to be in [0, 65536)")
    return SymInt(z3.BV2Int(op(z3.Int2BV(x, 16), z3.Int2BV(y, 16))))


class SymReal(SymNum):
    """exact real; frac = (num term (int), den (python int > 0)) if known to be that quotient"""
    __slots__ = ()
    kind = 'r'
    def __init__(self, e, frac=None):
        self.e = e
        self.frac = frac
    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")
    def __float__(self):
        raise Unsupported("float() of symbolic value in native code")
    def is_integer(self):
        return sbool(z3.IsInt(self.e))


class SymBool(Sym):
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    def num(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 'i'
    def __bool__(self):
        return CUR.branch(self.e)
    def _bin(self, o, f, g=None):
        if isinstance(o, bool):
            return sbool(f(self.e, z3.BoolVal(o)))
        if isinstance(o, SymBool):
            return sbool(f(self.e, o.e))
        return None
    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        if r is not None:
            return r
        if _lift(o) is None:
            return False
        return SymInt(self.num()[0]) == o
    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        if r is not None:
            return r
        if _lift(o) is None:
            return True
        return SymInt(self.num()[0]) != o
    __hash__ = Sym.__hash__
    def _i(self): return SymInt(self.num()[0])
    def __and__(self, o):
        r = self._bin(o, z3.And)
        return r if r is not None else self._i() & o
    __rand__ = __and__
    def __or__(self, o):
        r = self._bin(o, z3.Or)
        return r if r is not None else self._i() | o
    __ror__ = __or__
    def __xor__(self, o):
        r = self._bin(o, z3.Xor)
        return r if r is not None else self._i() ^ o
    __rxor__ = __xor__
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __neg__(self): return -self._i()
    def __truediv__(self, o): return self._i() / o
    def __floordiv__(self, o): return self._i() // o
    def __mod__(self, o): return self._i() % o
    def __lshift__(self, o): return self._i() << o
    def __index__(self): return 1 if bool(self) else 0
    def __int__(self): return 1 if bool(self) else 0
    def __repr__(self): return repr(bool(self))
    __str__ = __repr__
    def __format__(self, spec): return format(bool(self), spec)


def sbool(e):
    """z3 Bool -> python bool if constant else SymBool"""
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _mul(a, b):
    p = _pair(a, b)
    if p is None:
        return NotImplemented
    x, y, k = p
    r = z3.simplify(x * y)
    if k == 'i':
        return SymInt(r)
    # exact quotient for  int * float constant
    for u, v in ((a, b), (b, a)):
        if isinstance(u, SymInt) and type(v) is float:
            n, d = v.as_integer_ratio()
            if d <= 64:
                return SymReal(r, (z3.simplify(u.e * n), d))
    # keep exact quotient information for  (int/den) * int
    for u, v in ((a, b), (b, a)):
        if isinstance(u, SymReal) and u.frac is not None and (isinstance(v, int) or isinstance(v, SymInt)):
            n, d = u.frac
            if isinstance(v, int) and not isinstance(v, bool):
                from math import gcd
                g = gcd(v, d)
                if g:
                    return SymReal(r, (z3.simplify(n * (v // g)), d // g))
            lv = _lift(v)[0]
            return SymReal(r, (z3.simplify(n * lv), d))
    return SymReal(r)


def _nonzero(b, eb):
    c = as_const(z3.simplify(eb))
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return
    if CUR.branch(eb == 0):
        raise ZeroDivisionError("division by zero")


def _truediv(a, b):
    la, lb = _lift(a), _lift(b)
    if la is None or lb is None:
        return NotImplemented
    (ea, ka), (eb, kb) = la, lb
    _nonzero(b, eb)
    frac = None
    cb = as_const(z3.simplify(eb))
    if ka == 'i' and kb == 'i' and cb is not None and cb > 0:
        frac = (ea, cb)
    elif isinstance(a, SymReal) and a.frac is not None and kb == 'i' and cb is not None and cb > 0:
        frac = (a.frac[0], a.frac[1] * cb)
    ra = z3.ToReal(ea) if ka == 'i' else ea
    rb = z3.ToReal(eb) if kb == 'i' else eb
    if cb is not None:
        rb = z3.RealVal(str(Fraction(cb)))
    return SymReal(z3.simplify(ra / rb), frac)


def _zfloordiv(x, y):
    """floor division on z3 ints (python semantics); z3 div: remainder always >= 0"""
    c = as_const(y)
    if c is not None and c > 0:
        return x / y
    # y < 0: floor(x / y) = -x div' ... : floor(x/y) = floor((-x)/(-y)) with -y > 0
    return z3.If(y > 0, x / y, (-x) / (-y))


def _floordiv(a, b):
    la, lb = _lift(a), _lift(b)
    if la is None or lb is None:
        return NotImplemented
    (ea, ka), (eb, kb) = la, lb
    _nonzero(b, eb)
    if ka == 'i' and kb == 'i':
        return SymInt(z3.simplify(_zfloordiv(ea, z3.simplify(eb))))
    q = _truediv(a, b)
    return SymReal(z3.ToReal(floor_term(q)))


def _mod(a, b):
    la, lb = _lift(a), _lift(b)
    if la is None or lb is None:
        return NotImplemented
    (ea, ka), (eb, kb) = la, lb
    _nonzero(b, eb)
    if ka == 'i' and kb == 'i':
        y = z3.simplify(eb)
        c = as_const(y)
        if c is not None and c > 0:
            return SymInt(z3.simplify(ea % y))
        return SymInt(z3.simplify(ea - y * _zfloordiv(ea, y)))
    q = _truediv(a, b)
    fl = floor_term(q)
    x, y, _ = _pair(SymReal(z3.ToReal(ea) if ka == 'i' else ea), SymReal(z3.ToReal(eb) if kb == 'i' else eb))
    return SymReal(z3.simplify(x - y * z3.ToReal(fl)))


def floor_term(r):
    if isinstance(r, SymReal):
        if r.frac is not None:
            n, d = r.frac
            return n / z3.IntVal(d) if d != 1 else n
        return z3.ToInt(r.e)
    return _lift(r)[0]


def trunc_term(r):
    """int(r)"""
    if isinstance(r, SymReal):
        if r.frac is not None:
            n, d = r.frac
            if d == 1:
                return n
            return z3.If(n >= 0, n / z3.IntVal(d), -((-n) / z3.IntVal(d)))
        return z3.If(r.e >= 0, z3.ToInt(r.e), -z3.ToInt(-r.e))
    return _lift(r)[0]


def round_term(r):
    """round(r): half to even"""
    if isinstance(r, SymReal):
        if r.frac is not None:
            n, d = r.frac
            f = n / z3.IntVal(d)
            rem2 = 2 * (n - f * d)
            return z3.If(rem2 < d, f, z3.If(rem2 > d, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        f = z3.ToInt(r.e)
        dd = r.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return z3.If(dd < half, f, z3.If(dd > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return _lift(r)[0]


class SymStr(Sym):
    """opaque string: only equality, emptiness and being passed around are supported"""
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    def __eq__(self, o):
        t = CUR.strterm(o)
        return False if t is None else sbool(self.e == t)
    def __ne__(self, o):
        t = CUR.strterm(o)
        return True if t is None else sbool(self.e != t)
    __hash__ = Sym.__hash__
    def __bool__(self):
        return CUR.branch(self.e != CUR.strterm(""))
    def __str__(self): return CUR.token(self)
    def __repr__(self): return "repr(" + CUR.token(self) + ")"
    def __format__(self, spec): return CUR.token(self, spec)
    def __len__(self): raise Unsupported("length of an opaque string")


class SymBytes:
    """bytes of known length with symbolic elements"""
    def __init__(self, items):
        self.items = list(items)
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(self.items)
    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.items[i])
        return self.items[i]
    def __eq__(self, o):
        if isinstance(o, bytes):
            o = SymBytes(o)
        if not isinstance(o, SymBytes):
            return False if not isinstance(o, SymSeqBytes) else NotImplemented
        if len(o.items) != len(self.items):
            return False
        return conj([a == b for a, b in zip(self.items, o.items)])
    def __ne__(self, o):
        return neg(self.__eq__(o))
    __hash__ = None
    def __bool__(self): return len(self.items) > 0
    def __add__(self, o):
        if isinstance(o, bytes): o = SymBytes(o)
        return SymBytes(self.items + list(o.items)) if isinstance(o, SymBytes) else NotImplemented
    def __radd__(self, o):
        return SymBytes(list(o) + self.items) if isinstance(o, bytes) else NotImplemented
    def __repr__(self): return "SymBytes(%r)" % (self.items,)


class SymSeqBytes:
    pass


class Seq:
    """list of unbounded, symbolic length; element i is elem(i) (elem must be defined for symbolic indices)"""
    def __init__(self, n, elem):
        self.n, self.elem = n, elem
    def __bool__(self): return CUR.is_true(self.n > 0)
    def __len__(self): return CUR.concretize(self.n)
    def at(self, i):
        if not CUR.is_true(conj([i >= -self.n, i < self.n])):
            raise IndexError("list index out of range")
        return self.elem(ite(i < 0, i + self.n, i))
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of a list of symbolic length")
        return self.at(i)
    def __iter__(self): raise Unsupported("iteration over a list of symbolic length")
    def __repr__(self): return "Seq(%r)" % (self.n,)


class Poison:
    """value of a variable after (or before) an abstracted loop about which nothing is known: may not be used"""
    def _no(self, *a): raise Unsupported("a value changed by an abstracted loop is used")
    __getattr__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = __iter__ = __getitem__ = _no
    __call__ = __contains__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __int__ = __index__ = __str__ = _no
    __hash__ = object.__hash__
    def __repr__(self): return "<unknown>"

POISON = Poison()


class Mark(tuple):
    """ghost trace entry: for each element of the segment: its calls"""
    def __new__(cls, seg):
        m = tuple.__new__(cls, ("rep", seg.name) if seg.part is None else ("rep", seg.name, seg.part))
        m.seg = seg
        return m


def unmark(trace):
    """without the entries of empty segments"""
    return [x for x in trace if not (isinstance(x, Mark) and x.seg.empty())]


class _Spec:
    """the specification shared by copies of a segment"""


class Seg:
    """part of a list: any number of arbitrary elements; make() returns an arbitrary one.
    calls(e): ghost trace entries a loop over the list has to produce for the element e
    inv(e): given if a loop may change the state of the elements; checks it afterwards; make() has to cover it, or after(), which
    replaces make() then
    passed(e): called when a loop has completed its body for e
    grows(e): the items a loop may append to a list for e"""
    def __init__(self, name, make, calls=None, inv=None, after=None, spec=None, passed=None, grows=None):
        self.name, self.make = name, make
        self.spec = spec or _Spec()
        if spec is None:
            self.calls, self.inv, self.after, self.passed, self.grows = calls, inv, after, passed, grows
            self.spec.flat = None
        self.dropped = ()         # what has been filtered out: functions returning such an element
        self.part = None
        self.length = None
        self.parts = None
    calls = property(lambda self: self.spec.calls, lambda self, f: setattr(self.spec, "calls", f))
    inv = property(lambda self: self.spec.inv, lambda self, f: setattr(self.spec, "inv", f))
    after = property(lambda self: self.spec.after, lambda self, f: setattr(self.spec, "after", f))
    passed = property(lambda self: self.spec.passed, lambda self, f: setattr(self.spec, "passed", f))
    grows = property(lambda self: self.spec.grows, lambda self, f: setattr(self.spec, "grows", f))
    def same(self):
        """the same kind of elements"""
        c = Seg(self.name, self.make, spec=self.spec)
        c.dropped = self.dropped
        return c
    def copy(self):
        c = self.same()
        c.part, c.length = self.part, self.length
        return c
    def flattened(self):
        """the items appended for all elements"""
        if self.part is not None: raise Unsupported("list grown by a part of a loop")
        if self.spec.flat is None:
            def make():
                items = self.grows(self.make())
                x = (items.items if isinstance(items, SegList) else list(items))
                k = 0
                while k < len(x) - 1 and not CUR.pick(self.name + " item"): k += 1
                if not x: raise PathEnd()
                return x[k].make() if isinstance(x[k], Seg) else x[k]
            self.spec.flat = Seg(self.name + " items", make)
        return self.spec.flat.copy()
    def empty(self):
        """known to be empty on this path (forks if its length has been looked at)"""
        return self.length is not None and CUR.is_true(self.length == 0)
    def flat(self):
        """what it consists of by now"""
        out = []
        for x in self.parts or [self]:
            if x is not self and isinstance(x, Seg): out.extend(x.flat())
            else: out.append(x)
        return out
    def n(self):
        if self.length is None: self.length = CUR.int(self.name + " length", 0)
        return self.length
    def split(self, e):
        """this segment has the (new) element e somewhere"""
        a, b = self.same(), self.same()
        a.part, b.part = "before", "after"
        if self.length is not None:
            CUR.assume(a.n() + b.n() + 1 == self.length)
        self.parts = [a, e, b]
        return [a, e, b]
    def excludes(self, x, what):
        """x is none of the elements: side exploration, which ends; unsupported if an element may be equal"""
        if CUR.pick(self.name + " probed"):
            if _same(self.make(), x): raise Unsupported(what)
            raise PathEnd()
    def mark(self):
        return Mark(self)
    def __repr__(self): return "Seg(%s)" % self.name


class WhileRule:
    def __init__(self, name, calls=None, inv=None):
        self.name, self.calls, self.inv = name, calls, inv
        self.k = 0
        self.before = None
    def mark(self):
        return [] if self.before is None else [self.before.mark()]


class Length(SymInt):
    """length of a list with segments"""
    def __init__(self, e, owner):
        SymInt.__init__(self, e)
        self.owner = owner


class Index(SymInt):
    """index of a certain element of a list with segments"""
    def __init__(self, e, elem):
        SymInt.__init__(self, e)
        self.elem = elem


class SegList:
    """list consisting of known elements and segments of any length"""
    def __init__(self, items): self.items = list(items)
    def copy(self): return SegList(self.items)
    def append(self, x): self.items.append(x)
    def extend(self, xs): self.items.extend(xs.items if isinstance(xs, SegList) else list(xs))
    def clear(self): self.items[:] = []
    def insert(self, i, x):
        if i != 0: raise Unsupported("insert into a list with segments")
        self.items.insert(0, x)
    def remove(self, x):
        for k, y in enumerate(self.items):
            if isinstance(y, Seg):
                y.excludes(x, "element of a segment")
            elif y is x or CUR.is_true(y == x):
                del self.items[k]
                return
        raise ValueError("list.remove(x): x not in list")
    def __add__(self, o): return SegList(self.items + (o.items if isinstance(o, SegList) else list(o)))
    def __radd__(self, o): return SegList(list(o) + self.items)
    def __iadd__(self, o):
        self.extend(o)
        return self
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__
    def length(self):
        n = len([x for x in self.items if not isinstance(x, Seg)])
        segs = [x for x in self.items if isinstance(x, Seg)]
        if not segs: return n
        for x in segs: n = x.n() + n
        return Length(n.e, self)
    def index_of(self, elem):
        """number of elements before this (known) one"""
        n = 0
        for x in self.items:
            if x is elem: break
            n = x.n() + n if isinstance(x, Seg) else n + 1
        return Index(_lift(n)[0], elem)
    def __len__(self):
        n = self.length()
        if isinstance(n, SymInt): raise Unsupported("length of a list with segments as a number")
        return n
    def __bool__(self):
        if any(not isinstance(x, Seg) for x in self.items): return True
        for k, x in enumerate(self.items):
            if CUR.pick(x.name + " has elements"):
                self.items[k:k + 1] = x.split(x.make())
                return True
            CUR.assume(x.n() == 0)
        self.items[:] = []
        return False
    def at(self, i):
        if isinstance(i, SymInt):
            if isinstance(i, Index):
                for x in self.items:
                    if x is i.elem: return x
            for x in self.items:
                if not isinstance(x, Seg) and CUR.is_true(i == self.index_of(x)): return x
            # an arbitrary element of one of the segments
            if CUR.is_true(i < 0): raise Unsupported("negative symbolic index into a list with segments")
            before = 0
            for k, x in enumerate(self.items):
                if isinstance(x, Seg):
                    if CUR.is_true(i < x.n() + before):
                        e = x.make()
                        parts = x.split(e)
                        CUR.assume(parts[0].n() == i - before)
                        self.items[k:k + 1] = parts
                        return e
                    before = x.n() + before
                else: before = before + 1
            raise IndexError("list index out of range")
        if any(isinstance(x, Seg) for x in (self.items[:i + 1] if i >= 0 else self.items[i:])) or not -len(self.items) <= i < len(self.items):
            if i not in (0, -1): raise Unsupported("index into a list with segments")
            while self.items and isinstance(self.items[i], Seg):
                x = self.items[i]
                if CUR.pick(x.name + " has elements"):
                    if x.length is not None:
                        r = x.same()
                        CUR.assume(r.n() + 1 == x.length)
                    else:
                        r = x.same()
                    r.part = "rest"
                    e = x.make()
                    x.parts = [e, r] if i == 0 else [r, e]
                    if i == 0: self.items[0:1] = x.parts
                    else: self.items[-1:] = x.parts
                else:
                    CUR.assume(x.n() == 0)
                    del self.items[i]
        return self.items[i]
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of a list with segments")
        return self.at(i)
    def __setitem__(self, i, v): raise Unsupported("assignment into a list with segments")
    def __contains__(self, x): raise Unsupported("containment in a list with segments")
    def __iter__(self): raise Unsupported("iteration over a list with segments")
    def __repr__(self): return "SegList%r" % (self.items,)


class Twin:
    """list parallel to another one: its elements are fn(element of the other one)"""
    def __init__(self, base, fn): self.base, self.fn = base, fn
    def at(self, i): return self.fn(self.base.at(i))
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of a list with segments")
        return self.at(i)
    def length(self): return self.base.length()
    def __len__(self): return len(self.base)
    def __bool__(self): return bool(self.base)
    def __iter__(self): raise Unsupported("iteration over a list with segments")
    def __contains__(self, x): raise Unsupported("containment in a list with segments")
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__


def _same(a, b):
    if a is b: return True
    r = (a == b)
    return False if r is NotImplemented else CUR.is_true(r)


# -- boolean helpers usable on python bools, SymBools (both modes) --------------------------------------------------------

def zb(x):
    if isinstance(x, SymBool): return x.e
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, SymNum): return x.e != 0
    if z3.is_expr(x): return x
    if x is None: return z3.BoolVal(False)
    return z3.BoolVal(bool(x))

def _anysym(xs):
    return any(isinstance(x, Sym) or z3.is_expr(x) for x in xs)

def conj(xs):
    xs = list(xs)
    if not _anysym(xs): return all(bool(x) for x in xs)
    return sbool(z3.And([zb(x) for x in xs]))
def disj(xs):
    xs = list(xs)
    if not _anysym(xs): return any(bool(x) for x in xs)
    return sbool(z3.Or([zb(x) for x in xs]))
def neg(x):
    if not _anysym([x]): return not x
    return sbool(z3.Not(zb(x)))
def implies(a, b):
    if not _anysym([a, b]): return (not a) or bool(b)
    return sbool(z3.Implies(zb(a), zb(b)))
def iff(a, b):
    if not _anysym([a, b]): return bool(a) == bool(b)
    return sbool(zb(a) == zb(b))
def ite(c, a, b):
    if not _anysym([c]): return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return sbool(z3.If(zb(c), zb(a), zb(b)))
    p = _pair(a, b)
    if p is None:
        # non numeric: fork
        return a if bool(c if isinstance(c, SymBool) else SymBool(zb(c))) else b
    x, y, k = p
    return mk(z3.simplify(z3.If(zb(c), x, y)), k)
