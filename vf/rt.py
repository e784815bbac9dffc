"""Runtime hooks used by instrumented modules (symbolic worlds only)."""
import builtins, math
from . import sym as S
from .sym import SymInt, SymReal, SymBool, SymNum, SymStr, SymBytes, Sym, Unsupported, sbool, conj, disj, neg
import z3


def _issym(x):
    return isinstance(x, Sym)


def _deepsym(x):
    if isinstance(x, Sym): return True
    if isinstance(x, (list, tuple)): return any(_deepsym(y) for y in x)
    return False


def eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        if S.CUR.symbolic and (S.CUR.has_token(a) or S.CUR.has_token(b)):
            return S.CUR.text_eq(a, b)
        return a == b
    # python sequence equality (element identity or equality), without forking per element
    if type(a) in (list, tuple) and type(a) is type(b) and (_deepsym(a) or _deepsym(b)):
        if len(a) != len(b): return False
        return conj([x is y or eq(x, y) for x, y in zip(a, b)])
    return a == b


def ne(a, b):
    if (isinstance(a, str) and isinstance(b, str)) or (type(a) in (list, tuple) and type(a) is type(b)):
        return neg(eq(a, b))
    return a != b


def getitem(o, i):
    if isinstance(o, (S.Seq, S.SegList, S.Twin)):
        return o.at(i)
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(i, SymBool): i = SymInt(i.num()[0])
        c = S.as_const(z3.simplify(i.e))
        if c is not None:
            return o[c]
        if isinstance(o, (list, tuple, bytes, str, SymBytes)):
            items = list(o)
            n = len(items)
            if not S.CUR.branch(z3.And(i.e >= -n, i.e < n)):
                raise IndexError("list index out of range")
            # numeric items: one conditional value, no fork
            if 0 < n and all(type(x) is int or isinstance(x, SymInt) for x in items) and n <= 64:
                j = z3.If(i.e < 0, i.e + n, i.e)
                r = S._lift(items[-1])[0]
                for k in range(n - 2, -1, -1):
                    r = z3.If(j == k, S._lift(items[k])[0], r)
                return SymInt(z3.simplify(r))
            # table of equally long number tuples (colors): element by element, no fork
            if 0 < n <= 64 and all(type(x) is tuple and len(x) == len(items[0]) and all(type(y) is int for y in x) for x in items):
                return tuple(getitem([x[q] for x in items], i) for q in range(len(items[0])))
            for k in range(n - 1):
                if S.CUR.branch(z3.Or(i.e == k, i.e == k - n)):
                    return items[k]
            return items[n - 1]
        if isinstance(o, dict):
            for k in list(o):
                if isinstance(k, int) and not isinstance(k, bool) and S.CUR.branch(i.e == k):
                    return o[k]
            raise KeyError("symbolic key")
        return o[i]
    if isinstance(i, str) and type(o) is dict:
        k = _textkey(o, i)
        if k is None:
            raise KeyError(i)
        return o[k]
    return o[i]


def _textkey(o, i):
    """key of a dictionary equal to the text i (forks if texts contain symbolic parts), None if there is none"""
    if i in o:
        return i
    sym = S.CUR.has_token(i)
    for k in list(o):
        if isinstance(k, str) and (sym or S.CUR.has_token(k)):
            r = S.CUR.text_eq(i, k)
            if r is True or (r is not False and bool(r)):
                return k
    return None


def setitem(o, i, v):
    if isinstance(i, str) and type(o) is dict:
        k = _textkey(o, i)
        o[i if k is None else k] = v
    else:
        o[i] = v


def getslice(o, a, b, c):
    def conc(x):
        return S.CUR.concretize(x) if isinstance(x, SymInt) else x
    return o[conc(a):conc(b):conc(c)]


def contains(x, o):
    if isinstance(o, dict):
        if isinstance(x, SymInt):
            return disj([x == k for k in o if isinstance(k, int)])
        if isinstance(x, str) and x not in o:
            sym = S.CUR.has_token(x)
            return disj([S.CUR.text_eq(x, k) for k in o if isinstance(k, str) and (sym or S.CUR.has_token(k))])
        return x in o
    if isinstance(o, S.SegList):
        rs = []
        for y in o.items:
            if isinstance(y, S.Seg):
                y.excludes(x, "containment in a segment")
                continue
            if y is x: return True
            rs.append(eq(x, y))
        return disj(rs) if rs else False
    if isinstance(o, (list, tuple)):
        rs = []
        for y in o:
            if y is x:
                return True
            r = eq(x, y)
            if r is True: return True
            rs.append(r)
        rs = [r for r in rs if r is not False]
        if not rs: return False
        return disj(rs)
    return x in o


def not_contains(x, o):
    return neg(contains(x, o))


# -- builtins ------------------------------------------------------------------------------------------------------------

def _int(x=0, *a):
    if isinstance(x, SymInt): return x
    if isinstance(x, SymBool): return SymInt(x.num()[0])
    if isinstance(x, SymReal): return SymInt(z3.simplify(S.trunc_term(x)))
    if isinstance(x, str) and not a and S.CUR.has_token(x):
        p = S.CUR._pieces(x)
        if len(p) == 1:
            e, spec, kind = S.CUR.tok_by_char[p[0][0]]
            if kind == 'i' and spec in ('', 'd'): return SymInt(e)
        raise Unsupported("int() of a symbolic text")
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, SymReal): return x
    if isinstance(x, SymInt): return SymReal(z3.ToReal(x.e), (x.e, 1))
    if isinstance(x, SymBool): return _float(SymInt(x.num()[0]))
    return float(x)


def floor(x):
    if isinstance(x, SymNum): return SymInt(z3.simplify(S.floor_term(x)))
    return math.floor(x)


def _round(x, n=None):
    if isinstance(x, SymInt): return x
    if isinstance(x, SymReal):
        if n is None: return SymInt(z3.simplify(S.round_term(x)))
        raise Unsupported("round to digits")
    return round(x) if n is None else round(x, n)


def _minmax(a, key, default, less):
    if len(a) == 1: a = list(a[0])
    a = list(a)
    if key is None and any(_issym(x) for x in a) and all(S._lift(x) is not None for x in a):
        r = a[0]
        for x in a[1:]:
            ex, er, k = S._pair(x, r)
            kk = 'i' if not any(isinstance(y, (SymReal, float)) for y in (x, r)) else 'r'
            r = S.mk(z3.simplify(z3.If((ex < er) if less else (ex > er), ex, er)), kk)
        return r
    kw = {}
    if key is not None: kw["key"] = key
    if default: kw["default"] = default[0]
    return (min if less else max)(a, **kw)


def _min(*a, key=None, **d): return _minmax(a, key, list(d.values()), True)
def _max(*a, key=None, **d): return _minmax(a, key, list(d.values()), False)


def _bytes(x=b"", *a):
    if isinstance(x, SymBytes): return x
    if isinstance(x, (list, tuple)) or (hasattr(x, "__iter__") and not isinstance(x, (bytes, bytearray, str))):
        x = list(x)
        if any(_issym(y) for y in x):
            out = []
            for y in x:
                if isinstance(y, SymReal): raise TypeError("'float' object cannot be interpreted as an integer")
                if isinstance(y, SymInt) and not S.CUR.branch(z3.And(y.e >= 0, y.e <= 255)):
                    raise ValueError("bytes must be in range(0, 256)")
                if not _issym(y) and not 0 <= y <= 255: raise ValueError("bytes must be in range(0, 256)")
                out.append(y)
            return SymBytes(out)
        return bytes(x)
    return bytes(x, *a)


def _bytearray(x=b"", *a):
    r = _bytes(x, *a)
    return r if isinstance(r, SymBytes) else bytearray(r)


def _chr(x):
    if isinstance(x, SymInt):
        c = S.as_const(z3.simplify(x.e))
        if c is not None: return chr(c)
        return S.CUR.token(x, 'chr') if not _isconst(x) else chr(_isconst(x))
    return chr(x)


def _isconst(x): return S.as_const(z3.simplify(x.e))


def _hex(x):
    if isinstance(x, SymInt): return hex(S.CUR.concretize(x))
    return hex(x)


REAL = {}


def _isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(_isinstance(x, c) for c in cls)
    cls = REAL.get(cls, cls) if _hashable(cls) else cls
    if isinstance(x, (Sym, SymBytes)):
        if isinstance(x, SymInt): return cls in (int, object)
        if isinstance(x, SymBool): return cls in (bool, int, object)
        if isinstance(x, SymReal): return cls in (float, object)
        if isinstance(x, SymStr): return cls in (str, object)
        if isinstance(x, SymBytes): return cls in (bytes, object)
    if isinstance(x, (S.Seq, S.SegList, S.Twin)): return cls in (list, object)
    return isinstance(x, cls)


def _hashable(c):
    try:
        hash(c)
        return True
    except TypeError:
        return False


def _abs(x): return abs(x)


def _sum(it, start=0):
    r = start
    for x in it: r = r + x
    return r


def _len(x):
    return x.n if isinstance(x, S.Seq) else x.length() if isinstance(x, (S.SegList, S.Twin)) else len(x)


def _list(x=()):
    return x.copy() if isinstance(x, S.SegList) else list(x)


def _tuple(x=()):
    return x.copy() if isinstance(x, S.SegList) else tuple(x)


from .loops import iterate, loop, listcomp, iadd, _range, _enumerate, _zip


BUILTINS = {
    "int": _int, "float": _float, "round": _round, "min": _min, "max": _max, "bytes": _bytes, "bytearray": _bytearray,
    "chr": _chr, "hex": _hex, "isinstance": _isinstance, "sum": _sum, "len": _len, "list": _list, "tuple": _tuple, "range": _range, "enumerate": _enumerate, "zip": _zip,
}
REAL.update({_list: list, _tuple: tuple, _int: int, _float: float, _bytes: bytes, _bytearray: bytearray})
