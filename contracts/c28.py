"""Layout: every rectangle (any position and size), any amount; split containers with any size, 1..8 children, nested (bounded), and any number
of children (loop rule, unbounded)."""
from vf.api import *
from .lib import *

L = "pyswitch.ui.layout"
T = ["ui.layout." + x for x in ("remove_from_top", "remove_from_bottom", "remove_from_left", "remove_from_right", "top", "bottom", "left", "right",
                                "translate", "translated", "with_position")] + ["ui.ui.DisplayBounds.__init__", "ui.ui.DisplayBounds.clone", "ui.ui.DisplayBounds.__eq__"]
TS = ["ui.DisplaySplitContainer.DisplaySplitContainer.add", "ui.DisplaySplitContainer.DisplaySplitContainer.update_bounds", "ui.ui.DisplayElement.add"]


def rect(b): return [b.x, b.y, b.width, b.height]


def bounds(c, lo=None):
    v = [c.int(n) for n in "xy"] + [c.int(n, lo) for n in "wh"]
    return c.get("pyswitch.ui.ui:DisplayBounds")(*v), v


def amount(c):
    """any amount; fractions are cut off"""
    if c.flag("fraction"):
        a = c.real("amount")
        return a, trunc(a)
    a = c.int("amount")
    return a, a


def overlap(c, a, b):
    """the two rectangles share a point"""
    return c.all([a[0] < b[0] + b[2], b[0] < a[0] + a[2], a[1] < b[1] + b[3], b[1] < a[1] + a[3]])


@harness("C28", targets=T, params=("top", "bottom", "left", "right"))
def strips(c, side):
    b, (x, y, w, h) = bounds(c)
    b2 = c.get("pyswitch.ui.ui:DisplayBounds")(x, y, w, h)
    a, n = amount(c)
    strip, rest = {"top": ([x, y, w, n], [x, y + n, w, h - n]), "bottom": ([x, y + h - n, w, n], [x, y, w, h - n]),
                   "left": ([x, y, n, h], [x + n, y, w - n, h]), "right": ([x + w - n, y, n, h], [x, y, w - n, h])}[side]
    r = c.get(L + ":" + side)(b, a)
    c.check_eq("the strip, without modification", rect(r), strip)
    c.check_eq("the rectangle is unchanged", rect(b), [x, y, w, h])
    c.check("a new rectangle", r is not b)
    q = c.get(L + ":remove_from_" + side)(b2, a)
    c.check_eq("the strip", rect(q), strip)
    c.check_eq("the rest", rect(b2), rest)
    c.check("a new rectangle ", q is not b2)
    # no overlap, same area, inside the original (for amounts within the size)
    q, b2 = rect(q), rect(b2)
    size = h if side in ("top", "bottom") else w
    ok = c.all([0 <= n, n <= size, w >= 0, h >= 0])
    c.check("strip and rest do not overlap", c.implies(ok, c.not_(overlap(c, q, b2))))
    for k in (q, b2):
        c.check("inside the original", c.implies(ok, c.all([k[0] >= x, k[1] >= y, k[0] + k[2] <= x + w, k[1] + k[3] <= y + h])))
    if side in ("top", "bottom"): c.check("together they are the original", c.all([q[3] + b2[3] == h, q[2] == w, b2[2] == w, q[0] == x, b2[0] == x]))
    else: c.check("together they are the original", c.all([q[2] + b2[2] == w, q[3] == h, b2[3] == h, q[1] == y, b2[1] == y]))


@harness("C28", targets=T)
def moved(c):
    b, (x, y, w, h) = bounds(c)
    dx, tx = amount(c)
    dy, ty = amount(c)
    t = c.get(L + ":translated")(b, dx, dy)
    p = c.get(L + ":with_position")(b, dx, dy)
    k = b.clone()
    c.check_eq("the original is unchanged", rect(b), [x, y, w, h])
    c.check_eq("clone", rect(k), [x, y, w, h])
    c.check("equal", k == b)
    c.check_eq("translated copy", rect(t), [x + tx, y + ty, w, h])
    c.check_eq("copy at a position", rect(p), [tx, ty, w, h])
    c.get(L + ":translate")(b, dx, dy)
    c.check_eq("moved", rect(b), [x + tx, y + ty, w, h])
    c.check_eq("the clone stays", rect(k), [x, y, w, h])
    b2, v = bounds(c)
    c.check("equality is equality of all four numbers", c.iff(c.is_true(b2 == k), c.eq(v, [x, y, w, h])))


class Split:
    def __init__(self, c, direction, b):
        self.c = c
        self.S = c.get("pyswitch.ui.DisplaySplitContainer:DisplaySplitContainer")
        self.E = c.get("pyswitch.ui.ui:DisplayElement")
        self.direction = direction
        self.box = self.S(direction=self.S.HORIZONTAL if direction == "h" else self.S.VERTICAL, bounds=b)
        self.kids = []

    def add(self, k=None, none=False):
        k = None if none else (k or self.E())
        self.box.add(k)
        if k: self.kids.append(k)
        return k

    def slots(self, area=None):
        c = self.c
        x, y, w, h = rect(self.box.bounds) if area is None else area
        c.check_eq("the container keeps its area", rect(self.box.bounds), [x, y, w, h])
        n = len(self.kids)
        r = [rect(k.bounds) for k in self.kids]
        i = 0 if self.direction == "h" else 1        # split axis
        pos, size = (x, y)[i], (w, h)[i]
        for q, k in enumerate(r):
            c.check_eq("full cross size", [k[1 - i], k[3 - i]], [(x, y)[1 - i], (w, h)[1 - i]])
            c.check_eq("equal slots", k[2 + i], r[0][2 + i])
            c.check_eq("adjacent, in order", k[i], pos + q * r[0][2 + i])
        c.check("inside the container, less than one pixel per slot unused", c.all([n * r[0][2 + i] <= size, size - n * r[0][2 + i] < n]))


@harness("C28", targets=TS, params=[(d, n) for d in "hv" for n in (1, 2, 3, 5, 8)], bounds="up to 8 children")
def split(c, p):
    d, n = p
    b, v = bounds(c, 0)
    s = Split(c, d, b)
    nones = c.choice("none at", (None, 0, n))
    for i in range(n + 1):
        if nones == i: s.add(none=True)
        if i < n:
            s.add()
            s.slots(v)


@harness("C28", targets=TS, params=("hv", "vh", "hh"), bounds="two rows of two and three, one plain child")
def nested(c, d):
    b, v = bounds(c, 0)
    s = Split(c, d[0], b)
    rows = [Split(c, d[1], c.get("pyswitch.ui.ui:DisplayBounds")()) for _ in range(2)]
    none = c.choice("place without an element", (None, 0, 1))
    for i, r in enumerate(rows):
        if i == none: s.add(none=True)
        for _ in range(2 + i): r.add()
        s.add(r.box)
        s.slots(v)
        for q in rows[:i + 1]: q.slots()
    rows[0].add()
    rows[0].slots()
    s.add()
    s.slots(v)
    for r in rows: r.slots()


@harness("C28", targets=[TS[1]], params="hv")
def any_number_of_children(c, d):
    """any number of children: equal, adjacent slots in order, less than one pixel per slot unused"""
    b, v = bounds(c, 0)
    s = Split(c, d, b)
    i = 0 if d == "h" else 1
    pos, size, cross = v[i], v[2 + i], (v[1 - i], v[3 - i])
    class Kid:
        bounds = None
    x, y = Kid(), Kid()
    def at(e, q, slot):
        r = rect(e.bounds)
        c.check_eq("full cross size", [r[1 - i], r[3 - i]], list(cross))
        c.check_eq("equal slots", r[2 + i], slot)
        c.check_eq("adjacent, in order", r[i], pos + q * slot)
    def done(first):
        def f(e):
            r = rect(e.bounds)
            at(e, first() + c.position(), r[2 + i])
            fits(r[2 + i])
        return f
    def fits(slot):
        n = A.n() + 2 + B.n() if c.symbolic else len(A.elements) + 2 + len(B.elements)
        c.check("inside the container, less than one pixel per slot unused", c.all([n * slot <= size, size - n * slot < n]))
    A, B = c.seg("A", Kid, inv=done(lambda: 0)), c.seg("B", Kid, inv=done(lambda: A.n() + 2))
    items = [A, x, None, y, B]
    c.field(s.box, "children")
    s.box.children = c.segs(*items)
    s.box.update_bounds()
    c.check_eq("the container keeps its area", rect(s.box.bounds), v)
    n = A.n() if c.symbolic else len(A.elements)
    slot = rect(x.bounds)[2 + i]
    at(x, n, slot)
    at(y, n + 1, slot)
    fits(slot)
    if not c.symbolic:
        for q, e in enumerate(A.elements): at(e, q, slot)
        for q, e in enumerate(B.elements): at(e, n + 2 + q, slot)
