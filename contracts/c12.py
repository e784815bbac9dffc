"""LED segments: every pattern of enabled/LED-using normal and hold actions (up to five, bounded) on switches with 0..6 pixels (bounded), all
colours and brightnesses; one arbitrary action is recoloured, the frame (all other LEDs) is checked with distinct previous contents."""
from vf.api import *
from .lib import *

T = ["controller.actions.Action.switch_color", "controller.actions.Action.switch_brightness", "controller.actions.Action.__get_led_segments",
     "controller.inputs.SwitchController.actions"]


def segments(index, k, n):
    """LEDs of the index-th of k LED-using actions on a switch with n LEDs"""
    if k == 1: return list(range(n))
    if k < n:
        first = n - k + 1
        return list(range(first)) if index == 0 else [first + index - 1]
    return [index] if index < n else []


def Cb(c):
    class Plain(c.get("pyswitch.controller.callbacks:Callback")):
        def update_displays(self): pass
        def push(self): pass
        def release(self): pass
    return Plain()


def build(c, n, pattern, hold):
    appl = Appl()
    A = c.get("pyswitch.controller.actions:Action")
    acts = []
    B = c.get("pyswitch.controller.actions:PushButtonAction")
    extra = c.choice("kind of the actions", (0, 1)) if n < 4 else 0
    for uses, en in pattern:
        e = EnableCb(en)
        cfg = {"useSwitchLeds": uses, "enableCallback": e}
        if extra: cfg.update({"display": Label(), "id": 7, "callback": Cb(c)})
        acts.append((B if extra else A)(cfg))
    sw, hw = switch(c, appl, acts[:len(acts) - hold], acts[len(acts) - hold:], pixels=tuple(10 + i for i in range(n)))
    return appl, sw, acts


PAT = [(u, e) for u in (True, False) for e in (True, False)]


def patterns(k, c):
    return [c.choice("action %d" % i, PAT) for i in range(k)]


@harness("C12", targets=T, params=[(n, k) for n in range(1, 5) for k in range(1, 5)], bounds="up to four actions and four LEDs", covers=["has LEDs", "none"])
def own_leds_only(c, p):
    n, k = p
    check(c, n, k, patterns(k, c))


@harness("C12", targets=T, params=[(n, k) for n in (5, 6) for k in (1, 2, 5, 6, 7)], bounds="up to seven LED-using actions and six LEDs")
def many(c, p):
    n, k = p
    check(c, n, k, [(True, True)] * k)


@harness("C12", targets=T, params=(1, 2), bounds="up to two actions")
def no_leds(c, k):
    check(c, 0, k, patterns(k, c))


def check(c, n, k, pattern):
    hold = c.choice("hold actions", (0, 1)) if k > 1 else 0
    appl, sw, acts = build(c, n, pattern, hold)
    who = c.choice("acting", range(k))
    led = [i for i in range(k) if pattern[i] == (True, True)]
    own = segments(led.index(who), len(led), n) if who in led else []
    c.cover("has LEDs" if own else "none")
    # partition
    parts = [segments(i, len(led), n) for i in range(len(led))]
    c.check("specification is a partition", sorted(x for q in parts for x in q) == list(range(n)) or not led)
    if n:
        prev = [(i + 1, 20 + i, 40 + i) for i in range(n)]
        sw.colors = list(prev)
        pb = [.1 * (i + 1) for i in range(n)]
        sw.brightnesses = list(pb)
    appl.led_driver.leds.writes.clear()
    kind = c.choice("colour", ("single", "fitting", "other"))
    col = lambda s: tuple(c.int(s + x, 0, 255) for x in "rgb")
    if kind == "single":
        color = col("s")
        want = lambda j: color
    elif kind == "fitting":
        color = tuple(col("m%d" % i) for i in range(max(len(own), 1)))
        want = lambda j: color[j]
    else:
        color = tuple(col("o%d" % i) for i in range(len(own) + 1 + (len(own) % 2)))
        want = lambda j: color[len(color) // 2]
    acts[who].switch_color = color
    if n:
        got = sw.colors
        c.check("number of colours", len(got) == n)
        for i in range(n):
            c.check_eq("colour of exactly the own LEDs", got[i], want(own.index(i)) if i in own else prev[i])
    if who in led or n:
        b = c.real("brightness", 0, 1)
        acts[who].switch_brightness = b
        for i in range(n):
            c.check_eq("brightness of exactly the own LEDs", sw.brightnesses[i], b if i in own else pb[i])
        if own:
            c.check_eq("brightness read back", acts[who].switch_brightness, b)
            for i in range(n):
                c.check_eq("LED output", appl.led_driver.leds[10 + i], scale(got[i], sw.brightnesses[i]))
        c.check("no foreign pixel", all(10 <= x < 10 + n for x, _ in appl.led_driver.leds.writes))


# any number of actions
class Other:
    """arbitrary other action of the switch: uses LEDs and is enabled (led), or not both"""
    def __init__(self, c, tag, led):
        self.uses_switch_leds, self.enabled = (True, True) if led else c.choice(tag + " uses LEDs, is enabled", ((True, False), (False, True), (False, False)))
        self.id = tag
    def init(self, appl, switch): pass
    def update(self): pass
    def update_displays(self): pass
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__


def any_actions(c, n, size):
    appl = Appl()
    me = c.get("pyswitch.controller.actions:Action")({"useSwitchLeds": True, "enableCallback": EnableCb(True)})
    O = [c.seg("others %d" % k, lambda k=k: Other(c, "other %d" % k, False)) for k in range(4)]
    L = [c.seg("LED actions %d" % k, lambda k=k: Other(c, "led %d" % k, True)) for k in range(3)]
    acts = c.segs(O[0], L[0], O[1], L[1], O[2], me, O[3], L[2])
    appl.add_updateable = lambda u: None
    hw = {"assignment": {"model": Model(), "pixels": tuple(10 + j for j in range(n))}, "actions": acts}
    sw = c.get("pyswitch.controller.inputs:SwitchController")(appl, hw)
    count = lambda s: s.n() if c.symbolic else len(s.elements)
    i = count(L[0]) + count(L[1])
    k = i + 1 + count(L[2])
    prev, pb = [(j + 1, 20 + j, 40 + j) for j in range(n)], [.1 * (j + 1) for j in range(n)]
    sw.colors, sw.brightnesses = list(prev), list(pb)
    owned = lambda j: c.ite(k == 1, True, c.ite(k < n, c.ite(i == 0, j <= n - k, j == n - k + i), j == i))
    rank = lambda j: c.ite(c.any([k == 1, c.all([k < n, i == 0])]), j, 0)
    m = c.ite(k == 1, n, c.ite(k < n, c.ite(i == 0, n - k + 1, 1), c.ite(i < n, 1, 0)))
    col = lambda s: tuple(c.int(s + x, 0, 255) for x in "rgb")
    if size == 0:
        color = col("color ")
        want = lambda j: color
    else:
        color = tuple(col("color %d" % q) for q in range(size))
        mid = color[size // 2]
        def want(j):
            r = tuple(color[-1])
            for q in range(size - 2, -1, -1): r = tuple(c.ite(rank(j) == q, x, y) for x, y in zip(color[q], r))
            return tuple(c.ite(m == size, x, y) for x, y in zip(r, mid))
    me.switch_color = color
    b = c.real("brightness", 0, 1)
    me.switch_brightness = b
    c.check("number of colors", len(sw.colors) == n and len(sw.brightnesses) == n)
    for j in range(n):
        w = want(j)
        c.check_eq("color of exactly the own LEDs", sw.colors[j], tuple(c.ite(owned(j), x, y) for x, y in zip(w, prev[j])))
        c.check_eq("brightness of exactly the own LEDs", sw.brightnesses[j], c.ite(owned(j), b, pb[j]))


@harness("C12", targets=T, params=(0, 1, 2, 3, 4), assumes=["three LEDs per switch, as in all device definitions (C45)"])
def any_number_of_actions(c, size):
    """any number of actions of any kind on a switch with three LEDs, one of them is recolored with a color or up to four colors"""
    any_actions(c, 3, size)


@harness("C12", targets=T, params=[(n, s) for n in (1, 2, 4, 5, 6) for s in (0, n)], bounds="up to six LEDs (any number of actions)")
def any_number_of_leds(c, p):
    any_actions(c, *p)
