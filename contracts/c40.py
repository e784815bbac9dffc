"""Explore mode: any history of presses, any subset of usable ports, with and without LEDs and display (bounded). The step from one highlighted
switch to the next one: any number of switches, all positions (loop rule, unbounded)."""
from vf.api import *
from .lib import *

X = "controller.explore."
T = [X + "ExploreModeController." + x for x in ("__init__", "show_next_switch", "__init_switches", "__init_switch", "__calculate_pixels", "__get_available_ports", "get_next_port_label",
     "set_latest_port_marker", "reset_port_markers", "tick", "__setup_ui", "init")] + [X + "ExploreAction." + x for x in ("__init__", "init", "push", "__trigger_pixel_search")]
IDX = "_ExploreModeController__currently_shown_switch_index"


class Ex:
    def __init__(self, c, usable, num=3, leds=True, ui=False, columns=5):
        """usable: one flag per port"""
        self.c = c
        n = len(usable)
        class Board: pass
        board = Board()
        names = ["GP%d" % k for k in range(n)]
        self.ports = [object() for _ in range(n)]
        for k in names: setattr(board, k, self.ports[int(k[2:])])
        board.LED, board.board_id, board.XGP9 = object(), "x", object()
        ex = self
        self.models = {}
        class Factory:
            def create_switch(self, port):
                k = [i for i in range(n) if ex.ports[i] is port]
                c.check("only ports are tried", len(k) == 1 and k[0] not in ex.models)
                if not usable[k[0]]: raise ValueError("no pin")
                ex.models[k[0]] = Model()
                return ex.models[k[0]]
        class Drv(Driver):
            size = None
            def init(self, n): self.size = n
        self.driver = Drv() if leds else None
        self.out = []
        c.mod("pyswitch.controller.explore").do_print = self.out.append
        self.ui = None
        if ui:
            Bounds = c.get("pyswitch.ui.ui:DisplayBounds")
            class Ui:
                bounds = Bounds(0, 0, 240, 240)
                root, shown, listener = None, 0, None
                def set_callback(self, cb): self.cb = cb
                def init(self, appl): self.root = self.cb.get_root()
                def show(self): self.shown += 1
            self.ui = Ui()
        self.e = c.get("pyswitch.controller.explore:ExploreModeController")(board, Factory(), self.driver, self.ui, num, columns)
        self.e.init()
        self.num = num
        self.order = [int(k[2:]) for k in sorted(names) if usable[int(k[2:])]]     # ports of the switches
        c.check("a switch for each usable port", len(self.e.switches) == len(self.order) and sorted(self.models) == sorted(self.order))
        if leds: c.check("enough LEDs are driven", self.driver.size >= len(self.order) * num)
        px = [tuple(s.pixels) for s in self.e.switches]
        flat = [i for p in px for i in p]
        c.check("no LED twice, none outside", len(set(flat)) == len(flat) and all(0 <= i < n * num for i in flat))
        if leds: c.check("LEDs of all switches", all(len(p) == num for p in px))
        self.cur = None

    def highlighted(self):
        C = self.c.get("pyswitch.colors:Colors")
        return [k for k in range(len(self.order)) if self.e.switches[k].color == C.WHITE and self.e.switches[k].brightness == 1]

    def check_led(self, k):
        c = self.c
        C = c.get("pyswitch.colors:Colors")
        if not self.driver or not self.num: return           # nothing to light up
        c.check("exactly one switch is highlighted", self.highlighted() == [k])
        for j, s in enumerate(self.e.switches):
            for i in s.pixels:
                col = self.driver.leds[i]
                c.check("lit LEDs", col == (255, 255, 255) if j == k else col != (255, 255, 255))

    def press(self, k):
        """press and release switch k with a few ticks in between"""
        c, n = self.c, len(self.order)
        self.out.clear()
        self.ticks = c.choice("ticks", (1, 2))
        m = self.models[self.order[k]]
        m.pushed = True
        for _ in range(self.ticks): c.check("goes on", self.e.tick() is True)
        step = 1 if k % 2 == 0 else -1
        start = -1 if self.cur is None else self.cur
        self.cur = (start + step) % n if self.cur is not None or step == 1 else n - 1
        def after():
            self.check_led(self.cur)
            name = "GP%d" % self.order[k]
            px = None if not self.driver or not self.num else "Pixels: (%s) of %d" % (", ".join(str(x) for x in self.e.switches[self.cur].pixels), n * self.num)
            c.check("reported once: the port pressed and the LEDs highlighted", self.out == ["board.%s %s" % (name, px)])
            if self.ui:
                if px is not None: c.check("shown", self.e.pixel_display.text == px)
                rows = self.ui.root.children[1].children
                cells = [x for r in rows for x in r.children]
                C = c.get("pyswitch.colors:Colors")
                c.check("marked on the display", [i for i, x in enumerate(cells) if x.back_color == C.RED] == [k] and cells[k].text == name and len(cells) == n)
        after()
        m.pushed = False
        for _ in range(self.ticks): c.check("goes on", self.e.tick() is True)
        after()


@harness("C40", targets=T, kind="induction", params=[(n, k) for n in range(1, 6) for k in range(n)], bounds="one to five switches (any press, any position; one to three LEDs each)")
def any_press(c, p):
    """whatever was highlighted before"""
    n, k = p
    x = Ex(c, [True] * n, c.choice("leds", (1, 2, 3)))
    pos = c.int("position", -1, n - 1)
    c.field(x.e, IDX)
    x.e.__dict__[IDX] = pos
    before = c.choice("before", (((255, 255, 255), 0), ((255, 255, 255), 1), ((0, 0, 255), 0.05), ((1, 2, 3), 1)))
    for s in x.e.switches: s.color, s.brightness = before
    x.cur = None
    for j in range(n):
        if c.is_true(pos == j): x.cur = j
    x.press(k)


@harness("C40", targets=T, params=range(1, 5), bounds="one to four ports, two presses")
def presses(c, n):
    """any usable ports, with and without LEDs and display"""
    usable = [c.flag("usable") for _ in range(n)]
    if not any(usable): return
    x = Ex(c, usable, c.choice("leds", (1, 3)), *c.choice("driver, ui", ((False, False), (True, False), (True, True), (False, True))), c.choice("columns", (1, 2)) if n < 4 else 2)
    for _ in range(2):
        x.press(c.choice("switch", range(len(x.order))))


@harness("C40", targets=T, kind="history", random_runs=150, bounds="150 random histories of 30 presses, up to 30 ports and 5 LEDs each")
def long_history(c):
    if c.symbolic: return c.check("concrete only", True)
    n = c.int("ports", 1, 30)
    usable = [c.choice("usable", (True, True, False)) for _ in range(n)]
    if not any(usable): return
    x = Ex(c, usable, c.int("leds", 0, 5), c.flag("driver"), c.flag("ui"), c.int("columns", 1, 6))
    for _ in range(30):
        x.press(c.choice("switch", range(len(x.order))))


@harness("C40", targets=[X + "ExploreModeController.__calculate_pixels"], params=range(0, 6), bounds="up to five LEDs per switch")
def pixels(c, num):
    """any two switch numbers"""
    x = Ex(c, [True], num)
    f = x.e._ExploreModeController__calculate_pixels
    a, b = c.int("a", 0), c.int("b", 0)
    c.assume(a != b)
    p, q = f(a), f(b)
    c.check("all LEDs", c.all([len(p) == num, len(q) == num]))
    for i in range(num):
        c.check("consecutive LEDs", c.all([p[i] == a * num + i, q[i] == b * num + i]))
        for j in range(num): c.check("no LED shared", p[i] != q[j])


@harness("C40", targets=[X + "ExploreModeController.show_next_switch"], kind="induction", params=(1, -1), covers=["wrapped", "next"])
def any_number_of_switches(c, step):
    """any number of switches, whatever was highlighted before: the next one is highlighted, and no other one"""
    x = Ex(c, [True])
    C = c.get("pyswitch.colors:Colors")
    class Sw:
        """the part of a switch this is about: a number, its LEDs, and what they show"""
        def __init__(self, i):
            self.em_index, self.pixels = i, ("pixels of", i)
            self.color, self.brightness = c.choice("before", ((255, 255, 255), (0, 0, 255), (1, 2, 3))), c.choice("brightness", (0, 1, 0.05))
        def lit(self): return c.is_true(c.all([self.color == C.WHITE, self.brightness == 1]))
    def index(lo, hi):
        i = c.int("index", 0)
        c.assume(c.all([i >= lo, i < hi]))
        return i
    def dark(e): c.check("no other switch is highlighted", not e.lit())
    def dimmed(i):
        e = Sw(i)
        e.color, e.brightness = C.BLUE, 0.05
        return e
    # the switches before the one expected, this one, and the others
    if c.symbolic:
        A = c.seg("before", lambda: Sw(index(0, A.n())), inv=dark)
        k = A.n()
        B = c.seg("after", lambda: Sw(index(k + 1, n)), inv=dark)
        n = k + 1 + B.n()
        cur = Sw(k)
        A.after, B.after = lambda: dimmed(index(0, A.n())), lambda: dimmed(index(k + 1, n))
        sws = c.segs(A, cur, B)
    else:
        n = c.int("switches", 1, 40)
        k = c.int("expected", 0, n - 1)
        sws = [Sw(i) for i in range(n)]
        cur = sws[k]
    # the highlight was at the position before
    pos = c.int("position", -1)
    c.assume(pos < n)
    nxt = c.ite(pos + step >= n, 0, c.ite(pos + step < 0, n - 1, pos + step))
    if c.symbolic: c.assume(k == nxt)
    else:
        cur = sws[nxt]
    c.cover("next" if c.is_true(c.all([pos + step < n, pos + step >= 0])) else "wrapped")
    c.field(x.e, IDX)
    x.e.__dict__[IDX] = pos
    c.field(x.e, "switches")
    x.e.switches = sws
    r = x.e.show_next_switch(step)
    c.check("the LEDs of this switch are reported", r is cur.pixels)
    c.check("the next switch is highlighted", cur.lit())
    c.check_eq("and remembered", c.field(x.e, IDX), nxt)
    if not c.symbolic:
        for s in sws:
            if s is not cur: dark(s)
