"""Pedals: all positions, previous positions, times and frame rates; maximum values and step numbers enumerated (bounded list), calibration
windows symbolic where the solver can follow, otherwise from a list. The state between two positions consists of the last value sent, the covered
range and the time of the last evaluation; two positions reach every covered range and last value, so the three/four position contracts below
cover every state. A transfer function is any
function: its answers are arbitrary."""
from vf.api import *
from .lib import *

T = ["controller.actions.AnalogAction.AnalogAction.process", "controller.actions.AnalogAction.AnalogAction.__init__", "misc.PeriodCounter.exceeded"]
A = "pyswitch.controller.actions.AnalogAction:AnalogAction"
FULL = 65535
FRAME = 41          # milliseconds (24 fps)


class Pedal:
    def __init__(self, c, max_value=None, sysex_mapping=False, **kw):
        self.c = c
        self.m = FakeMapping("p", set=sysex(c, [0, 1, 2], [0]) if sysex_mapping else cc(c, 1, 0))
        if max_value is not None: kw["max_value"] = max_value
        self.a = c.get(A)(self.m, **kw)
        self.appl = Appl()
        self.a.init(self.appl)
        self.max = max_value if max_value is not None else 16383 if sysex_mapping else 127
        self.last = None

    def at(self, position):
        """value sent for a position, or None"""
        c = self.c
        self.a.process(position)
        s = self.appl.client.take()
        c.check("at most one command", len(s) <= 1 and all(e[0] == "set" and e[1] is self.m for e in s))
        if not s: return None
        v = s[0][2]
        c.check("integer", isinstance(v, (int, SymInt)))
        c.check("in range", c.all([v >= 0, v <= self.max]), lambda: "sent %r" % c.show(v))
        if self.last is not None:
            c.check("differs from the last one sent", v != self.last)
        self.last = v
        return v

    def value(self, position):
        """value the pedal stands for after that position (frame rate out of the way)"""
        self.c.advance(FRAME + 1)
        self.at(position)
        return self.last


MAXES = (None, "nrpn", 1, 63, 1023, 65535)
STEPS = (128, 1, 2, 3, 64, 100, 1024, 65536)


def make(c, p, **kw):
    mx, steps = p
    return Pedal(c, None if mx == "nrpn" else mx, mx == "nrpn", num_steps=steps, **kw)


@harness("C14", targets=T, params=[(m, s) for m in MAXES for s in STEPS], bounds="listed maximum values and step numbers")
def mapping(c, p):
    thr = c.int("threshold", 0, FULL) if c.flag("threshold") else None
    kw = {} if thr is None else {"min_raw_value": thr}
    a = make(c, p, **kw)
    x = c.int("x", 0, FULL)
    v = a.value(x)
    c.check("first position is sent", v is not None)
    c.check("below the threshold: zero", c.implies(x < (1024 if thr is None else thr), v == 0))
    y = c.int("y", 0, FULL)
    c.assume(x <= y)
    w = make(c, p, **kw).value(y)
    c.check("monotonic", v <= w, lambda: "%r at %r, %r at %r" % (v, x, w, y))
    if thr is None:
        c.check_eq("full position gives the maximum", make(c, p).value(FULL), a.max)
    # close to proportional: within one step and one unit
    if thr is None:
        step = max(65536 / p[1], 1)
        c.check("proportional", c.implies(x >= 1024, c.all([v * 65536 <= (x + step) * (a.max + 1), (v + 1) * 65536 >= (x - step) * (a.max + 1)])))


@harness("C14", targets=T)
def full_resolution(c):
    """no threshold: None switches it off"""
    a = Pedal(c, None, True, num_steps=65536, min_raw_value=None)
    x = c.int("x", 0, FULL)
    c.check_eq("quarter of the raw value", a.value(x), x // 4)


@harness("C14", targets=T, params=(1, 10, 24, 30, 60, 1000))
def frame_rate(c, fps):
    interval = 1000 // fps
    a = Pedal(c, max_frame_rate=fps)
    c.advance(c.int("t0", interval + 1))
    x = c.int("x", 0, FULL)
    v = a.at(x)
    c.check("sent after the frame", v is not None)
    d = c.int("dt", 0)
    c.advance(d)
    y = c.int("y", 0, FULL)
    w = a.at(y)
    c.check("not faster than the frame rate", c.implies(d <= interval, w is None))
    d2 = c.int("dt2", 0)
    c.advance(d2)
    c.check("frame rate over two intervals", c.implies(d + d2 <= interval, a.at(y) is None))
    fresh = Pedal(c)
    c.check("a different value is sent after the frame", c.implies(d > interval, c.iff(w is not None, fresh.value(y) != v)))


WINDOWS = ((0, 65535), (1000, 20000), (0, 16384), (30000, 65535), (5, 50000))


@harness("C14", targets=T, params=[None, .25, .5, .99, .01], covers=["silent", "sends"])
def calibration_start(c, win):
    """nothing is sent until the covered range reaches the minimum window"""
    kw = {} if win is None else {"cal_min_window": win}
    need = int(65536 * (.25 if win is None else win))
    a = Pedal(c, None, c.flag("nrpn"), auto_calibrate=True, **kw)
    lo = hi = None
    for i in range(3):
        x = c.int("x", 0, FULL)
        lo = x if lo is None else c.ite(x < lo, x, lo)
        hi = x if hi is None else c.ite(x > hi, x, hi)
        c.advance(FRAME + 1)
        if c.is_true(hi - lo < need):
            v = a.at(x)
            c.cover("silent")
            c.check("nothing is sent before the window is covered", v is None)
        else:
            v = a.at(x)
            c.cover("sends")
            c.check("the first value is sent once the window is covered", v is not None)
            c.check("new maximum position gives the maximum", c.implies(x == hi, v == a.max))
            c.check("new minimum position gives zero", c.implies(x == lo, v == 0))
            return


@harness("C14", targets=T, bounds="three positions")
def calibration_without_window(c):
    """a minimum window of zero is allowed, too"""
    a = Pedal(c, auto_calibrate=True, cal_min_window=0)
    a.value(c.int("x", 0, FULL))
    a.value(c.int("x", 0, FULL))
    a.value(c.int("x", 0, FULL))


@harness("C14", targets=T, params=[(w, o, m) for w in WINDOWS for o in (False, True) for m in (None, "nrpn")], bounds="listed calibration windows")
def calibrated(c, p):
    """the covered range maps onto the full range"""
    (lo, hi), swap, mx = p
    def start():
        a = make(c, (mx, 128), auto_calibrate=True, min_raw_value=c_thr)
        for q in ((hi, lo) if swap else (lo, hi)):
            a.value(q)
        return a
    c_thr = c.choice("threshold", (None, 1024))
    c.check_eq("upper end gives the maximum", start().value(hi), start().max)
    c.check_eq("lower end gives zero", start().value(lo), 0)
    x, y = c.int("x", lo, hi), c.int("y", lo, hi)
    c.assume(x <= y)
    v, w = start().value(x), start().value(y)
    c.check("monotonic", v <= w)
    c.check("proportional", c.implies((x - lo) * 65536 >= 1025 * (hi - lo),
                                      c.all([v * (hi - lo) <= (x - lo) * (start().max + 1) + (hi - lo) * (start().max + 1) / 120 + (hi - lo),
                                             (v + 2) * (hi - lo) >= (x - lo) * (start().max + 1) - (hi - lo) * (start().max + 1) / 120])))


@harness("C14", targets=T, params=("raw", "calibrated"))
def transfer_function(c, kind):
    """a transfer function gets each (calibrated) position, and exactly its answers are sent, each when it differs from the last one; values sent are
    previewed on the display given"""
    asked, answers, shown = [], [], []
    def f(v):
        asked.append(v)
        answers.append(c.int("answer", -5, 20000))
        return answers[-1]
    class Shows:
        def update_label(self, label): label.text = "normal"
    lab = c.get("pyswitch.ui.elements:DisplayLabel")(layout={"font": "f"}, callback=Shows())
    lab.update_label()
    kw = {"auto_calibrate": True} if kind == "calibrated" else {}
    m = FakeMapping("p", set=cc(c, 1, 0))
    a = c.get(A)(m, transfer_function=f, num_steps=2, max_value=10, change_display=lab, convert_value=lambda v: (shown.append(v), "new")[1], change_timeout_millis=50, **kw)
    appl = Appl()
    a.init(appl)
    if kind == "calibrated":
        for q in (1000, 1000 + 32768):
            c.advance(FRAME + 1)
            a.process(q)
        c.check_eq("the upper end of the covered range", asked, [65536])
    last = answers[-1] if answers else None
    for i in range(2):
        x = c.int("position", 1000, 1000 + 32768)
        appl.client.take()
        del asked[:], shown[:]
        c.advance(FRAME + 1)
        a.process(x)
        c.check_eq("asked for the position", asked, [(x - 1000) * 2 if kind == "calibrated" else x])
        v = answers[-1]
        sent = appl.client.take()
        if last is None or not c.is_true(c.eq(v, last)):
            if last is None and not c.is_true(v != -1): continue      # nothing has been sent yet: the value never sent stands for none
            c.check_eq("its answer is sent", sent, [("set", m, v)])
            c.check_eq("and shown", (shown, lab.text), ([v], "new"))
        else: c.check_eq("sent already", sent, [])
        last = v
    c.advance(51)
    a.update()
    c.check_eq("shown for the time given", lab.text, "normal")


@harness("C14", targets=T, kind="history", params=(False, True), bounds="concretely 60 positions, symbolically three")
def history(c, cal):
    a = Pedal(c, None, True, auto_calibrate=cal)
    lo = hi = None
    t = None
    for _ in range(2 if c.symbolic else 60):
        d = c.int("dt", 0, None if c.symbolic else 80)
        c.advance(d)
        x = c.int("x", 0, FULL)
        v = a.at(x)
        if v is not None:
            if t is not None: c.check("frame rate", c.now() - t > FRAME)
            t = c.now()


@harness("C14", targets=T)
def disabled(c):
    """the enable callback decides"""
    e = EnableCb(c.flag("on"))
    a = c.get(A)(FakeMapping("p", set=cc(c, 1, 0)), enable_callback=e)
    c.check("enabled as the callback says", a.enabled is e.on and e.action is a)
    c.check("enabled without callback", c.get(A)(FakeMapping("p", set=cc(c, 1, 0))).enabled is True)
