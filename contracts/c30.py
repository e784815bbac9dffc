"""Tuner display: every note number, deviance, calibration and display size, on the real elements."""
from vf.api import *
from .lib import *

TD = "ui.elements.TunerDisplay"
T = [TD + ".__init__", TD + ".init", TD + ".parameter_changed", TD + ".reset", TD + "._TunerDevianceDisplay.__init__", TD + "._TunerDevianceDisplay.init",
     TD + "._TunerDevianceDisplay.set", TD + "._TunerDevianceDisplay.set_color", "ui.elements.DisplayLabel.text", "ui.elements.DisplayLabel.text_color"]

IN, OUT, NEUTRAL = (0, 10, 0), (10, 5, 0), (9, 9, 9)
NAMES = ("C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B")


class Ui:
    def __init__(self, c):
        self.splash = c.get("displayio:Group")()
        self.font_loader = self
    def get(self, path): return "font"


class Tuner:
    def __init__(self, c, zoom=None, names=None, note=True, deviance=True, width=None, size=None):
        self.c = c
        self.note, self.dev = (FakeMapping("note") if note else None), (FakeMapping("deviance") if deviance else None)
        self.x, self.y = c.int("x", 0), c.int("y", 0)
        self.w, self.h = size or (c.int("w", 1), c.int("h", 1))
        self.width = width if width is not None else c.int("needle width", 1, self.w)
        self.dh = c.int("deviance height", 1, self.h)
        self.lo, self.hi = c.int("low", 0, 16383), c.int("high", 0, 16383)
        kw = {}
        if zoom is not None: kw["deviance_zoom"] = zoom
        if names: kw["note_names"] = names
        self.names = names or NAMES
        self.t = c.get("pyswitch.ui.elements:TunerDisplay")(
            mapping_note=self.note, mapping_deviance=self.dev, bounds=c.get("pyswitch.ui.ui:DisplayBounds")(self.x, self.y, self.w, self.h), layout={"font": "f"},
            deviance_height=self.dh, deviance_width=self.width, color_in_tune=IN, color_out_of_tune=OUT, color_neutral=NEUTRAL, calibration_high=self.hi, calibration_low=self.lo, **kw)
        self.appl = Appl()
        self.ui = Ui(c)
        self.t.init(self.ui, self.appl)
        for m in (self.note, self.dev):
            if m: c.check("listens to the parameter", self.t in listeners(self.appl, m))
        # the needle is the last rectangle drawn
        R = c.get("adafruit_display_shapes.rect:Rect")
        rs = [e for e in self.ui.splash if isinstance(e, R)]
        if deviance: self.needle = rs[-1]
        for r in rs:
            c.check("everything drawn is inside the display", c.all([r.x >= self.x, r.x + r.width <= self.x + self.w, r.y >= self.y, r.y + r.height <= self.y + self.h]))
        self.last = None
        self.inside()

    def inside(self):
        if not self.dev: return
        c, n = self.c, self.needle
        c.check("the needle is inside the deviance area", c.all([n.x >= self.x, n.x + n.width <= self.x + self.w,
                                                                n.y >= self.y + self.h - self.dh, n.y + n.height <= self.y + self.h]))

    def notes(self, v):
        self.note.value = v
        self.t.parameter_changed(self.note)
        q = v % 12
        c = self.c
        for k in range(11):
            if c.is_true(q == k): return c.check_eq("the note name", self.t.label_note.text, self.names[k])
        c.check_eq("the note name", self.t.label_note.text, self.names[11])

    def deviance(self, v):
        c = self.c
        self.dev.value = v
        self.t.parameter_changed(self.dev)
        ok = c.all([self.lo <= v, v <= self.hi])
        good = c.is_true(ok)
        c.check_eq("in tune color exactly in the calibrated range", self.needle.fill, IN if good else OUT)
        c.check("in tune state", self.t.deviance.in_tune is good)
        if self.note: c.check_eq("color of the note", self.t.label_note.text_color, IN if good else OUT)
        self.inside()
        return self.needle.x


@harness("C30", targets=T)
def notes(c):
    t = Tuner(c, names=None if not c.flag("own names") else tuple("n%d" % i for i in range(12)), deviance=c.flag("deviance"))
    a = c.int("note", 0)
    t.notes(a)
    t.notes(c.int("note", 0))
    t.notes(a)
    if c.flag("reset"):
        t.t.reset()
        t.notes(a)


@harness("C30", targets=T, params=(1, None, 0.5, 10), bounds="display sizes 240 x 240 and 320 x 40, needle widths 1 and 5")
def needle(c, zoom):
    """two deviances: monotone, inside, colors"""
    t = Tuner(c, zoom, note=c.flag("note"), width=c.choice("needle", (5, 1)), size=c.choice("size", ((240, 240), (320, 40))))
    a, b = c.int("deviance", 0, 16383), c.int("deviance", 0, 16383)
    xa = t.deviance(a)
    if c.flag("reset"): t.t.reset()
    xb = t.deviance(b)
    c.check("the needle moves with the deviance", c.all([c.implies(a <= b, xa <= xb), c.implies(b <= a, xb <= xa)]))


@harness("C30", targets=T, params=(1, None))
def any_size(c, zoom):
    """any display and needle size, a single deviance"""
    t = Tuner(c, zoom, note=False)
    t.deviance(c.int("deviance", 0, 16383))


@harness("C30", targets=T + ["clients.kemper.TunerDisplayCallback.__init__", "clients.kemper.TunerDisplayCallback.get_root"])
def kemper_tuner(c):
    """the tuner display made by the tuner callback of the Kemper client: names, colors and calibration as given there"""
    t = Tuner.__new__(Tuner)
    t.c, t.x, t.y, t.w, t.h, t.dh = c, 0, 0, 240, 240, 240
    t.lo, t.hi = c.int("low", 0, 16383), c.int("high", 0, 16383)
    own = c.flag("own names")
    t.names = tuple("n%d" % i for i in range(12)) if own else NAMES
    d = c.stub("default", bounds=c.get("pyswitch.ui.ui:DisplayBounds")(0, 0, 240, 240))
    cb = c.get("pyswitch.clients.kemper:TunerDisplayCallback")(splash_default=d, color_in_tune=IN, color_out_of_tune=OUT, color_neutral=NEUTRAL, calibration_high=t.hi, calibration_low=t.lo,
                                                               note_names=t.names if own else None)
    K = c.get("pyswitch.clients.kemper:KemperMappings")
    K.TUNER_MODE_STATE().value = 1
    t.t = cb.get_root()
    c.check("a display of its own", t.t is not d)
    t.note, t.dev = K.TUNER_NOTE(), K.TUNER_DEVIANCE()
    t.appl, t.ui = Appl(), Ui(c)
    t.t.init(t.ui, t.appl)
    for m in (t.note, t.dev): c.check("listens to the parameter", t.t in listeners(t.appl, m))
    R = c.get("adafruit_display_shapes.rect:Rect")
    rs = [e for e in t.ui.splash if isinstance(e, R)]
    t.needle = rs[-1]
    c.check_eq("neutral marker", rs[0].fill, NEUTRAL)
    t.notes(c.int("note", 0))
    t.deviance(c.int("deviance", 0, 16383))


@harness("C30", targets=T, kind="history", bounds="concretely: 60 values", random_runs=100)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    t = Tuner(c, c.choice("zoom", (None, 1, 0.5, 3, 2.4)))
    p = None
    for _ in range(60):
        op = c.choice("op", ("note", "deviance", "deviance", "reset"))
        if op == "note": t.notes(c.int("n", 0, 127))
        elif op == "reset":
            t.t.reset()
            p = None
        else:
            v = c.choice("v", (0, 1, 8191, 8192, 8193, 16383, t.lo, t.hi, c.int("any", 0, 16383)))
            x = t.deviance(v)
            if p: c.check("monotone", (p[0] <= v or x <= p[1]) and (p[0] >= v or x >= p[1]))
            p = (v, x)
