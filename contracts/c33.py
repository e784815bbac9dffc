"""Labels on the real display elements: every background color (contrast), one operation from any state; longer histories concretely."""
from vf.api import *
from .lib import *
from .c30 import Ui

D = "ui.elements.DisplayLabel."
T = [D + x for x in ("__init__", "init", "update_label", "text", "text_color", "back_color", "__wrap_text", "__determine_text_color")] + ["ui.elements.DisplayLabelLayout.__init__"]

WHITE, BLACK = (255, 255, 255), (0, 0, 0)
TEXTS = ("", "a", "some text", 17)


def rgb(c, n): return tuple(c.int(n + x, 0, 255) for x in "rgb")


def weight(col):
    """10000 times the luminance"""
    return 2126 * col[0] + 7151 * col[1] + 721 * col[2]


def contrast(c, back):
    """text color for a background; excluded: the luminance is exactly 140 (depends on float rounding)"""
    if back is None: return WHITE
    cols = back if type(back[0]) in (tuple, list) else [back]
    w = weight(cols[0])
    for x in cols[1:]: w = w + weight(x)
    lim = 1400000 * len(cols)
    c.assume(w != lim)
    return WHITE if c.is_true(w < lim) else BLACK


class Lab:
    """a label and what it has to show"""
    def __init__(self, c, back=None, text_color=None, text=None, wrap=None, callback=None, init=True):
        self.c = c
        layout = {"font": "f"}
        if back is not None: layout["backColor"] = back
        if text_color is not None: layout["textColor"] = text_color
        if text is not None: layout["text"] = text
        if wrap is not None: layout["maxTextWidth"] = wrap
        B = c.get("pyswitch.ui.ui:DisplayBounds")
        self.appl = Appl()
        self.appl.low_memory_warning = False
        self.ui = Ui(c)
        self.callback = callback
        self.l = c.get("pyswitch.ui.elements:DisplayLabel")(layout, bounds=B(5, 6, 200, 40), callback=callback)
        self.back, self.fixed, self.wrap = back, text_color, wrap
        self.want = "" if text is None else str(text)
        self.init = False
        if init: self.start()

    def start(self):
        c = self.c
        self.init = True
        self.l.init(self.ui, self.appl)
        R = c.get("adafruit_display_shapes.rect:Rect")
        G = c.get("displayio:Group")
        els = list(self.ui.splash)
        rects = [e for e in els if isinstance(e, R)]
        c.check("a background exactly if configured", len(rects) == (1 if self.back else 0))
        self.rect = rects[0] if rects else None
        self.text = [x for g in els if isinstance(g, G) for x in g][0]
        self.color = self.fixed if self.fixed is not None else contrast(c, self.back)

    def shown(self):
        c = self.c
        c.check_eq("the text property", self.l.text, self.want)
        c.check_eq("the background property", self.l.back_color, self.back)
        if not self.init: return
        w = self.want if not self.wrap or not self.want else self.want + "\n(wrapped)"
        c.check_eq("the text is on screen", self.text.text, w)
        if self.rect: c.check_eq("the background is on screen", self.rect.fill, self.back)
        c.check_eq("the text color is on screen", self.text.color, self.color)
        c.check_eq("the text color property", self.l.text_color, self.color)

    def set_text(self, t):
        self.l.text = t
        self.want = "Low Memory!" if self.init and self.appl.low_memory_warning else str(t)

    def set_back(self, b):
        c = self.c
        if bool(self.back) != bool(b):
            try: self.l.back_color = b
            except Exception: c.check("refused", True)
            else: c.check("a background is neither removed nor added", False)
            return
        same = c.is_true(c.eq(self.back, b)) if b else True
        self.l.back_color = b
        if not same:
            self.back = b
            self.color = self.fixed if self.fixed is not None else contrast(c, b)

    def set_color(self, col):
        self.l.text_color = col
        self.color = contrast(self.c, self.back) if col is None else col


def back(c, kind, n="back"):
    return None if kind == "none" else rgb(c, n) if kind == "one" else tuple(rgb(c, n + str(i)) for i in range(3))


@harness("C33", targets=T, params=("none", "one", "three"))
def initial(c, kind):
    """any background and text color at start, and texts set before it"""
    b = back(c, kind)
    l = Lab(c, b, rgb(c, "text") if c.flag("fixed") else None, c.choice("text", (None,) + TEXTS), c.choice("wrap", (None, 100)), init=False)
    l.shown()
    if c.flag("set before"): l.set_text(c.choice("early", TEXTS))
    l.shown()
    low = c.flag("low memory")
    l.appl.low_memory_warning = low
    l.start()
    if low: l.want = "Low Memory!"
    l.shown()


@harness("C33", targets=T, params=[(k, f) for k in ("none", "one", "three") for f in (False, True)], covers=["white", "black"])
def colors(c, p):
    """any change of the background, the text color set by someone (e.g. a blinking preview) in between"""
    kind, fixed = p
    l = Lab(c, back(c, kind), rgb(c, "text") if fixed else None, "x")
    if c.flag("text color set"):
        l.set_color(rgb(c, "blink") if c.flag("to a color") else None)
        l.shown()
    if kind == "none":
        l.set_back(c.choice("new", (None, (1, 2, 3))))
        c.cover("white"); c.cover("black")
    else:
        n = c.choice("new", ("one", "three", "none", "same"))
        l.set_back(l.back if n == "same" else back(c, n, "new"))
        c.cover("white" if l.color == WHITE or fixed else "black")
        if fixed: c.cover("black")
    l.shown()


@harness("C33", targets=T)
def texts(c):
    """any text over any other, low memory or not, override texts and callbacks"""
    class Cb:
        text = "from callback"
        def init(self, appl, listener=None): self.listener = listener
        def update_label(self, label): label.text = self.text
    cb = Cb() if c.flag("callback") else None
    l = Lab(c, (1, 2, 3), text=c.choice("text", TEXTS), wrap=c.choice("wrap", (None, 100)), callback=cb)
    for k in range(2):
        op = c.choice("op", ("set", "override", "update", "changed", "terminated"))
        l.appl.low_memory_warning = c.flag("low")
        if op == "set": l.set_text(c.choice("new", TEXTS))
        else:
            l.l.override_text = o = c.choice("override text", (None, "over"))
            if op in ("changed", "terminated") and cb:
                (cb.listener.parameter_changed if op == "changed" else cb.listener.request_terminated)("mapping")
            else: l.l.update_label()
            t = o or (cb and cb.text)
            if t: l.want = "Low Memory!" if l.appl.low_memory_warning else t
        l.shown()


@harness("C33", targets=T, kind="history", bounds="concretely: 60 operations", random_runs=300)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    k = c.choice("kind", ("none", "one", "three"))
    l = Lab(c, back(c, k), rgb(c, "text") if c.flag("fixed") else None, c.choice("text", TEXTS), c.choice("wrap", (None, 100)), init=c.flag("init"))
    if not l.init:
        l.set_text(c.choice("t", TEXTS))
        l.start()
    for _ in range(60):
        op = c.choice("op", ("text", "back", "color", "low", "update"))
        if op == "text": l.set_text(c.choice("t", TEXTS))
        elif op == "back": l.set_back(back(c, c.choice("k", ("none", "one", "three")), "n"))
        elif op == "color": l.set_color(rgb(c, "c") if c.flag("color") else None)
        elif op == "low": l.appl.low_memory_warning = not l.appl.low_memory_warning
        else:
            o = l.l.override_text = c.choice("o", (None, "override"))
            l.l.update_label()
            if o: l.want = "Low Memory!" if l.appl.low_memory_warning else o
        l.shown()
