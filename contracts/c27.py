"""Value previews on the real label: one operation from an arbitrary state (all times, intervals, clients), and histories concretely."""
from vf.api import *
from .lib import *

T = ["controller.preview.ValuePreview.get", "controller.preview.ValuePreview.__init__", "controller.preview.ValuePreview.preview",
     "controller.preview.ValuePreview.preview_mapping", "controller.preview.ValuePreview.reset", "controller.preview.ValuePreview.update",
     "ui.elements.DisplayLabel.update_label", "ui.elements.DisplayLabel.text", "misc.PeriodCounter.exceeded"]

BLINK = (200, 200, 200)


class Client:
    """announces itself on the label; gives way by resetting the preview, like the encoder action, or does nothing"""
    def __init__(self, name, log, vp=None, immediately=None):
        self.name, self.log, self.vp, self.immediately = name, log, vp, immediately
    def cancel(self):
        self.log.append(self.name)
        if self.vp: self.vp.reset(immediately=self.immediately)


class Spec:
    def __init__(self, c, text_color=None, back=None):
        self.c = c
        layout = {"font": "f"}
        if text_color: layout["textColor"] = text_color
        if back: layout["backColor"] = back
        spec = self
        class Cb:
            def update_label(self, label): label.text = spec.normal
        self.normal = "normal"
        self.label = c.get("pyswitch.ui.elements:DisplayLabel")(layout=layout, callback=Cb())
        self.label.update_label()
        V = c.get("pyswitch.controller.preview:ValuePreview")
        self.vp = V.get(self.label)
        c.check("one preview handler per label", V.get(self.label) is self.vp)
        self.orig = text_color or ((255, 255, 255) if not back or sum(x * y for x, y in zip(back, (2126, 7151, 721))) < 1400000 else (0, 0, 0))
        self.orig0 = self.label.text_color
        self.log = []
        self.text, self.stay, self.T, self.t0, self.B, self.b0 = None, False, None, None, None, None
        self.blink_color = None
        self.clients = []

    def shown(self, what):
        c = self.c
        c.check_eq("label shows the preview exactly while it is active", self.label.text, self.text or self.normal)
        c.check_eq("override text", self.label.override_text or None, self.text)

    def preview(self, text, client=None, stay=False, timeout=1500, blink=None, color=BLINK):
        c = self.c
        want = [x.name for x in self.clients if x is not client]
        for x in self.clients:
            if x is not client and x.vp: self.after_reset(x.immediately)
        self.vp.preview(text=text, client=client, stay=stay, timeout_millis=timeout, blink_interval_millis=blink, blink_color=color)
        got, self.log[:] = list(self.log), []
        c.check_eq("all other clients give way, once, and not the starting one", got, want)
        if client is not None and client not in self.clients: self.clients.append(client)
        self.text, self.stay, self.T, self.t0 = text, stay, timeout or None, c.now()
        if not blink: self.B = None
        else:
            if self.B is None: self.b0 = None         # the first change may come at once
            self.B = blink
        self.blink_color = color
        self.shown("preview")

    def after_reset(self, immediately):
        self.B, self.stay = None, False
        if self.T is None or immediately: self.text = self.T = None
        else: self.t0 = self.c.now()

    def reset(self, immediately):
        self.vp.reset(immediately)
        self.after_reset(immediately)
        self.shown("reset")
        self.c.check_eq("a reset restores the text color", self.label.text_color, self.orig if self.orig0 is None else self.orig0)

    def update(self):
        c = self.c
        before = self.label.text_color
        self.vp.update()
        blinks = known = False
        if self.text:
            if not self.stay and self.T is not None and c.is_true(c.now() - self.t0 > self.T):
                c.cover("expired")
                self.text = None
                self.t0 = c.now()
            if self.B is not None and (self.b0 is None or c.is_true(c.now() - self.b0 > self.B)):
                blinks, known = True, self.b0 is not None
                if self.b0 is not None or self.label.text_color != before: self.b0 = c.now()
        self.shown("update")
        if not blinks: c.check_eq("the color changes only after a blink interval", self.label.text_color, before)
        elif self.text:
            o = self.orig if self.orig0 is None else self.orig0
            c.check("blink or original color", c.any([c.eq(self.label.text_color, self.blink_color), c.eq(self.label.text_color, o), c.eq(self.label.text_color, self.orig0)]))
        return known


OPS = ("preview", "stay", "blink", "reset", "reset now", "update", "other")


@harness("C27", targets=T, kind="induction", params=OPS)
def any_state(c, op):
    """one operation in an arbitrary state of the handler"""
    s = Spec(c)
    c.set_now(c.int("t0", 0))
    P = c.get("pyswitch.misc:PeriodCounter")
    def period(kind):
        if not c.flag(kind): return None, None, None
        iv, t = c.int(kind + " interval", 1), c.int(kind + " start", 0)
        now = c.now()
        c.assume(t <= now)
        p = P(iv)
        c.set_now(t)
        p.reset()
        c.set_now(now)
        return p, iv, t
    p, s.T, s.t0 = period("timeout")
    b, s.B, s.b0 = period("blink")
    s.stay = c.flag("stay")
    state = c.flag("blink state")
    s.text = "T1" if c.flag("active") else None
    n = c.choice("clients", (0, 1, 2))
    s.clients = [Client("c%d" % i, s.log, s.vp if i == 0 else None, c.flag("cancel immediately") if i == 0 else None) for i in range(n)]
    s.blink_color = BLINK
    v = "_ValuePreview__"
    c.inject(s.vp, {v + "period": p, v + "blink_period": b, v + "stay": s.stay, v + "blink_state": state, v + "clients": list(s.clients) if n else None},
             allow=("label", v + "orig_color"))
    s.vp.__dict__[v + "blink_color"] = BLINK
    s.label.override_text = s.text
    s.label.update_label()
    if s.text and state and s.B: s.label.text_color = BLINK
    cl = c.choice("client", list(s.clients) + [Client("new", s.log), None])
    if op == "preview": s.preview("T2", cl, False, c.int("timeout", 1), None)
    elif op == "stay": s.preview("T2", cl, True, c.int("timeout", 1) if c.flag("timeout") else None, None)
    elif op == "blink": s.preview("T2", cl, c.flag("stays"), c.choice("no timeout", (None, 0)), c.int("blink", 1), (1, 2, 3))
    elif op == "reset": s.reset(False)
    elif op == "reset now": s.reset(True)
    elif op == "other":
        s.normal = "other"
        s.label.update_label()
        s.shown("other text")
    else: s.update()


@harness("C27", targets=T, params=(127, 1023, 16383))
def percentage(c, mx):
    s = Spec(c)
    v = c.int("value", 0, mx)
    m = FakeMapping(c.choice("name", ("Vol", "")))
    got = []
    cb = None
    if c.flag("callback"): cb = lambda x: got.append(x) or "text"
    s.vp.preview_mapping(value=v, mapping=m, max_value=mx, text_callback=cb, timeout_millis=c.int("timeout", 1))
    if cb:
        c.check_eq("the callback gets the value", got, [v])
        s.text = "text"
    else:
        p = c.int("percent", 0, 100)
        c.assume(c.all([2 * (p * mx - v * 100) <= mx, 2 * (v * 100 - p * mx) <= mx, 2 * (v * 100 - p * mx) != mx, 2 * (p * mx - v * 100) != mx]))
        s.text = (m.name + ": " if m.name else "") + str(p) + "%"
    s.shown("mapping")


@harness("C27", targets=T, kind="history", params=("stay", "timeout"), bounds="symbolically: a preview, updates, a reset and updates", random_runs=50)
def preview(c, kind):
    """public operations only"""
    color = c.choice("text color", (None, (1, 2, 3)))
    s = Spec(c, color, c.choice("background", (None, (0, 0, 0), (250, 250, 250))))
    cl = [Client("a", s.log, s.vp, True), Client("b", s.log)]
    c.set_now(c.int("start", 0))
    s.preview("A", cl[0], kind == "stay", c.int("timeout", 1) if kind == "timeout" else None, c.int("blink", 1) if kind == "stay" else None)
    n = 0
    for _ in range(2):
        c.advance(c.int("dt", 0))
        s.update()
    if kind == "stay":
        s.preview("B", cl[1], c.flag("stays"), c.int("timeout", 1))
        c.advance(c.int("dt", 0))
        s.update()
    s.reset(c.flag("immediately"))
    c.advance(c.int("dt", 0))
    s.update()


@harness("C27", targets=T, kind="history", bounds="concretely: 80 operations", random_runs=400)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    s = Spec(c, c.choice("text color", (None, (1, 2, 3))), c.choice("background", (None, (0, 0, 0), (250, 250, 250))))
    cl = [Client("a", s.log, s.vp, True), Client("b", s.log, s.vp, False), Client("c", s.log), None]
    flips = 0
    for _ in range(80):
        c.advance(c.choice("dt", (0, 1, 50, 51, 100, 200)))
        op = c.choice("op", ("preview", "update", "update", "update", "reset", "normal"))
        if op == "preview":
            s.preview(c.choice("text", ("A", "B", "C")), c.choice("client", cl), c.flag("stay"), c.choice("timeout", (None, 0, 50, 1500)), c.choice("blink", (None, None, 50, 100)))
            last = s.label.text_color
            flips = 0
        elif op == "update":
            before = s.label.text_color
            if s.update():
                flips = 0 if s.label.text_color != before else flips + 1
                c.check("it blinks", flips < 2 or not s.text)
        elif op == "reset": s.reset(c.flag("immediately"))
        else:
            s.normal = c.choice("normal", ("x", "y"))
            s.label.update_label()
            s.shown("normal")


EA = "controller.actions.EncoderAction.EncoderAction."


@harness("C27", targets=T + [EA + "__init__", EA + "process", EA + "update", EA + "accept", EA + "cancel", "clients.local.actions.encoder_button._EncoderButtonCallback.push"],
         params=[(p, k) for p in ("accept", "cancel", "direct") for k in ("percentage", "text")])
def encoder(c, p):
    """the preview of an encoder: with an accept button it stays and blinks until it is accepted (then it disappears after the timeout) or cancelled (at once); without one it does not
    blink and disappears after the timeout"""
    end, kind = p
    pre = end != "direct"
    s = Spec(c)
    c.set_now(c.int("start", 0))
    timeout, blink = c.int("timeout", 1), c.int("blink", 1)
    m = FakeMapping("Vol", set=cc(c, 1, 0), value=c.int("value", 0, 127))
    EB = c.get("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")
    kw = {}
    if pre:
        ok, no = EB(), EB()
        kw = dict(accept_action=ok, cancel_action=no)
    if kind == "text": kw["convert_value"] = lambda v: ("value", v)[0]
    a = c.get("pyswitch.controller.actions.EncoderAction:EncoderAction")(m, preview_display=s.label, preview_timeout_millis=timeout, preview_blink_period_millis=blink, preview_blink_color=BLINK, **kw)
    appl = Appl()
    a.init(appl)
    if pre:
        for b in (ok, no): b.init(appl, None)
    c.check_eq("nothing is shown before a turn", s.label.text, "normal")
    color = s.label.text_color
    a.process(0)
    turn = c.int("turn", -128, 128)
    v = m.value + turn
    v = c.ite(v < 0, 0, c.ite(v > 127, 127, v))
    c.assume(v != m.value)
    a.process(turn)
    if kind == "text": text = "value"
    else:
        pc = c.int("percent", 0, 100)
        c.assume(c.all([2 * (pc * 127 - v * 100) < 127, 2 * (v * 100 - pc * 127) < 127]))
        text = "Vol: " + str(pc) + "%"
    c.check_eq("the new value is shown", s.label.text, text)
    t0 = c.now()
    c.advance(c.int("dt", 0))
    a.update()
    if pre:
        c.check_eq("it stays", s.label.text, text)
        before = s.label.text_color
        c.advance(c.int("more", 0))
        c.assume(c.now() > t0 + 2 * blink)
        a.update()
        c.check_eq("it stays", s.label.text, text)
        if c.is_true(before == color): c.advance(c.int("again", 0))
        a.update()
        (ok if end == "accept" else no).push()
        c.check_eq("the normal color again", s.label.text_color, s.orig if s.orig0 is None else s.orig0)
        t0 = c.now()
        if end == "accept":
            c.check_eq("the accepted value is still shown", s.label.text, text)
            c.advance(c.int("after", 0))
            a.update()
        else:
            c.check_eq("a cancelled value disappears at once", s.label.text, "normal")
            c.advance(c.int("after", 0))
            a.update()
            return c.check_eq("a cancelled value does not come back", s.label.text, "normal")
    gone = c.is_true(c.now() - t0 > timeout)
    c.check_eq("it disappears after the timeout and not before", s.label.text, "normal" if gone else text)
    c.check("no blinking", c.any([c.eq(s.label.text_color, color), c.eq(s.label.text_color, s.orig)]))


@harness("C27", targets=T + [EA + "process", EA + "update"])
def encoder_blinks(c):
    """a preselected value blinks: two updates more than an interval apart have different colors"""
    s = Spec(c, (1, 2, 3))
    c.set_now(c.int("start", 0))
    blink = c.int("blink", 1)
    own = c.choice("color", (BLINK, (4, 5, 6)))
    EB = c.get("pyswitch.clients.local.actions.encoder_button:ENCODER_BUTTON")
    m = FakeMapping("Vol", set=cc(c, 1, 0), value=5)
    a = c.get("pyswitch.controller.actions.EncoderAction:EncoderAction")(m, preview_display=s.label, preview_timeout_millis=c.int("timeout", 1), preview_blink_period_millis=blink, preview_blink_color=own, accept_action=EB(), convert_value=lambda v: "x")
    a.init(Appl())
    a.process(0)
    a.process(3)
    colors = []
    for i in range(3):
        dt = c.int("dt", 1)
        c.assume(dt > blink)
        c.advance(dt)
        a.update()
        colors.append(s.label.text_color)
    c.check_eq("colors", colors, [own, (1, 2, 3), own] if colors[0] == own else [(1, 2, 3), own, (1, 2, 3)])
