"""Parameter up/down: any value, offset, maximum, repeat interval and clock readings; one press with repetitions from any state, histories
concretely."""
from vf.api import *
from .kemper import *

T = ["clients.local.actions.param_change.PARAMETER_UP_DOWN", "clients.local.actions.param_change._ParameterChangeCallback.__init__",
     "clients.local.actions.param_change._ParameterChangeCallback.push", "clients.local.actions.param_change._ParameterChangeCallback.release",
     "clients.local.actions.param_change._ParameterChangeCallback.update", "clients.local.actions.param_change._ParameterChangeCallback.update_displays",
     "misc.PeriodCounter.exceeded"] + TK


class Spec:
    def __init__(self, c, kind, offset, repeat, mx, **kw):
        self.c, self.offset, self.repeat = c, offset, repeat
        self.appl = KApp(c)
        self.kind = kind
        s = nrpn(c, 300) if kind == "sysex" else cc(c, 7, 0)
        r = nrpn(c, 0) if kind == "sysex" else cc(c, 70, 0)
        self.m = mapping(c, "p", set=s, response=r)
        self.max = mx if mx is not None else (16383 if kind == "sysex" else 127)
        if repeat != "default": kw["repeat_interval_millis"] = repeat
        else: self.repeat = 200
        self.b = Button(c, self.appl, c.get("pyswitch.clients.local.actions.param_change:PARAMETER_UP_DOWN")(mapping=self.m, offset=offset, max_value=mx, **kw))
        self.v = None
        self.down = False
        self.t = None          # start of the current repeat interval while held after a step

    def report(self, v):
        c = self.c
        self.appl.client.receive(answer(c, 0, v) if self.kind == "sysex" else cc(c, 70, v))
        self.v = v
        c.check("a report sends nothing", self.appl.sent() == [])
        c.check_eq("the reported value is taken over", self.m.value, v)

    def message(self, v):
        return (list((0, 0x20, 0x33)), [0x02, 0x7f, 0x01, 0x00, 300 // 128, 300 % 128, v // 128, v % 128]) if self.kind == "sysex" else (7, v)

    def step(self):
        c = self.c
        if self.v is None: return []
        x = self.v + self.offset
        t = c.ite(x < 0, 0, c.ite(x > self.max, self.max, x))
        self.t = c.now()
        return [self.message(t)]

    def push(self):
        self.down = True
        self.t = None
        self.c.check_eq("exactly one step, clamped", self.b.push(), self.step())
        self.c.check("polling the switch sends nothing more", self.b.idle() == [])

    def release(self):
        self.down = False
        self.t = None
        self.c.check("releasing sends nothing", self.b.release() == [])

    def update(self):
        c = self.c
        want = []
        if self.down and self.t is not None and self.repeat:
            if c.is_true(c.now() - self.t > self.repeat):
                c.cover("repeated")
                t0 = self.t
                want = self.step()
                if self.v is None: self.t = c.now()
        self.appl.update()
        c.check_eq("one step per elapsed repeat interval while held, none otherwise", self.appl.sent(), want)


@harness("C25", targets=T, params=("sysex", "cc"))
def one_press(c, kind):
    rep = c.int("interval", 1) if c.flag("repeat") else c.choice("no repeat", (None, 0))
    mx = c.int("max", 1, 16383 if kind == "sysex" else 127) if c.flag("max set") else None
    s = Spec(c, kind, c.int("offset"), rep, mx)
    c.set_now(c.int("start", 0))
    if c.flag("known"):
        s.report(c.int("value", 0, s.max))
    s.push()
    for _ in range(2):
        c.advance(c.int("dt", 0))
        s.update()
        if s.v is not None and c.flag("feedback"): s.report(c.int("new value", 0, s.max))
    s.release()
    c.advance(c.int("dt", 0))
    s.update()


@harness("C25", targets=T, params=("disabled", "overridden"), covers=["released", "still held"])
def taken_away(c, how):
    """an action which is disabled (another page) or overridden (tuner) while it is held does not get its release: no step is repeated any more"""
    en = EnableCb()
    s = Spec(c, "cc", c.choice("offset", (-5, 5)), c.int("interval", 1), None, enable_callback=en)
    c.set_now(c.int("start", 0))
    s.report(c.int("value", 0, 127))
    s.push()
    if c.flag("repeated before"):
        c.advance(c.int("dt", 0))
        s.update()
    if how == "disabled": en.on = False
    else:
        class Over:
            def push(self): pass
            def release(self): pass
        s.b.sw.override_action = Over()
    s.down, s.t = False, None
    c.advance(c.int("dt", 0))
    s.update()
    if c.flag("released"):
        c.cover("released")
        s.release()
    else: c.cover("still held")
    c.advance(c.int("dt", 0))
    s.update()
    en.on, s.b.sw.override_action = True, None
    c.advance(c.int("dt", 0))
    s.update()
    s.release()
    s.push()
    c.advance(c.int("dt", 0))
    s.update()
    s.release()


@harness("C25", targets=T)
def display(c):
    """with displays and preview the same is sent; default repetition"""
    lab, prev = Label(), PLabel()
    s = Spec(c, "cc", c.choice("offset", (-5, 5)), "default", None, display=lab, change_display=prev)
    lab.back_color = (1, 1, 1)
    s.report(c.int("value", 0, 127))
    s.push()
    c.advance(c.int("dt", 0))
    s.update()
    s.release()


@harness("C25", targets=T, covers=["repeated"])
def previewed(c):
    """with a preview display: the clock of the repetitions starts with the press, however long ago the last one was"""
    s = Spec(c, "cc", c.choice("offset", (-5, 5)), c.int("interval", 1), None, change_display=PLabel())
    c.set_now(c.int("start", 0))
    s.report(c.int("value", 0, 127))
    s.push()
    c.advance(c.int("dt", 0))
    s.update()
    s.release()


class PLabel(Label):
    """label with preview support"""
    override_text = None
    text_color = None
    def update_label(self): pass


@harness("C25", targets=T, kind="history", bounds="symbolically six operations; concretely 60", random_runs=400)
def history(c):
    s = Spec(c, c.choice("kind", ("sysex", "cc")), c.choice("offset", (1, -1, 10, -127, 200)) if not c.symbolic else c.int("offset", -200, 200),
             c.choice("repeat", ("default", 0, None, 1, 500)), None, change_display=PLabel() if c.flag("preview") else None)
    if c.symbolic:
        s.report(c.int("v", 0, 127))
        for op in "pupru": {"p": s.push, "u": s.update, "r": s.release}[op]() if not (c.advance(c.int("dt", 0)) or (op == "p" and s.down)) else None
        return
    for _ in range(60):
        c.advance(c.choice("dt", (0, 1, 100, 200, 201, 500, 501)))
        op = c.choice("op", ("press", "update", "report", "update"))
        if op == "press": s.release() if s.down else s.push()
        elif op == "update": s.update()
        else: s.report(c.int("v", 0, s.max))
