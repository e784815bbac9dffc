"""Strobe tuner: any deviance, clock readings and position, typical speeds, widths and numbers of switches; histories with the real tuner mode."""
from vf.api import *
from .kemper import *

S = "controller.strobe.StrobeController."
T = [S + x for x in ("__init__", "init", "parameter_changed", "__update_strobe")] + ["misc.PeriodCounter.exceeded", "misc.PeriodCounter.passed", "misc.PeriodCounter.reset"]
COLOR = (9, 8, 7)


class Sw:
    def __init__(self, log, k, order):
        self.pixels, self.strobe_order, self.k, self.log = (k,), order, k, log
        self._c, self._b = None, 0
    @property
    def color(self): return self._c
    @color.setter
    def color(self, x): self._c = x
    @property
    def brightness(self): return self._b
    @brightness.setter
    def brightness(self, x):
        self._b = x
        self.log.append((self.k, self._c, x))


class Strobe:
    def __init__(self, c, n=3, speed=1000, width=0.3, dim=0.1, fps=120, reverse=False, orders=None):
        self.c, self.n, self.dim, self.speed, self.reverse = c, n, dim, speed, reverse
        self.log = []
        self.state, self.dev = FakeMapping("state"), FakeMapping("deviance")
        self.s = c.get("pyswitch.controller.strobe:StrobeController")(mapping_state=self.state, mapping_deviance=self.dev, speed=speed, width=width, color=COLOR,
                                                                     dim_factor=dim, max_fps=fps, reverse=reverse)
        self.appl = Appl()
        orders = orders or range(n)
        self.sw = [Sw(self.log, k, o) for k, o in zip(range(n), orders)]
        class Pedal: pass
        self.appl.inputs += [Pedal()] + self.sw + [Pedal()]
        self.s.init(self.appl)
        c.check("listens to both parameters", listeners(self.appl, self.state) == [self.s] and listeners(self.appl, self.dev) == [self.s])
        self.interval = int(1000 / fps * n)
        self.on = False
        self.last = None                 # time of the last frame, or of switching on

    def tuner(self, v):
        self.state.value = v
        self.log.clear()
        self.s.parameter_changed(self.state)
        self.c.check("switching writes no LEDs", self.log == [])
        self.on = v == 1 if type(v) is int else self.c.is_true(v == 1)
        if self.on: self.last = self.c.now()
        self.fresh = True

    def report(self, v):
        """deviance reported; returns if a frame was drawn"""
        c = self.c
        self.dev.value = v
        self.log.clear()
        before = [s._b for s in self.sw]
        self.s.parameter_changed(self.dev)
        due = self.on and self.n > 1 and c.is_true(c.now() - self.last > self.interval)
        if not due:
            c.check("no LEDs are written while off, with one switch, or more often than configured", self.log == [])
            return False
        c.cover("frame")
        self.last = c.now()
        c.check("each LED at most once per frame", len(set(k for k, _, _ in self.log)) == len(self.log))
        for _, col, b in self.log:
            c.check("strobe color", col == COLOR)
            c.check("brightness between 0 and the dim factor", c.all([0 <= b, b <= self.dim]))
        for s in self.sw: c.check("every LED is in the range", c.all([0 <= s._b, s._b <= self.dim]))
        return True


PAR = [(n, sp, w) for n in (2, 3, 5) for sp in (1000, 1, 37.5) for w in (0.3, 1, 0.01) if n < 5 or sp == 1000]
INTERVAL = {n: int(1000 / 120 * n) for n in (2, 3, 5)}
P = "_StrobeController__strobe_pos"


@harness("C37", targets=T, kind="induction", params=PAR, covers=["frame"], bounds="position changes up to two periods per frame; 2, 3 or 5 switches; nine speeds and widths")
def any_frame(c, p):
    """any position and deviance; the position stays in one period"""
    n, speed, width = p
    s = Strobe(c, n, speed, width, reverse=c.flag("reverse"))
    s.tuner(1)
    period = speed * 2000
    pos = c.int("pos", -int(period), int(period))
    c.field(s.s, P)
    s.s.__dict__[P] = pos
    for w in s.sw: w._b = 1                              # set by somebody while the tuner was off
    c.advance(s.interval + 1 if speed == 1 else c.choice("passed", (s.interval + 1, 200)))
    s.report(c.int("deviance", 0, 16383) if speed != 1 else c.int("deviance", 8191 - 50, 8191 + 50))
    x = s.s.__dict__[P]
    c.check("the position stays bounded", c.all([-period <= x, x <= period]))


@harness("C37", targets=T, params=[(n, r) for n in (2, 3) for r in (False, True)], covers=["frame"], bounds="two reports, recommended speed")
def timing(c, p):
    """any time between two reports"""
    n, r = p
    s = Strobe(c, n, reverse=r)
    c.advance(c.int("t0", 0))
    if c.flag("off before"):
        s.tuner(0)
        s.report(c.int("d0", 0, 16383))
    s.tuner(1)
    for k in range(2):
        c.advance(c.int("dt", 0, 60))
        s.report(c.choice("d", (8191, 9000)))
        if c.flag("state again"): s.tuner(c.choice("v", (0, 1)))


@harness("C37", targets=T, params=[(n, r) for n in (3, 4, 5) for r in (False, True)], bounds="3 to 5 switches in any order, recommended speed, first frame")
def direction(c, p):
    """the highlight leaves the first switch towards the next one of the strobe order if the note is too high, else the other way; reversed if configured"""
    n, r = p
    s = Strobe(c, n, width=0.5, reverse=r, orders=c.choice("order", (tuple(range(n)), tuple(range(n, 0, -1)), (1, 0) + tuple(range(2, n)))))
    s.tuner(1)
    c.advance(s.interval + 1)
    up = c.flag("too high")
    s.report(c.int("deviance", 10191, 16383) if up else c.int("deviance", 0, 6191))
    k = sorted(s.sw, key=lambda w: w.strobe_order)
    a, b = k[1]._b, k[-1]._b
    c.check("moves in the direction of the deviance", a > b if up != r else b > a)


@harness("C37", targets=T, params=(0, 1))
def too_few(c, n):
    """with fewer than two switches nothing happens"""
    s = Strobe(c, n)
    for _ in range(2):
        s.tuner(c.int("state", 0, 16383))
        c.advance(c.int("dt", 0))
        s.report(c.int("d", 0, 16383))


@harness("C37", targets=T, params=(True, False))
def state_values(c, first):
    """any value of the state: exactly 1 is on"""
    s = Strobe(c, 2)
    if first: s.tuner(1)
    s.tuner(c.int("state", 0, 127))
    c.advance(INTERVAL[2] + 1)
    s.report(8191)


@harness("C37", targets=T, kind="history", bounds="concretely: up to 10 switches, 60 events, real switches and tuner mode in half of the runs", random_runs=400)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    if c.flag("real"): return real(c)
    n = c.int("switches", 0, 10)
    s = Strobe(c, n, c.choice("speed", (1000, 1, 10, 0.5, 123.4)), c.choice("width", (0.3, 1, 0.5, 0.01, 0.9)), c.choice("dim", (0, 0.1, 0.37, 1)),
               c.choice("fps", (120, 1, 30, 5000)), c.flag("reverse"), [c.int("order", 0, 9) for _ in range(n)])
    for _ in range(60):
        op = c.choice("op", ("state", "dev", "dev", "dev", "time", "led"))
        if op == "state": s.tuner(c.choice("v", (0, 1, 1, 5)))
        elif op == "dev": s.report(c.choice("d", (0, 16383, 8191, 8192, c.int("v", 0, 16383), 8200)))
        elif op == "led" and not s.on:
            for w in s.sw: w._b = 0.7
        c.advance(c.choice("dt", (0, 1, 8, 20, 50, 300, 5000)))
        x = s.s.__dict__.get(P)
        if x is not None: c.check("the position stays bounded", abs(x) <= 2000 * s.speed)


def real(c):
    """the real callback and switches: while the tuner is on, LEDs are in the range after the first frame"""
    K = c.get("pyswitch.clients.kemper:KemperMappings")
    appl = KApp(c)
    d = c.get("pyswitch.ui.ui:DisplayElement")()
    t = c.get("pyswitch.ui.ui:DisplayElement")()
    dim = c.choice("dim", (0.05, 0.1, 1))
    cb = c.get("pyswitch.clients.kemper:TunerDisplayCallback")(splash_default=d, splash_tuner=t, strobe=True, strobe_dim=dim, strobe_speed=c.choice("speed", (1000, 10)),
                                                               process_overridden_actions=c.flag("process"), strobe_reverse=c.flag("rev"))
    n = c.int("n", 2, 6)
    sws = []
    Act = c.get("pyswitch.controller.actions:Action")
    for i in range(n):
        class Cb(c.get("pyswitch.controller.callbacks:Callback")):
            def push(self): pass
            def release(self): pass
            def reset(self): pass
            def update_displays(self):
                self.action.switch_color = (50, 60, 70)
                self.action.switch_brightness = 0.3
        sw, _ = switch(c, appl, [Act({"callback": Cb(), "useSwitchLeds": True})], pixels=(2 * i, 2 * i + 1), )
        sws.append(sw)
        appl.inputs.append(sw)
    cb.init(appl)
    def send(m, v):
        appl.update()
        appl.client.receive(sysex(c, list(m.response.manufacturer_id), list(m.response.data)[:6] + [v // 128, v % 128]))
    on, last = False, 0
    framed = False
    for _ in range(40):
        c.advance(c.choice("dt", (0, 10, 100, 100)))
        if c.choice("op", (0, 1, 1, 1)) == 0:
            v = c.choice("v", (0, 1))
            if v == 1:
                last = c.now()
                if not on: framed = False
            on = v == 1
            send(K.TUNER_MODE_STATE(), v)
        else:
            send(K.TUNER_DEVIANCE(), c.choice("d", (8191, 8200, 8191, 0)))
            if on and c.now() - last > int(1000 / 120 * n):
                framed, last = True, c.now()
        if on and framed:
            for sw in sws:
                c.check("every LED is in the range", all(0 <= b <= dim + 1e-6 for b in sw.brightnesses))
                for px in sw.pixels:
                    want = tuple(int(255 * b) for b in [sw.brightnesses[0]])[0]
                    c.check("the LED shows it in strobe color", all(abs(v - want) <= 1 for v in appl.led_driver.leds[px]))
        if not on:
            for sw in sws: c.check("normal LEDs while off", all(abs(b - 0.3) < 1e-6 for b in sw.brightnesses) or framed is False)
