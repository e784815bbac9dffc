"""Rotating messages: any number of presses before, lists of any length (symbolic lengths), any message bytes; several LEDs; histories concretely."""
from vf.api import *
from .lib import *

M = "pyswitch.clients.local.actions.rotate"
T = ["clients.local.actions.rotate.ROTATING_MESSAGES", "clients.local.actions.rotate._CustomMessagesCallback.__init__",
     "clients.local.actions.rotate._CustomMessagesCallback.push", "clients.local.actions.rotate._CustomMessagesCallback.release",
     "clients.local.actions.rotate._CustomMessagesCallback.__next_step", "clients.local.actions.rotate._CustomMessagesCallback.update_displays",
     "clients.local.actions.rotate._CustomMessagesCallback._RawMessage.__bytes__", "controller.actions.Action.push", "controller.actions.Action.release",
     "controller.inputs.SwitchController.process"]
TC = ["clients.local.actions.custom.CUSTOM_MESSAGE", "clients.local.actions.custom._CustomMessageCallback.push",
      "clients.local.actions.custom._CustomMessageCallback.release", "clients.local.actions.custom._CustomMessageCallback.update_displays"]


class RawPort:
    def __init__(self): self.log = []
    def send(self, m): self.log.append(list(m.__bytes__()))
    def take(self):
        l, self.log = self.log, []
        return l


BASE = ["_Callback__initialized", "_Callback__mappings"]


class Rot:
    """messages, release messages, LED colors per LED, display colors, texts: lists or None"""
    def __init__(self, c, messages, release, leds, display_colors, texts, label=True, n=1, brightness=0.3, use_leds=True):
        self.c = c
        self.messages, self.rel, self.leds, self.texts, self.n = messages, release, leds, texts, n
        self.display_colors = display_colors
        self.appl = Appl()
        self.appl.client.midi = self.port = RawPort()
        self.label = Label() if label else None
        self.brightness = brightness
        self.actions = c.get(M + ":ROTATING_MESSAGES")(
            messages=messages, messages_release=release, led_colors=leds if n > 1 or leds is None else leds[0], led_brightness=brightness,
            display=self.label, display_colors=display_colors, texts=texts, use_leds=use_leds, num_leds=n)
        if not isinstance(self.actions, list): self.actions = [self.actions]
        c.check("one action per LED", len(self.actions) == n)
        self.sw, self.hw = switch(c, self.appl, self.actions, pixels=tuple(range(n)))
        self.count = 0

    def at(self, l, q=None):
        q = self.count if q is None else q
        return l[q % size(l)] if not isinstance(l, (list, tuple)) else self.pick(l, q % len(l))

    def pick(self, l, i):
        if isinstance(i, int): return l[i]
        for k in range(len(l) - 1):
            if self.c.is_true(i == k): return l[k]
        return l[-1]

    def push(self):
        self.hw.pushed = True
        self.sw.process()
        self.c.check_eq("the press message of this turn", self.port.take(), [list(self.at(self.messages))] if self.messages else [])

    def release(self):
        c = self.c
        self.hw.pushed = False
        self.sw.process()
        c.check_eq("the release message of this turn", self.port.take(), [list(self.at(self.rel))] if self.rel else [])
        self.count = self.count + 1
        self.shown()

    def shown(self):
        c = self.c
        for k in range(self.n):
            if self.leds:
                c.check_eq("LED color of this turn", tuple(self.sw.colors[k]), self.at(self.leds[k]))
                c.check_eq("LED brightness", self.sw.brightnesses[k], self.brightness)
        if self.label:
            if self.texts: c.check_eq("text of this turn", self.label.text, self.at(self.texts))
            d = self.display_colors or (self.leds[0] if self.leds else None)
            if d: c.check_eq("display color of this turn", self.label.back_color, self.at(d))


def size(l): return l.n if hasattr(l, "n") else len(l)


@harness("C26", targets=T, kind="induction")
def any_turn(c):
    """the callback after any number of presses, with lists of any length: sends, advances and shows the right entries"""
    appl = Appl()
    appl.client.midi = port = RawPort()
    L = [c.int("length", 1) for _ in range(5)]
    code = lambda k, i: [k, i % 256, i // 256 % 256]
    enc = lambda k: (lambda i: code(k, i))
    messages, release = c.seq(L[0], enc(1)), c.seq(L[1], enc(2))
    leds, disp = c.seq(L[2], lambda i: (i, 0, 1)), c.seq(L[3], lambda i: (i, 0, 2))
    texts = c.seq(L[4], lambda i: ("text", i))
    cb = c.get(M + ":_CustomMessagesCallback")(messages=messages, messages_release=release, led_colors=leds, led_brightness=0.3,
                                               display_colors=disp, texts=texts)
    class Act: pass
    act = Act()
    act.label = lab = Label()
    act.switch_color = act.switch_brightness = None
    cb.init(appl)
    cb.action = act
    # positions: number of turns before modulo the length of each list  ( (n + 1) mod L = n mod L + 1, or 0 if that is L )
    at = [c.int("turns modulo length", 0, l - 1) for l in L]
    nxt = [c.ite(p + 1 < l, p + 1, 0) for p, l in zip(at, L)]
    pos = ("messages", "messages_release", "led_colors", "display_colors", "texts")
    names = ["_CustomMessagesCallback__" + x for x in pos]
    c.inject(cb, {x + "_pos": p for x, p in zip(names, at)}, allow=names + ["_CustomMessagesCallback__appl", "_CustomMessagesCallback__led_brightness", "action", *BASE])
    cb.push()
    c.check_eq("press message n modulo the length", port.take(), [code(1, at[0])])
    cb.release()
    c.check_eq("release message n modulo the length", port.take(), [code(2, at[1])])
    for x, q in zip(names, nxt):
        c.check_eq("all positions advance by one, modulo their lengths", c.field(cb, x + "_pos"), q)
    c.check_eq("LED color", act.switch_color, (nxt[2], 0, 1))
    c.check_eq("display color", lab.back_color, (nxt[3], 0, 2))
    c.check_eq("text", lab.text, ("text", nxt[4]))


def make(c, sizes, n=1, label=True, disp=True, texts=True):
    ms = [[c.int("byte", 0, 255) for _ in range(1 + i % 3)] for i in range(sizes[0])] if sizes[0] else None
    rs = [[c.int("byte", 0, 255) for _ in range(1 + i % 3)] for i in range(sizes[1])] if sizes[1] else None
    leds = [[(10 * (k + 1), i, 0) for i in range(sizes[2])] for k in range(n)] if sizes[2] else None
    return Rot(c, ms, rs, leds, [(i, 5, 5) for i in range(sizes[3])] if sizes[3] else None, ["t%d" % i for i in range(sizes[4])] if sizes[4] else None, label=label, n=n)


CONF = ((2, 3, 4, 2, 3, 1, True), (1, 0, 2, 0, 2, 1, True), (3, 1, 3, 0, 0, 1, False), (0, 2, 2, 3, 2, 1, True), (4, 2, 3, 2, 2, 2, True), (3, 3, 5, 0, 3, 3, True), (2, 2, 0, 2, 0, 1, True), (6, 0, 0, 0, 0, 1, False))


@harness("C26", targets=T, kind="history", params=CONF, bounds="seven turns from the start; lists of up to six entries", random_runs=60)
def turns(c, conf):
    *sizes, n, label = conf
    r = make(c, sizes, n, label)
    r.sw.process()
    r.actions[0].update_displays()
    for _ in range(7):
        r.push()
        r.release()


@harness("C26", targets=TC)
def custom(c):
    """a single message: any bytes, each press and release"""
    msg = [c.int("byte", 0, 255) for _ in range(4)]
    rel = [c.int("byte", 0, 255) for _ in range(3)] if c.flag("release message") else None
    appl = Appl()
    appl.client.midi = port = RawPort()
    lab = Label() if c.flag("label") else None
    act = c.get("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")(message=msg, message_release=rel, text="x", color=(1, 2, 3), led_brightness=0.2, display=lab)
    sw, hw = switch(c, appl, [act])
    for _ in range(3):
        hw.pushed = True
        sw.process()
        sw.process()
        c.check_eq("exactly the configured bytes on every press", port.take(), [msg])
        hw.pushed = False
        sw.process()
        c.check_eq("exactly the configured release bytes", port.take(), [rel] if rel else [])
    act.update_displays()
    c.check_eq("color", [tuple(x) for x in sw.colors], [(1, 2, 3)] * 3)
    if lab: c.check_eq("label", [lab.text, lab.back_color], ["x", (1, 2, 3)])


@harness("C26", targets=T, kind="history", bounds="concretely: 40 turns", random_runs=150)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    n = c.choice("leds", (1, 1, 2, 4))
    r = make(c, [c.int("size", 0, 7) for _ in range(2)] + [c.int("size", 1, 7)] + [c.int("size", 0, 7) for _ in range(2)], n, c.flag("label"))
    for _ in range(40):
        r.push()
        for _ in range(c.choice("polls", (0, 1, 3))): r.sw.process()
        c.check("polling sends nothing", r.port.take() == [])
        r.release()
