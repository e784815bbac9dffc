"""The browser emulation: the firmware runs on stand-ins for the ports of the device.  The same contracts as for the device (C45): what the browser
has is what the firmware reads, what the firmware writes is what the browser gets, exactly once and in order."""
from vf.api import *
from .lib import *

W = "wrappers."
RUN = "PySwitchRunner.PySwitchRunner."
T_MIDI = [W + "wrap_adafruit_midi." + f for f in ("WrapMidiInput.read", "WrapMidiInput._monitor", "WrapMidiOutput.write", "WrapMidiOutput._monitor")]
T_IN = [W + "wrap_io." + k + f for k in ("WrapDigitalIO.DigitalInOut.", "WrapAnalogIO.AnalogIn.") for f in ("__init__", "value")] + \
       [W + "wrap_io.WrapRotaryIO.IncrementalEncoder." + f for f in ("__init__", "position")] + [W + "wrap_time.WrapTime.monotonic", W + "wrap_hid.WrapUsbHidKeyboard.Keyboard.send"]
T_LED = [W + "wrap_adafruit_led.WrapNeoPixelDriver." + f for f in ("__init__", "init", "LedList.__setitem__", "LedList.fill")]
T_DISPLAY = [W + "WrapDisplayDriver." + f for f in ("WrapTFT.show", "WrapTFT.update", "WrapTFT.get_canvas", "WrapDisplayDriver.update")] + \
            [W + "wrap_adafruit_display." + f for f in ("WrapDisplayIO.Group.render", "WrapAdafruitDisplayText.label.Label.render", "WrapDisplayShapes.rect.Rect.render",
            "WrapFont.size", "WrapFont.css", "WrapFont.offset_x", "WrapFont.offset_y", "WrapFontLoader.get", "_color_2_css")]
T_WRAP = [W + "wrap_adafruit_display.WrapAdafruitDisplayText.wrap_text_to_pixels"]
T_RUN = [RUN + f for f in ("__init__", "run", "init", "_init_default", "_init_explore_mode", "tick", "stop")]


class Data:
    """data set of a DOM element"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def to_py(self): return self
    def hasOwnProperty(self, k): return k in self.__dict__


class Element:
    def __init__(self, **kw): self.dataset, self.style = Data(**kw), Data()


class Canvas(Element):
    """records what is drawn, with the color and font in force"""
    def __init__(self, width=10):
        super().__init__()
        self.drawn, self.text_width = [], width
        self.fillStyle = self.font = None
    def getContext(self, kind): return self
    def fillRect(self, *a): self.drawn.append(("rect", self.fillStyle) + a)
    def fillText(self, *a): self.drawn.append(("text", self.fillStyle, self.font) + a)
    def measureText(self, t): return Data(width=self.text_width(t) if callable(self.text_width) else self.text_width)


class Browser:
    """window and document"""
    def __init__(self, c):
        self.c, self.refs, self.elements = c, c.mod("js").externalRefs, c.mod("js").document.elements
    def queue(self, *msgs):
        self.refs.midiWrapper = w = Data(messageQueue=list(msgs), sent=[])
        w.send = w.sent.append
        return w
    def monitor(self):
        self.refs.midiMonitor = m = Data(seen=[])
        m.monitorInput = lambda msg: m.seen.append(("in", list(msg)))
        m.monitorOutput = lambda msg: m.seen.append(("out", list(msg)))
        return m


@harness("C47", targets=T_MIDI, params=[(x, y, z) for x in (0, 1, 2) for y in (0, 1, 2) for z in (0, 1)], bounds="up to 4 messages of 1 or 3 bytes, which may arrive between three reads; the sizes asked for are arbitrary")
def midi_in(c, arrive):
    """every message which is queued is read exactly once, complete and in order, whatever number of bytes is asked for; not more than asked for,
    unless a message alone is bigger"""
    b = Browser(c)
    I = c.get("wrappers.wrap_adafruit_midi:WrapMidiInput")()
    if c.flag("no connection yet"):
        if c.flag("known"): b.refs.midiWrapper = None
        c.check("nothing to read without a connection", not I.read(c.int("first size", 1, 100)))
    w = b.queue()
    mon = b.monitor() if c.flag("monitor") else None
    all_, got = [], []
    for k in range(3):
        for _ in range(arrive[k]):
            m = [byte(c, "byte", 255) for _ in range(c.choice("length", (1, 3)))]
            if len(all_) >= 4: break
            all_.append(m)
            w.messageQueue.append(tuple(m))
        n = c.int("size", 1, 100)
        before = len(w.messageQueue)
        r = I.read(n) or []
        got = got + list(r)
        left = len(w.messageQueue)
        c.check("something is read if there is something", before == 0 or left < before)
        c.check("not more than asked for, unless a message alone is bigger", c.any([len(r) <= n, before - left == 1]))
        done = len(all_) - left
        c.check_eq("the messages read, complete and in order", got, [x for m in all_[:done] for x in m])
        c.check_eq("the others are still there", [list(m) for m in w.messageQueue], all_[done:])
    if mon: c.check_eq("the monitor sees them, too", mon.seen, [("in", m) for m in all_[:done]])


@harness("C47", targets=T_MIDI)
def midi_out(c):
    """each packet goes to the output exactly once; without a connection it is dropped"""
    b = Browser(c)
    O = c.get("wrappers.wrap_adafruit_midi:WrapMidiOutput")()
    mon = b.monitor() if c.flag("monitor") else None
    if c.flag("no connection yet"):
        if c.flag("known"): b.refs.midiWrapper = None
        O.write([1, 2, 3], 3)
        c.check("nobody sees it", not mon or mon.seen == [])
    w = b.queue()
    want = []
    for n in range(2):
        p = [byte(c, "byte", 255) for _ in range(c.choice("length", (1, 3)))]
        O.write(p, len(p))
        want.append(p)
        c.check_eq("exactly the packets", [list(x) for x in w.sent], want)
    if mon: c.check_eq("the monitor sees them, too", mon.seen, [("out", p) for p in want])


@harness("C47", targets=T_MIDI + ["hardware.adafruit.AdafruitUsbMidiDevice.AdafruitUsbMidiDevice.receive"], kind="history",
    bounds="random traffic: up to 90 messages, in bursts of up to 60, 6 types of messages")
def traffic(c):
    """the firmware receives all messages the browser has, whatever the bursts are"""
    if c.symbolic: return c.check("concrete only", True)
    c.mod("pyswitch.controller.midi")
    b = Browser(c)
    w = b.queue()
    d = c.get("pyswitch.hardware.adafruit.AdafruitUsbMidiDevice:AdafruitUsbMidiDevice")(port_in=c.get("wrappers.wrap_adafruit_midi:WrapMidiInput")(),
        port_out=c.get("wrappers.wrap_adafruit_midi:WrapMidiOutput")(), in_buf_size=100)
    want, got, i = [], [], 0
    def take(n):
        for _ in range(n):
            m = d.receive()
            if m is not None: got.append(list(m.__bytes__()))
    for burst in range(3):
        for _ in range(c.choice("burst", (0, 1, 5, 36, 60)) if i < 60 else 0):
            i += 1
            k = c.choice("message", ("cc", "pc", "sysex", "long sysex"))
            m = [0xb0, i, 5] if k == "cc" else [0xc1, i] if k == "pc" else [0xf0, 0, 32, 51] + [i] * (3 if k == "sysex" else 60) + [0xf7]
            want.append(m)
            w.messageQueue.append(m)
        take(c.choice("polls", (0, 1, 7, 30)))
    take(len(want) + 5)
    c.check_eq("all messages, in order", got, want)


@harness("C47", targets=T_IN)
def inputs(c):
    """switches, pedals and wheels of the firmware show the state of their elements on the page, at any time; neutral if there is none"""
    b = Browser(c)
    M = c.mod("wrappers.wrap_io")
    c.world.stubs.update(digitalio=M.WrapDigitalIO("ns"), analogio=M.WrapAnalogIO("ns"), rotaryio=M.WrapRotaryIO("ns"), board=M.WrapBoard)
    gp = c.choice("port", (0, 9, 28))
    port = getattr(M.WrapBoard, "GP%d" % gp)
    there = c.flag("on the page")
    s, p, e = Element(), Element(), Element()
    other = Element(pushed="true", value=1, position=1)
    for x in range(29):
        for kind, el in (("switch", s), ("potentiometer", p), ("encoder", e)): b.elements["ns-%s-gp%d" % (kind, x)] = other if x != gp else el
    if not there:
        for kind in ("switch", "potentiometer", "encoder"): del b.elements["ns-%s-gp%d" % (kind, gp)]
    H = "pyswitch.hardware.adafruit."
    sw, pot, enc = c.get(H + "AdafruitSwitch:AdafruitSwitch")(port), c.get(H + "AdafruitPotentiometer:AdafruitPotentiometer")(port), c.get(H + "AdafruitEncoder:AdafruitEncoder")(port, 28 - port)
    sw.init(), pot.init(), enc.init()
    c.check("neutral before the page sets something", (sw.pushed, pot.value, enc.position) == (False, 0, 0))
    for n in range(2):
        pushed, v, pos = c.choice("pushed", ("true", "false")), c.int("value", 0, 65535), c.int("position")
        s.dataset.pushed, p.dataset.value, e.dataset.position = pushed, v, pos
        c.check("the switch", sw.pushed is (there and pushed == "true"))
        c.check_eq("the pedal", pot.value, v if there else 0)
        c.check_eq("the wheel", enc.position, pos if there else 0)


@harness("C47", targets=T_IN, kind="enumeration")
def board(c):
    """the ports of the board are all different, and the same as those of the device"""
    B = c.get("wrappers.wrap_io:WrapBoard")
    ports = {n: v for n, v in B.__dict__.items() if n.startswith("GP")}
    c.check("each port has its own number", ports == {"GP%d" % i: i for i in range(29)})


@harness("C47", targets=T_IN, kind="contract")
def time_and_keys(c):
    """the clock is the browser's if it provides one; keys are shown instead of being typed"""
    b = Browser(c)
    T = c.get("wrappers.wrap_time:WrapTime")()
    c.set_now(c.int("now", 0))
    c.check_eq("the clock", T.monotonic(), c.mod("time").monotonic())
    t = c.int("override")
    b.refs.overrideMonotonic = lambda: t
    c.check_eq("the clock of the page", T.monotonic(), t)
    K = c.get("wrappers.wrap_hid:WrapUsbHidKeyboard").Keyboard([])
    K.send(4)
    shown = []
    b.refs.messageHandler = Data(message=lambda msg, kind: shown.append(msg))
    K.send(17)
    K.send(5)
    c.check("each key once", len(shown) == 2 and "17" in shown[0] and "5" in shown[1])


@harness("C47", targets=T_LED, kind="enumeration", params=list(range(0, 256, 32)))
def colors(c, lo):
    """all 256 values of a channel: a displayable color, black is off, brighter stays brighter, the value set is kept for the page"""
    if c.symbolic: return c.check("concrete only", True)
    b = Browser(c)
    el = b.elements["ns-led-0"] = Element()
    d = c.get("wrappers.wrap_adafruit_led:WrapNeoPixelDriver")("ns")
    d.init(1)
    import re
    def show(v):
        d.leds[0] = v
        c.check("the value", list(el.dataset.color) == list(v))
        return [min(float(x), 255) for x in re.match(r"rgba?\((.*)\)$", el.style.backgroundColor).group(1).split(",")]
    prev = show((max(lo - 1, 0), 0, 0))
    c.check("black is transparent", show((0, 0, 0))[3:] == [0])
    for v in range(max(lo, 1), lo + 32):
        for pos in range(3):
            x = tuple(v if k == pos else 0 for k in range(3))
            got = show(x)
            c.check("a color", len(got) == 3 and all(0 <= g <= 255 for g in got))
            c.check("only this channel", all((g > 0) == (k == pos) for k, g in enumerate(got)))
            if pos == 0:
                c.check("brighter stays brighter", got[0] >= prev[0])
                prev = got


@harness("C47", targets=T_LED, kind="history", bounds="up to 10 LEDs, 3 operations")
def leds(c):
    """each LED has its own element; the others stay as they are; LEDs which are not on the page do no harm"""
    if c.symbolic: return c.check("concrete only", True)
    b = Browser(c)
    n = c.choice("leds", (1, 3, 10))
    els = [Element() for _ in range(n)]
    gone = c.choice("not on the page", (None, 0, n - 1))
    for i, e in enumerate(els):
        if i != gone: b.elements["ns-led-%d" % i] = e
    d = c.get("wrappers.wrap_adafruit_led:WrapNeoPixelDriver")("ns")
    c.check("no LEDs before", d.leds is None)
    d.init(n)
    c.check("that many", len(d.leds) == n)
    want = [None] * n
    for k in range(3):
        v = c.choice("color", ((255, 0, 0), (0, 0, 0), (1, 2, 3)))
        if c.flag("all"):
            d.leds.fill(v)
            want = [v] * n
        else:
            i = c.choice("led", tuple(range(n)))
            d.leds[i] = v
            want[i] = v
        c.check("exactly these LEDs", list(d.leds) == want)
        c.check("and their elements", [getattr(e.dataset, "color", None) for e in els] == [None if i == gone or x is None else list(x) for i, x in enumerate(want)])


def text_of(c, f): return "rgb(%d, %d, %d)" % f


@harness("C47", targets=T_DISPLAY, params=[None, (1, 0), (0, 1), (2, 2)])
def canvas(c, shape):
    """after each update the canvas shows all elements of the current root in order, at the sum of the positions of their groups, on black"""
    b = Browser(c)
    D = c.mod("wrappers.wrap_adafruit_display")
    drv = c.get("wrappers.WrapDisplayDriver:WrapDisplayDriver")(width=240, height=200, dom_namespace="ns")
    drv.init()
    Group, Rect = D.WrapDisplayIO.Group, D.WrapDisplayShapes().rect().Rect if callable(D.WrapDisplayShapes().rect) else D.WrapDisplayShapes.rect.Rect
    fonts = D.WrapFontLoader()
    Label = D.WrapAdafruitDisplayText("ns").label.Label
    tw = c.int("text width", 0, 500)
    cv = Canvas(tw)
    late = c.flag("canvas comes later")
    if not late: b.elements["ns-display"] = cv
    def rect(name):
        x, y, w, h = (c.int(name + k, -50, 300) for k in "xywh")
        col = c.choice(name + "color", ((1, 2, 3), (255, 0, 10)))
        return Rect(x=x, y=y, width=w, height=h, fill=col), (text_of(c, col), x, y, w, h)
    root = Group()
    want = []
    def shown(dx, dy, w): return ("rect", w[0], w[1] + dx, w[2] + dy, w[3], w[4])
    if shape is not None:
        for i in range(shape[0]):
            r, w = rect("rect%d" % i)
            root.append(r)
            want.append(shown(0, 0, w))
        gx, gy, hx, hy = (c.int(k, 0, 300) for k in ("gx", "gy", "hx", "hy"))
        outer = Group(x=gx, y=gy, scale=1)
        for i in range(shape[1]):
            inner = Group(scale=1, x=hx, y=hy)
            r, w = rect("deep%d" % i)
            inner.append(r)
            outer.append(inner)
            r2, w2 = rect("mid%d" % i)
            outer.append(r2)
            want += [shown(gx + hx, gy + hy, w), shown(gx, gy, w2)]
        root.append(outer)
    if late:
        drv.tft.show(root)
        c.check("no canvas, nothing drawn", cv.drawn == [])
        b.elements["ns-display"] = cv
        drv.update()
    else:
        drv.tft.show(root)
    black = ("rect", "black", 0, 0, 240, 200)
    c.check_eq("everything, on black", cv.drawn, [black] + want)
    c.check("the size of the display", (cv.width, cv.height) == (240, 200))
    cv.drawn = []
    other, want2 = Group(), []
    r, w = rect("other")
    other.append(r)
    drv.tft.show(other)
    r.x = r.x + 1
    cv.drawn = []
    drv.update()
    c.check_eq("the current root only, as it is now", cv.drawn, [black, ("rect", w[0], w[1] + 1, w[2], w[3], w[4])])


@harness("C47", targets=T_DISPLAY, params=[1, 2, 3])
def texts(c, n):
    """text: all lines in order, equally spaced, the block aligned to the anchor; the font's size is the number in its name"""
    b = Browser(c)
    D = c.mod("wrappers.wrap_adafruit_display")
    size = c.choice("size", (12, 20, 60))
    font = D.WrapFontLoader().get(c.choice("path", ("/fonts/H%d.pcf", "/fonts/PTSans-NarrowBold-%d.pcf")) % size)
    scale = c.choice("scale", (1, 2))
    tw, ax, ay, X, Y = c.real("w", 0, 300), c.int("ax", 0, 240), c.int("ay", 0, 240), c.int("X", 0, 240), c.int("Y", 0, 240)
    px, py = c.choice("anchor", ((0.5, 0.5), (0, 0), (1, 1)))
    sp = c.choice("spacing", (0, 1, 2))
    lines = ["line%d" % i for i in range(n)]
    L = D.WrapAdafruitDisplayText("ns").label.Label(font, anchor_point=(px, py), anchored_position=(ax, ay), text="\n".join(lines), color=(1, 2, 3), line_spacing=sp, scale=scale)
    cv = Canvas(tw)
    L.render(cv, X, Y)
    d = cv.drawn
    c.check("all lines in order, in the color of the text", [x[3] for x in d] == lines and all(x[0] == "text" and x[1] == "rgb(1, 2, 3)" for x in d))
    c.check("bold and scaled", all(x[2].startswith("bold ") and abs(float(x[2][5:].split("px")[0]) - size * scale * 0.9) < 1e-6 for x in d))
    for x in d: c.check_eq("aligned to the anchor", x[4], ax + X - px * tw)
    for i in range(n - 1): c.check("one below the other, at least the font's height", d[i + 1][5] - d[i][5] >= size * scale - 1e-6)
    if n == 3: c.check("equally spaced", c.all([d[2][5] - d[1][5] <= d[1][5] - d[0][5] + 1e-6, d[2][5] - d[1][5] >= d[1][5] - d[0][5] - 1e-6]))
    if py == 0.5:
        top, bottom = d[0][5] - size * scale, d[n - 1][5]
        mid = (top + bottom) / 2 - (ay + Y)
        c.check("centered, up to the offset of the font", c.all([mid <= 0.2 * size * scale, mid >= -0.2 * size * scale]))
    L.text = ""
    cv.drawn = []
    L.render(cv, X, Y)
    c.check("no text, nothing drawn", cv.drawn == [])


@harness("C47", targets=T_WRAP, kind="history", bounds="up to 4 words of up to 5 letters, widths 1 to 14")
def wrapping(c):
    """all words in order, a new line only where the next word does not fit"""
    b = Browser(c)
    D = c.mod("wrappers.wrap_adafruit_display")
    b.elements["ns-display"] = Canvas(lambda t: len(t))
    words = [("abcde"[:c.choice("length", (1, 3, 5))]) for _ in range(c.choice("words", (0, 1, 2, 3, 4)))]
    width = c.choice("width", (1, 4, 7, 10, 14))
    lines = D.WrapAdafruitDisplayText("ns").wrap_text_to_pixels(" ".join(words), width, D.WrapFont("/f/A20.pcf"))
    c.check("all words in order", " ".join(lines).split() == words)
    for l in lines: c.check("a line with several words fits", len(l.split()) < 2 or len(l) <= width)


class Boom(Exception): pass


class Com: pass


class Client:
    def __init__(self, code): self.code = code
    def getProtocolCode(self): return self.code


class Cfg(dict):
    def to_py(self): return self
    __hash__ = object.__hash__


@harness("C47", targets=T_RUN, params=["normal", "explore"], kind="enumeration")
def runner(c, mode):
    """the runner polls its controller once per interval until it is stopped; an error stops it, is reported and raised; the page sees the state of
    the protocol"""
    b = Browser(c)
    cv = b.elements["ns-display"] = Canvas()
    made, log = [], []
    fault = c.choice("fault", (None, 1, 2))
    handler = c.flag("error handler")
    reported = []
    if handler: b.refs.errorHandler = Data(handle=reported.append)
    class Controller:
        def __init__(self, **k): made.append(k); self.n = 0
        def init(self):
            log.append("init")
            ui = made[-1]["ui"]
            class Root:
                splash = []
                def get_root(self): return self
                def make_splash(self, fl): pass
                def initialized(self): return True
                def contents_flat(self): return []
            ui.set_callback(Root())
            ui.show()
        def tick(self):
            self.n += 1
            log.append("tick")
            if fault == self.n: raise Boom("oops")
            return True
    c.mod("pyswitch.controller.controller").Controller = Controller
    c.mod("pyswitch.controller.explore").ExploreModeController = Controller
    inputs, splashes = ["inputs"], object()
    c.stub("display", Splashes=splashes), c.stub("inputs", Inputs=inputs)
    proto = c.flag("protocol")
    com = Com()
    if c.flag("channels"): com.inChannel, com.outChannel = 3, 7
    if c.flag("debug"): com.debug = True
    class Protocol: state = c.choice("state", (5, 6))
    c.stub("proto", Protocol=Protocol)
    R = c.get("PySwitchRunner:PySwitchRunner")("id", "ns", False, tickInterval=c.choice("interval", (10, 25)))
    interval = R.tickInterval
    cfg = Cfg(exploreMode=True) if mode == "explore" else Cfg()
    c.check("not running yet", R.running is False)
    if mode == "explore": proto = False
    raised = c.raises(lambda: R.run(240, 240, Client("from proto import Protocol\nself.protocol = Protocol()" if proto else None), cfg, com), Boom)
    c.check("one controller", len(made) == 1)
    k = made[0]
    c.check("the whole display", (k["ui"].bounds.width, k["ui"].bounds.height) == (240, 240))
    c.check("the LEDs of the page", type(k["led_driver"]).__name__ == "WrapNeoPixelDriver" and k["led_driver"].dom_namespace == "ns")
    if mode == "normal":
        c.check("the protocol of the client", type(k["protocol"]) is Protocol if proto else k["protocol"] is None)
        c.check("the configuration and the inputs", k["config"] is cfg and k["inputs"] is inputs)
    else:
        c.check("the ports of the emulated board", k["board"] is c.get("wrappers.wrap_io:WrapBoard") or k["board"].__name__ == "WrapBoard")
    T = c.g.setdefault("timeouts", [])
    c.check("an error is raised", raised == (fault == 1))
    polls = 1
    stopped = fault == 1
    for n in range(3):
        if stopped: break
        c.check("initialized once, polled once per interval", log == ["init"] + ["tick"] * polls)
        c.check("the state of the protocol is visible", b.refs.protocolState == (Protocol.state if proto else -10))
        c.check("the next poll after the interval", len(T) == polls and T[-1][1] == interval)
        c.check("running", R.running is True)
        if c.flag("stop"):
            R.stop()
            break
        cv.drawn = []
        r = c.raises(T[-1][0], Boom)
        polls += 1
        c.check("an error is raised ", r == (fault == polls))
        if fault == polls: stopped = True
        else: c.check("the canvas is drawn again", len(cv.drawn) == 1)
    else:
        return
    if stopped and handler: c.check("the error is reported once", len(reported) == 1 and "Boom: oops" in reported[0])
    c.check("nothing else is reported", stopped or reported == [])
    at = log.count("tick")
    T[-1][0]()
    c.check("no more polls after the end", log.count("tick") == at and R.running is False)
    c.check("and no more timers", len(T) == polls)


@harness("C47", targets=T_RUN + T_MIDI + T_IN + T_LED, kind="history", bounds="one switch, up to 6 polls")
def session(c):
    """from the page to the page, with the real firmware: each click on the switch sends its message and changes the LEDs, all incoming messages are read"""
    if c.symbolic: return c.check("concrete only", True)
    b = Browser(c)
    b.elements["ns-display"] = Canvas(lambda t: 10 * len(t))
    sw = b.elements["ns-switch-gp1"] = Element()
    leds = [b.elements.setdefault("ns-led-%d" % i, Element()) for i in range(3)]
    w = b.queue()
    class Splashes:
        def init(self, appl, ui): self.ui = ui; ui.show()
        def get_root(self): return self.root
    sp = Splashes()
    def inputs():
        A = c.get("pyswitch.hardware.adafruit.AdafruitSwitch:AdafruitSwitch")
        P = c.get("pyswitch.controller.actions:PushButtonAction")
        CB = c.get("pyswitch.controller.callbacks:BinaryParameterCallback")
        CC = c.get("adafruit_midi.control_change:ControlChange")
        M = c.get("pyswitch.controller.client:ClientParameterMapping")
        m = M.get("m", set=CC(5, 0), response=CC(5, 0))
        return [{"assignment": {"model": A(1), "pixels": (0, 1, 2)}, "actions": [P({"callback": CB(mapping=m, color=(255, 0, 0), use_internal_state=True), "mode": P.LATCH, "useSwitchLeds": True})]}]
    class Mod(type(c.mod("js"))):
        """a file of the page: executed when it is imported"""
        def __getattr__(self, k):
            if k == "Inputs" : return inputs()
            if k == "Splashes":
                sp.root = c.get("pyswitch.ui.elements:DisplayLabel")(layout={"font": "/fonts/H20.pcf", "text": "hello"}, bounds=c.get("pyswitch.ui.ui:DisplayBounds")(0, 0, 240, 240))
                return sp
            raise AttributeError(k)
    c.world.stubs["inputs"], c.world.stubs["display"] = Mod("inputs"), Mod("display")
    R = c.get("PySwitchRunner:PySwitchRunner")("id", "ns", False)
    R.run(240, 240, Client(None), Cfg(), Com())
    T = c.g["timeouts"]
    c.check("the canvas shows the root", any(d[0] == "text" and d[3].strip() == "hello" for d in b.elements["ns-display"].drawn))
    prev, state, want = False, False, []
    for n in range(6):
        p = c.flag("pushed")
        sw.dataset.pushed = "true" if p else "false"
        clicked = p and not prev
        if clicked:
            state = not state
            want.append([0xb0, 5, 1 if state else 0])
        prev = p
        for _ in range(c.choice("messages", (0, 1, 4))): w.messageQueue.append([0xb0, 6, 1])
        T[-1][0]()
        c.advance(300)
        c.check_eq("one message per click", [list(x) for x in w.sent], want)
        c.check("all messages are read", w.messageQueue == [])
    T[-1][0]()
    on = [l.dataset.color for l in leds]
    c.check("the LEDs show the state", all((x[0] > 30) == state for x in on), info=(on, state))


@harness("C47", targets=T_RUN + T_IN + T_LED + ["controller.explore.ExploreModeController." + f for f in ("__init__", "init", "tick")], kind="history", bounds="4 clicks on any two switches")
def explore_session(c):
    """explore mode on the page, with the real firmware: all ports are shown, each click lights exactly one switch"""
    if c.symbolic: return c.check("concrete only", True)
    b = Browser(c)
    cv = b.elements["ns-display"] = Canvas(lambda t: 10 * len(t))
    leds = [b.elements.setdefault("ns-led-%d" % i, Element()) for i in range(29 * 3)]
    sw = {n: b.elements.setdefault("ns-switch-gp%d" % n, Element()) for n in c.choice("switches", ((1, 9), (0, 28)))}
    R = c.get("PySwitchRunner:PySwitchRunner")("id", "ns", False)
    R.run(240, 240, Client(None), Cfg(exploreMode=True), Com())
    T = c.g["timeouts"]
    texts = [d[3] for d in cv.drawn if d[0] == "text"]
    c.check("the ports which have a switch are shown", all(any(t.strip() == "GP%d" % n for t in texts) for n in sw))
    for k in range(4):
        e = sw[c.choice("switch", tuple(sw))]
        e.dataset.pushed = "true"
        T[-1][0]()
        e.dataset.pushed = "false"
        c.advance(300)
        cv.drawn = []
        T[-1][0]()
        white = [i for i, l in enumerate(leds) if getattr(l.dataset, "color", None) == [255, 255, 255]]
        c.check("exactly one switch is lit", len(white) == 3 and white[0] % 3 == 0 and white == list(range(white[0], white[0] + 3)))
        c.check("and named", any(d[0] == "text" and d[3].strip().startswith("Pixels: (%d, %d, %d)" % tuple(white)) for d in cv.drawn))
