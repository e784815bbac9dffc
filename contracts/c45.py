"""Hardware adapters: what the application sends, receives and reads is exactly what goes over the port (any values); the device definitions
address every input and LED exactly once."""
from vf.api import *
from .lib import *

H = "hardware.adafruit."
T_MIDI = [H + m + "." + m + "." + f for m in ("AdafruitDinMidiDevice", "AdafruitUsbMidiDevice") for f in ("__init__", "send", "receive")] + \
         ["hardware.devices.pa_midicaptain." + f for f in ("PA_MIDICAPTAIN_USB_MIDI", "PA_MIDICAPTAIN_DIN_MIDI")]
T_IN = [H + "AdafruitSwitch.AdafruitSwitch." + f for f in ("__init__", "init", "pushed")] + [H + "AdafruitPotentiometer.AdafruitPotentiometer." + f for f in ("__init__", "init", "value")] + \
       [H + "AdafruitEncoder.AdafruitEncoder." + f for f in ("__init__", "init", "position")]
T_OUT = [H + "AdafruitST7789DisplayDriver." + f for f in ("__init__", "init")] + [H + "AdafruitNeoPixelDriver." + f for f in ("__init__", "init")]


class Port:
    """the wire of the MIDI library: records bytes written, delivers bytes"""
    def __init__(self, name): self.name, self.out, self.pending = name, [], b""
    def write(self, data, n=None): self.out.append([x for x in data][:n])
    def read(self, n):
        d, self.pending = self.pending[:n], self.pending[n:]
        return d or None


def devices(c, p):
    """-> (device, input port, output port, channel), with any channel settings"""
    kind, sent_on, chin = p
    c.mod("pyswitch.controller.midi")      # makes the message types known to the MIDI library
    kw = {}
    ch = 0 if sent_on is None else sent_on
    if sent_on is not None: kw["out_channel"] = ch
    if chin is not None: kw["in_channel"] = chin
    made = []
    if kind in ("din", "captain din"):
        def UART(tx=None, rx=None, **o):
            made.append((tx, rx, o))
            p = Port("uart")
            made.append(p)
            return p
        c.mod("busio").UART = UART
        if kind == "din":
            baud, wait = c.choice("baud", (31250, 9600)), c.choice("timeout", (.001, .5))
            d = c.get("pyswitch.hardware.adafruit.AdafruitDinMidiDevice:AdafruitDinMidiDevice")(gpio_in="in", gpio_out="out", in_buf_size=100, baudrate=baud, timeout=wait, **kw)
            c.check("the pins, the speed and the timeout asked for", made[0] == ("in", "out", dict(baudrate=baud, timeout=wait)))
        else:
            d = c.get("pyswitch.hardware.devices.pa_midicaptain:PA_MIDICAPTAIN_DIN_MIDI")(**kw)
            c.check("the MIDI sockets of the device, with the speed of MIDI", made[0] == ("board.GP16", "board.GP17", dict(baudrate=31250, timeout=.001)))
        c.check("one port", len(made) == 2)
        i = o = made[1]
    elif kind == "usb":
        i, o = Port("in"), Port("out")
        d = c.get("pyswitch.hardware.adafruit.AdafruitUsbMidiDevice:AdafruitUsbMidiDevice")(port_in=i, port_out=o, in_buf_size=100, **kw)
    else:
        i, o = Port("in"), Port("out")
        c.mod("usb_midi").ports = [i, o]
        d = c.get("pyswitch.hardware.devices.pa_midicaptain:PA_MIDICAPTAIN_USB_MIDI")(**kw)
    return d, i, o, ch, chin


KINDS = [(k, o, i) for k in ("din", "usb", "captain din", "captain usb") for o, i in ((None, None), (0, 3), (5, (1, 2)), (15, 0))]


@harness("C45", targets=T_MIDI, params=KINDS)
def midi_out(c, kind):
    """any messages, in any order: one packet per message, with exactly its bytes on the configured channel; unknown events are not sent"""
    d, i, o, ch, chin = devices(c, kind)
    want = []
    for n in range(2):
        k = c.choice("message", ("cc", "pc", "sysex", "unknown", "clock"))
        if k == "cc":
            a, b = byte(c, "control"), byte(c, "value")
            d.send(cc(c, a, b))
            want.append([0xb0 + ch, a, b])
        elif k == "pc":
            a = byte(c, "program")
            d.send(pc(c, a))
            want.append([0xc0 + ch, a])
        elif k == "sysex":
            m, x = [byte(c, "manufacturer") for _ in range(3)], [byte(c, "data") for _ in range(c.choice("length", (0, 1, 8)))]
            d.send(sysex(c, m, x))
            want.append([0xf0] + m + x + [0xf7])
        elif k == "clock":
            d.send(c.get("adafruit_midi.timing_clock:TimingClock")())
            want.append([0xf8])
        else:
            d.send(c.get("adafruit_midi.midi_message:MIDIUnknownEvent")(0xf4))
        c.check_eq("exactly the packets of the messages, unknown events left out", o.out, want)


@harness("C45", targets=T_MIDI, params=KINDS, bounds="2 messages, 2 values per data byte (decoding is done by the MIDI library)")
def midi_in(c, kind):
    """what the library decodes is handed over unchanged, nothing if there is nothing"""
    d, i, o, ch, chin = devices(c, kind)
    c.check("silence", d.receive() is None)
    for n in range(2):
        k = c.choice("message", ("cc", "pc", "nothing"))
        if k == "nothing":
            c.check("nothing", d.receive() is None)
            continue
        on = c.choice("on channel", (0, 1, 3))
        a, b = c.choice("first", (0, 127)), c.choice("second", (0, 64))
        i.pending = bytes([0xb0 + on, a, b] if k == "cc" else [0xc0 + on, a])
        m = d.receive()
        if chin is not None and on not in (chin if isinstance(chin, tuple) else (chin,)):
            c.check("other channels are not received", m is None)
        else:
            c.check("the message", type(m).__name__ == ("ControlChange" if k == "cc" else "ProgramChange"))
            c.check("its content", (m.control, m.value) == (a, b) if k == "cc" else m.patch == a)
            c.check("once", d.receive() is None)
    c.check("receiving sends nothing", o.out == [])


@harness("C45", targets=T_IN)
def inputs(c):
    """before initialization there is no value; then exactly what the port shows, at any time"""
    made = []
    def rec(mod, name):
        cls = getattr(c.mod(mod), name)
        class R(cls):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                made.append((a, k, self))
        setattr(c.mod(mod), name, R)
    rec("digitalio", "DigitalInOut"), rec("analogio", "AnalogIn"), rec("rotaryio", "IncrementalEncoder")
    sw = c.get("pyswitch.hardware.adafruit.AdafruitSwitch:AdafruitSwitch")("p1")
    pot = c.get("pyswitch.hardware.adafruit.AdafruitPotentiometer:AdafruitPotentiometer")("p2")
    div = c.choice("divisor", (None, 1, 4))
    enc = c.get("pyswitch.hardware.adafruit.AdafruitEncoder:AdafruitEncoder")("p3", "p4", **({} if div is None else dict(divisor=div)))
    c.check("no value before the initialization", sw.pushed is None and pot.value is None and enc.position is None)
    c.check("the port is not touched before", made == [])
    sw.init(), pot.init(), enc.init()
    c.check("one input each, at its port", [a for a, k, o in made] == [("p1",), ("p2",), ("p3", "p4")])
    c.check("the divisor", made[2][1] == {"divisor": 2 if div is None else div})
    s, p, e = (o for a, k, o in made)
    c.check("a switch is an input which is pulled up", (s.direction, s.pull) == ("in", "up"))
    for n in range(2):
        s.value, p.value, e.position = c.flag("level"), c.int("raw", 0, 65535), c.int("position")
        c.check("pushed means low level", sw.pushed is (not s.value))
        c.check_eq("the raw value", pot.value, p.value)
        c.check_eq("the position", enc.position, e.position)


@harness("C45", targets=T_OUT, kind="enumeration")
def outputs(c):
    """display and LEDs: the ports, size and speed asked for; any number of LEDs"""
    log = []
    class SPI:
        def __init__(self, clk, **k): log.append(("spi", clk, k)); self.tries = c.choice("busy", (0, 2))
        def try_lock(self):
            self.tries -= 1
            return self.tries < 0
        def configure(self, **k): log.append(("configure", k))
        def unlock(self): log.append("unlock")
    class Bus:
        def __init__(self, spi, **k): log.append(("bus", type(spi) is SPI, k))
    class TFT:
        def __init__(self, bus, **k): log.append(("tft", type(bus) is Bus, k))
    c.mod("busio").SPI, c.mod("fourwire").FourWire, c.mod("adafruit_misc.adafruit_st7789").ST7789 = SPI, Bus, TFT
    c.mod("displayio").release_displays = lambda: log.append("release")
    px = []
    class Pixels:
        def __init__(self, *a): px.append(a)
    c.mod("adafruit_misc.neopixel").NeoPixel = Pixels
    D = c.get("pyswitch.hardware.adafruit:AdafruitST7789DisplayDriver")
    own = c.flag("own")
    kw = dict(width=100, height=50, tft_cs="cs", tft_dc="dc", spi_mosi="mosi", spi_clk="clk", row_start=3, rotation=90, baudrate=1000) if own else {}
    d = D(**kw)
    v = dict(width=240, height=240, tft_cs="board.GP13", tft_dc="board.GP12", spi_mosi="board.GP15", spi_clk="board.GP14", row_start=80, rotation=180, baudrate=24000000)
    v.update(kw)
    c.check("size", (d.width, d.height) == (v["width"], v["height"]))
    c.check("not initialized yet", log == [])
    d.init()
    c.check("display at its ports", log == ["release", ("spi", v["spi_clk"], {"MOSI": v["spi_mosi"]}), ("configure", {"baudrate": v["baudrate"]}), "unlock",
        ("bus", True, dict(command=v["tft_dc"], chip_select=v["tft_cs"], reset=None)),
        ("tft", True, dict(width=v["width"], height=v["height"], rowstart=v["row_start"], rotation=v["rotation"]))])
    c.check("the display is available", type(d.tft) is TFT)
    N = c.get("pyswitch.hardware.adafruit:AdafruitNeoPixelDriver")
    port = c.flag("own port")
    n = N("px") if port else N()
    c.check("no LEDs before", n.leds is None and px == [])
    k = c.int("leds", 0)
    n.init(k)
    c.check_eq("that many LEDs at the port", px, [("px" if port else "board.GP7", k)])
    c.check("they are available", type(n.leds) is Pixels)


@harness("C45", targets=[H + "AdafruitFontLoader.get"], kind="history", bounds="4 accesses to 3 files by 2 loaders")
def fonts(c):
    """each font file is loaded once, everyone gets it"""
    loaded = []
    def load(path):
        loaded.append(path)
        return ["font", path, len(loaded)]
    c.mod("adafruit_bitmap_font.bitmap_font").load_font = load
    L = c.get("pyswitch.hardware.adafruit:AdafruitFontLoader")
    ls, first = [L(), L()], {}
    for n in range(4):
        p = c.choice("path", ("a.pcf", "b.pcf", "c.pcf"))
        f = ls[c.choice("loader", (0, 1))].get(p)
        c.check("the font of this file", f[1] == p)
        c.check("always the same object", first.setdefault(p, f) is f)
    c.check("loaded once", sorted(loaded) == sorted(first))


# pins and LEDs as documented for the devices (comments in the definition files)
def row(first, pins, names, order, upper=True):
    r = []
    for i, (p, n, o) in enumerate(zip(pins, names, order)):
        k = first + 3 * i
        r.append((n, p, (k, k + 1, k + 2) if upper else (k, k + 2, k + 1), o))
    return r


TABLE = {
    "10": row(0, (1, 25, 24, 23, 20), ("1", "2", "3", "4", "Up"), range(0, 5)) + row(15, (9, 10, 11, 18, 19), ("A", "B", "C", "D", "Down"), range(9, 4, -1), False),
    "MINI": row(0, (1, 25, 24), ("1", "2", "3"), range(0, 3)) + row(9, (9, 10, 11), ("A", "B", "C"), range(5, 2, -1), False),
    "NANO": row(0, (1, 25), ("1", "2"), range(0, 2)) + row(6, (9, 10), ("A", "B"), range(3, 1, -1), False),
}
FILES = {"10": "pa_midicaptain_10", "MINI": "pa_midicaptain_mini_6", "NANO": "pa_midicaptain_nano_4"}


@harness("C45", targets=T_IN[:1], kind="enumeration", params=tuple(TABLE))
def definitions(c, dev):
    """every input at its own pin, every LED at exactly one switch, strobe order around the device"""
    m = c.mod("pyswitch.hardware.devices." + FILES[dev])
    pre = "PA_MIDICAPTAIN_%s_" % dev
    pins, leds, order = [], [], []
    for n, p, px, o in TABLE[dev]:
        d = getattr(m, pre + "SWITCH_" + n.upper())
        c.check(n + ": pin", d["model"].port == "board.GP%d" % p)
        c.check(n + ": LEDs", tuple(d["pixels"]) == px)
        c.check(n + ": strobe order", d["strobeOrder"] == o)
        c.check(n + ": name", d["name"] == n)
        c.check(n + ": a switch", type(d["model"]).__name__ == "AdafruitSwitch")
        pins.append(p), leds.extend(px), order.append(o)
    c.check("the table itself", len(set(pins)) == len(pins) and sorted(leds) == list(range(3 * len(pins))) and sorted(order) == list(range(len(pins))))
    every = [k for k in dir(m) if k.startswith("PA_MIDICAPTAIN")]
    c.check("names are unique", len({getattr(m, k)["name"] for k in every}) == len(every))
    if dev == "10":
        for k, p, t in (("EXP_PEDAL_1", 27, "Potentiometer"), ("EXP_PEDAL_2", 28, "Potentiometer"), ("EXP_SWITCH_1", 27, "Switch"), ("EXP_SWITCH_2", 28, "Switch"), ("WHEEL_BUTTON", 0, "Switch")):
            d = getattr(m, pre + k)
            c.check(k, d["model"].port == "board.GP%d" % p and type(d["model"]).__name__ == "Adafruit" + t)
        w = getattr(m, pre + "WHEEL_ENCODER")["model"]
        c.check("wheel", (w.port_1, w.port_2) == ("board.GP2", "board.GP3") and type(w).__name__ == "AdafruitEncoder")
