"""Start of the firmware: what the configuration files say is what runs (any combination), an error is never swallowed."""
from vf.api import *
from .lib import *

T = ["process.<module>", "process._SwitchFactory.create_switch"]


class Boom(Exception): pass


class Hardware:
    """recorders at the ports of the device"""
    def __init__(self, c):
        self.c, self.log, self.shown = c, [], []
        log = self.log
        class SPI:
            def __init__(self, clk, MOSI=None): pass
            def try_lock(self): return True
            def configure(self, **k): pass
            def unlock(self): pass
        class TFT:
            def __init__(self, bus, **k): log.append("tft")
            def show(s, splash): self.shown.append(splash)
        class Pixels(list):
            def __init__(self, port, n): super().__init__([None] * n)
        c.mod("busio").SPI, c.mod("adafruit_misc.adafruit_st7789").ST7789 = SPI, TFT
        c.mod("fourwire").FourWire = lambda spi, **k: None
        c.mod("adafruit_misc.neopixel").NeoPixel = Pixels
        c.mod("adafruit_bitmap_font.bitmap_font").load_font = lambda path: ("font", path)

    def file(self, name, error=None, **attrs):
        """a configuration file of the user; it is recorded when it is loaded"""
        log = self.log
        class File(type(self.c.mod("busio"))):
            def __getattribute__(self, k):
                if k in attrs:
                    log.append(name)
                    if error: raise error
                    return attrs[k]
                return super().__getattribute__(k)
        self.c.world.stubs[name] = File(name)


class Config(dict):
    __hash__ = object.__hash__


@harness("C46", targets=T, params=[(b, p, f) for b in (None, False, True) for p in (False, True) for f in (None, "display", "inputs", "build", "init", "tick")],
    kind="enumeration")
def normal(c, param):
    """normal operation: one controller with exactly what the files define, initialized once, polled until it ends; errors are reported or raised"""
    bridge, proto, fault = param
    hw = Hardware(c)
    log, boom, made = hw.log, Boom("oops"), {}
    cfg = Config() if bridge is None else Config(enableMidiBridge=bridge)
    if c.flag("explore mode off explicitly"): cfg["exploreMode"] = False
    routings, protocol, inputs = ["routings"], object(), ["inputs"]
    class Root:
        splash = ["splash"]
        def init(self, appl, ui): log.append(("root", appl, ui))
        def get_root(self): return self
        def make_splash(self, font_loader): log.append(("font", font_loader.get("f.pcf")))
        def initialized(self): return True
        def contents_flat(self): return [self]
    root = Root()
    com = {"midi": {"routings": routings}}
    if proto: com["protocol"] = protocol
    hw.file("config", Config=cfg)
    hw.file("communication", Communication=com)
    hw.file("display", boom if fault == "display" else None, Splashes=root)
    hw.file("inputs", boom if fault == "inputs" else None, Inputs=inputs)
    ticks = c.choice("ticks", (1, 2, 4))
    end = c.choice("end", (False, None, 0))
    class Midi:
        def __init__(self, routings): made.setdefault("midi", []).append(routings); self.own = "midi"
    class Bridge:
        def __init__(self, midi, temp_file_path): made.setdefault("bridge", []).append((midi, temp_file_path)); self.own = "bridge"
        def error(self, e): log.append(("error", e))
    class Controller:
        def __init__(self, led_driver, midi, protocol=None, config={}, inputs=[], ui=None, period_counter=None, no_tuner=None):
            made.setdefault("controller", []).append(dict(leds=led_driver, midi=midi, protocol=protocol, config=config, inputs=inputs, ui=ui))
            if fault == "build": raise boom
            self.n = 0
        def init(self):
            log.append("init")
            if fault == "init": raise boom
        def tick(self):
            self.n += 1
            log.append("tick")
            if self.n < ticks: return c.choice("goes on", (True, 1))
            if fault == "tick": raise boom
            return end
    c.mod("pyswitch.controller.midi").MidiController = Midi
    c.mod("pyswitch.controller.controller").Controller = Controller
    c.stub("pymidibridge"), c.stub("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=Bridge)
    raised = c.raises(lambda: c.mod("pyswitch.process"), Boom)
    c.check("the display is there before any file is read", log[0] == "tft" and log.count("tft") == 1, info=log)
    reported = [x[1] for x in log if isinstance(x, tuple) and x[0] == "error"]
    c.check("an error is raised, or reported if there is a MIDI bridge", (raised, len(reported)) == ((False, 0) if not fault else (False, 1) if bridge else (True, 0)))
    c.check("the error itself is reported", all(e is boom for e in reported))
    built = made.get("controller", [])
    c.check("one controller", len(built) == (0 if fault in ("display", "inputs") else 1))
    c.check("one MIDI layer with the configured routings", len(made["midi"]) == 1 and made["midi"][0] is routings)
    c.check("the MIDI bridge as configured", len(made.get("bridge", [])) == (1 if bridge else 0))
    if bridge:
        c.check("the bridge works on the MIDI layer", isinstance(made["bridge"][0][0], Midi))
        c.check("with a temporary file", isinstance(made["bridge"][0][1], str) and made["bridge"][0][1].startswith("/"))
    if not built:
        c.check("nothing runs", "init" not in log and "tick" not in log)
        return
    k = built[0]
    c.check("the configuration", k["config"] is cfg)
    c.check("the protocol", k["protocol"] is (protocol if proto else None))
    c.check("the inputs", k["inputs"] is inputs)
    c.check("the MIDI layer, behind the bridge if there is one", type(k["midi"]) is (Bridge if bridge else Midi))
    c.check("the LEDs of the device", type(k["leds"]) is c.get("pyswitch.hardware.adafruit:AdafruitNeoPixelDriver"))
    ui, appl = k["ui"], object()
    ui.init(appl)
    c.check("the user interface shows the configured root", [x for x in log if isinstance(x, tuple) and x[0] == "root"] == [("root", appl, ui)])
    ui.show()
    c.check("with the fonts of the device", [x for x in log if isinstance(x, tuple) and x[0] == "font"] == [("font", ("font", "f.pcf"))])
    c.check("on the display of the device", hw.shown == [root.splash])
    c.check("the whole display", (ui.bounds.x, ui.bounds.y, ui.bounds.width, ui.bounds.height) == (0, 0, 240, 240))
    run = [x for x in log if x in ("init", "tick")]
    c.check("initialized once, then polled until it ends", run == ([] if fault == "build" else ["init"] if fault == "init" else ["init"] + ["tick"] * ticks))


@harness("C46", targets=T, kind="enumeration")
def early_errors(c):
    """an error in the global or communication configuration is not swallowed; the display is initialized already, so that it can be read"""
    hw = Hardware(c)
    boom = Boom("oops")
    bad = c.choice("file", ("config", "communication"))
    hw.file("config", boom if bad == "config" else None, Config=Config(enableMidiBridge=c.flag("bridge")))
    hw.file("communication", boom if bad == "communication" else None, Communication={"midi": {"routings": []}})
    hw.file("display", Splashes=None), hw.file("inputs", Inputs=[])
    class Bridge:
        def __init__(self, midi, temp_file_path): pass
    c.stub("pymidibridge"), c.stub("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=Bridge)
    c.check("the error is raised", c.raises(lambda: c.mod("pyswitch.process"), Boom))
    c.check("after the display is initialized", hw.log[0] == "tft")


@harness("C46", targets=T, kind="enumeration")
def explore(c):
    """explore mode: nothing but the explore controller, on the board of the device, with its switches; polled until it ends"""
    hw = Hardware(c)
    log, made = hw.log, []
    hw.file("config", Config=Config(exploreMode=True, enableMidiBridge=c.flag("bridge")))
    ticks = c.choice("ticks", (1, 3))
    class Explore:
        def __init__(self, board, switch_factory, led_driver, ui): made.append((board, switch_factory, led_driver, ui)); self.n = 0
        def init(self): log.append("init")
        def tick(self):
            log.append("tick")
            self.n += 1
            return self.n < ticks
    c.mod("pyswitch.controller.explore").ExploreModeController = Explore
    c.mod("pyswitch.process")
    c.check("one controller", len(made) == 1)
    board, factory, leds, ui = made[0]
    c.check("the board", board is c.mod("board"))
    c.check("the LEDs of the device", type(leds) is c.get("pyswitch.hardware.adafruit:AdafruitNeoPixelDriver"))
    c.check("the whole display", (ui.bounds.width, ui.bounds.height) == (240, 240))
    s = factory.create_switch("GP7")
    s.init()
    c.check("switches of the device", type(s) is c.get("pyswitch.hardware.adafruit.AdafruitSwitch:AdafruitSwitch") and s.pushed is False)
    c.check("initialized once, then polled until it ends", [x for x in log if x in ("init", "tick")] == ["init"] + ["tick"] * ticks)


@harness("C46", targets=T + ["controller.controller.Controller.__init__", "controller.controller.Controller.init", "controller.controller.Controller.tick"],
    params=[False, True], kind="history", bounds="one switch, up to 6 polls")
def everything(c, bridge):
    """from the files to the wire, nothing replaced but the ports: a button which is pressed sends its message, an incoming message is received"""
    if c.symbolic: return c.check("concrete only", True)
    hw = Hardware(c)
    log, boom = hw.log, Boom("end")
    script = [c.flag("pressed") for _ in range(6)]
    state = {"n": 0, "prev": False}
    sent, pins = [], []
    class In:
        def __init__(self, port): self.port = port; self.direction = self.pull = None; pins.append(self)
        @property
        def value(self): return not script[state["n"]] if state["n"] < 6 else True
    c.mod("digitalio").DigitalInOut = In
    class Port:
        def send(self, m): sent.append(bytes(m.__bytes__()))
        def receive(self):
            return None
    port = Port()
    R = c.get("pyswitch.controller.midi:MidiRouting")
    routings = [R(source=port, target=R.APPLICATION), R(source=R.APPLICATION, target=port)]
    CB = c.get("pyswitch.clients.local.actions.custom:CUSTOM_MESSAGE")
    hw.file("config", Config=Config(enableMidiBridge=bridge))
    hw.file("communication", Communication={"midi": {"routings": routings}})
    root = c.get("pyswitch.ui.elements:DisplayLabel")(layout={"font": "f", "text": "hello"}, bounds=c.get("pyswitch.ui.ui:DisplayBounds")(0, 0, 240, 240))
    class Splashes:
        def init(self, appl, ui): self.ui = ui; log.append("root"); ui.show()
        def get_root(self): return root
    hw.file("display", Splashes=Splashes())
    A = c.get("pyswitch.hardware.adafruit.AdafruitSwitch:AdafruitSwitch")
    hw.file("inputs", Inputs=[{"assignment": {"model": A("GP1"), "pixels": (0, 1, 2)}, "actions": [CB(message=[0xb0, 1, 2], message_release=[0xb0, 1, 3])]}])
    class Bridge:
        def __init__(self, midi, temp_file_path): self.midi = midi
        def __getattr__(self, k): return getattr(self.midi, k)
        def send(self, m): self.midi.send(m)
        def receive(self): return self.midi.receive()
        def error(self, e): log.append(("error", e))
    c.stub("pymidibridge"), c.stub("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=Bridge)
    C = c.mod("pyswitch.controller.controller").Controller
    class Poll(C):
        def tick(self):
            if state["n"] >= 6: raise boom
            r = super().tick()
            c.advance(5)
            state["n"] += 1
            return r
    c.mod("pyswitch.controller.controller").Controller = Poll
    raised = c.raises(lambda: c.mod("pyswitch.process"), Boom)
    c.check("polled to the end", state["n"] == 6)
    c.check("the error is reported or raised", (raised, [x for x in log if isinstance(x, tuple)]) == ((False, [("error", boom)]) if bridge else (True, [])))
    want, prev = [], False
    for p in script:
        if p != prev: want.append(2 if p else 3)
        prev = p
    c.check_eq("one message per press and release, on the wire", sent, [bytes([0xb0, 1, x]) for x in want])
    c.check("the root is shown", root.splash is not None)
