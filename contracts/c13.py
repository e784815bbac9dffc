"""LED output: all colours and brightnesses, previous contents, pixel numbers; switches with 0..4 pixels (bounded by the pixel count only), and any number of pixels
for individual brightnesses (loop rule, unbounded)."""
from vf.api import *
from .lib import *

T = ["controller.inputs.SwitchController.colors", "controller.inputs.SwitchController.color", "controller.inputs.SwitchController.brightness",
     "controller.inputs.SwitchController.brightnesses"]


class Base:
    def __init__(self, c, n):
        self.c, self.n = c, n
        self.appl = Appl()
        self.px = [5 * i + 2 for i in range(n)]
        self.foreign = [(9, 9, 9)] * 30
        self.sw, _ = switch(c, self.appl, [], pixels=tuple(self.px))
        self.cols = [tuple(c.int("%s%d" % (x, i), 0, 255) for x in "rgb") for i in range(n)]
        self.sw.colors = list(self.cols)
        self.leds = self.appl.led_driver.leds
        self.leds.writes.clear()

    def output(self, cols, bs):
        c = self.c
        c.check("only own pixels are written", all(p in self.px for p, _ in self.leds.writes))
        for i in range(self.n):
            out = self.leds[self.px[i]]
            c.check_eq("LED is colour times brightness", out, scale(cols[i], bs[i]))
            for k in range(3):
                c.check("component in range", c.all([out[k] >= 0, out[k] <= cols[i][k]]))
            c.check("every pixel driven", self.px[i] in [p for p, _ in self.leds.writes])


@harness("C13", targets=T, params=(1, 2, 3, 4), bounds="one to four pixels")
def individual(c, n):
    b = Base(c, n)
    c.check_eq("colours read back", b.sw.colors, b.cols)
    c.check_eq("colour is the first one", b.sw.color, b.cols[0])
    c.check("setting colours drives nothing yet", not b.leds.writes)
    bs = [c.real("b%d" % i, 0, 1) for i in range(n)]
    b.sw.brightnesses = list(bs)
    c.check_eq("brightnesses read back", list(b.sw.brightnesses), bs)
    c.check_eq("brightness is the first one", b.sw.brightness, bs[0])
    b.output(b.cols, bs)
    # brightnesses handed out are a copy
    x = b.sw.brightnesses
    x[0] = 0.77
    c.check_eq("brightnesses cannot be changed from outside", list(b.sw.brightnesses), bs)


@harness("C13", targets=T, params=(1, 2, 3, 4), bounds="one to four pixels")
def common(c, n):
    b = Base(c, n)
    col = tuple(c.int("n" + x, 0, 255) for x in "rgb")
    b.sw.color = col
    c.check_eq("one colour for all", b.sw.colors, [col] * n)
    c.check_eq("colour read back", b.sw.color, col)
    br = c.real("b", 0, 1)
    b.sw.brightness = br
    c.check_eq("one brightness for all", list(b.sw.brightnesses), [br] * n)
    c.check_eq("brightness read back", b.sw.brightness, br)
    b.output([col] * n, [br] * n)


@harness("C13", targets=T, params=[(n, k) for n in (1, 2, 3) for k in range(5) if k != n], bounds="one to three pixels, up to four values")
def wrong_number(c, p):
    n, k = p
    b = Base(c, n)
    bs = [c.real("b%d" % i, 0, 1) for i in range(n)]
    b.sw.brightnesses = list(bs)
    b.leds.writes.clear()
    c.check("wrong number of colours is rejected", c.raises(lambda: setattr(b.sw, "colors", [(1, 2, 3)] * k)))
    c.check("wrong number of brightnesses is rejected", c.raises(lambda: setattr(b.sw, "brightnesses", [.9] * k)))
    c.check("no LED changed", not b.leds.writes)
    c.check_eq("colours unchanged", b.sw.colors, b.cols)
    c.check_eq("brightnesses unchanged", list(b.sw.brightnesses), bs)


@harness("C13", targets=T)
def no_pixels(c):
    b = Base(c, 0)
    b.sw.color = (1, 2, 3)
    b.sw.brightness = c.real("b", 0, 1)
    b.sw.brightnesses = [.5]
    c.check("nothing driven", not b.leds.writes)
    c.check("no colour", b.sw.color is None and b.sw.brightness is None)


@harness("C13", targets=T)
def initial(c):
    """white at half brightness after start"""
    appl = Appl()
    sw, _ = switch(c, appl, [], pixels=(3, 4))
    c.check("initial colour", sw.color == (255, 255, 255) and sw.colors == [(255, 255, 255)] * 2)
    c.check("initial brightness", sw.brightness == 0.5)


@harness("C13", targets=T)
def two_switches(c):
    """a second switch never touches the first one's pixels"""
    appl = Appl()
    s1, _ = switch(c, appl, [], pixels=(0, 1, 2))
    before = dict(appl.led_driver.leds)
    s2, _ = switch(c, appl, [], pixels=(3, 4, 5))
    s2.color = tuple(c.int(x, 0, 255) for x in "rgb")
    s2.brightness = c.real("b", 0, 1)
    for p in (0, 1, 2):
        c.check_eq("first switch untouched", appl.led_driver.leds[p], before[p])
    c.check("first switch keeps its colours", s1.colors == [(255, 255, 255)] * 3 and list(s1.brightnesses) == [.5] * 3)


@harness("C13", targets=["controller.inputs.SwitchController.brightnesses", "controller.inputs.SwitchController.colors"])
def any_number_of_pixels(c):
    """any number of pixels, each with its own colour and brightness"""
    appl = Appl()
    sw, _ = switch(c, appl, [], pixels=())
    given = {}
    class Pixel(int): pass          # distinct objects
    def make():
        p = c.int("pixel", 0) if c.symbolic else Pixel(c.int("pixel", 0))
        given[id(p)] = (p, tuple(c.int(x, 0, 255) for x in "rgb"), c.real("b", 0, 1))
        return p
    def drive(p): return [("led", p, scale(given[id(p)][1], given[id(p)][2]))]
    class Leds_:
        def __setitem__(self, k, v): c.trace.append(("led", k, v))
    appl.led_driver.leds = Leds_()
    A, x, y, B = c.seg("A", make, drive), make(), make(), c.seg("B", make, drive)
    items = [A, x, y, B]
    c.field(sw, "pixels")
    sw.pixels = c.segs(*items)
    sw.colors = c.twin(sw.pixels, lambda p: given[id(p)][1])
    c.check("setting colours drives nothing yet", not c.trace)
    sw.brightnesses = c.twin(sw.pixels, lambda p: given[id(p)][2])
    c.check_trace("every pixel is driven with its colour times its brightness", c.trace, c.unroll(items, drive))
    c.check_eq("colour is the first one", sw.color, given[id(sw.pixels[0])][1])
    c.check_eq("brightness is the first one", sw.brightness, given[id(sw.pixels[0])][2])
