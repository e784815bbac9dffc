"""The screen: element trees (all shapes with up to four elements symbolically, larger ones concretely), any sequence of roots. Elements with any
number of children, whatever these consist of (the step of the induction over the tree), and roots with any number of elements: loop rules, unbounded."""
from vf.api import *
from .lib import *

U = "ui.UiController.UiController."
E = "ui.ui.DisplayElement."
T = [U + x for x in ("__init__", "set_callback", "bounds", "init", "parameter_changed", "request_terminated", "update", "show")] + \
    [E + x for x in ("__init__", "init", "make_splash", "initialized", "add", "contents_flat")] + ["misc.Updater.update"]


class Screen:
    def __init__(self, c):
        self.c = c
        self.log, self.shows = [], []
        s = self
        class Tft:
            def show(self, g): s.shows.append(g)
        class Display:
            tft = Tft()
            width, height = 240, 135
        class Splash:
            root = None
            inits = []
            def init(self, appl, listener):
                self.inits.append((appl, listener))
            def get_root(self): return self.root
        self.splash = Splash()
        self.splash.inits = []
        self.appl = Appl()
        late = c.flag("late callback")
        self.font = object()
        self.ui = c.get("pyswitch.ui.UiController:UiController")(Display(), self.font, *([] if late else [self.splash]))
        if late: self.ui.set_callback(self.splash)
        self.ui.init(self.appl)
        c.check("listens to the screen callback", len(self.splash.inits) == 1 and self.splash.inits[0][0] is self.appl and self.splash.inits[0][1] is self.ui)
        b = self.ui.bounds
        c.check_eq("the whole screen", [b.x, b.y, b.width, b.height], [0, 0, 240, 135])
        self.n = 0
        self.inits = {}              # element name -> number of inits
        self.parts = {}              # root name -> all names, updateables in order
        self.shown = None
        self.roots = {}

    def element(self, children=None, updateable=False, add=False):
        """children: None or list of elements and Nones"""
        c, s = self.c, self
        name = self.n
        self.n += 1
        DE = c.get("pyswitch.ui.ui:DisplayElement")
        def init(self, ui, appl):
            s.inits[name] = s.inits.get(name, 0) + 1
            s.on = (ui, appl)
            c.check("initialized for the shown root", ui is s.splash.root and appl is s.appl and ui.splash is not None and ui.font_loader is s.font)
            DE.init(self, ui, appl)
        body = {"init": init}
        bases = (DE,)
        if updateable:
            bases = (DE, c.get("pyswitch.misc:Updateable"))
            body["update"] = lambda self: s.log.append(name)
        El = type("El", bases, body)
        if add and children:
            e = El(id=name)
            for x in children: e.add(x)
        else: e = El(id=name, children=children)
        e.name_ = name
        names, ups = [name], [name] if updateable else []
        for x in children or []:
            if x is None: continue
            a, b = self.parts[x.name_]
            names = names + a
            ups = ups + b
        self.parts[name] = (names, ups)
        self.roots[name] = e
        return e

    def show(self, root, how="show"):
        """the callback selects a root, and the display is asked to show it (or a value changes)"""
        c = self.c
        self.splash.root = root
        self.shows.clear()
        before = dict(self.inits)
        if how == "terminated":
            self.ui.request_terminated("m")
            return c.check("connection loss does not change the screen", self.shows == [])
        self.ui.parameter_changed("m") if how == "changed" else self.ui.show()
        if root is self.shown: c.check("an unchanged root is not displayed again", self.shows == [])
        else:
            c.check("exactly the selected root is displayed", len(self.shows) == 1 and self.shows[0] is root.splash and root.splash is not None)
        self.shown = root
        names, ups = self.parts[root.name_]
        for n in names:
            c.check("every element of the root is initialized exactly once", self.inits.get(n) == 1)
            c.check("and knows it", self.roots[n].initialized() is True)
        c.check("no other element is touched", {n: k for n, k in self.inits.items() if n not in names} == {n: k for n, k in before.items() if n not in names})
        self.update()

    def update(self):
        self.log.clear()
        self.ui.update()
        self.c.check("exactly the updatable elements of the root are updated, once each, in order", self.log == (self.parts[self.shown.name_][1] if self.shown else []))


def tree(s, n, small=False):
    """any tree with n elements: each element decides how its n-1 descendants are split"""
    c = s.c
    if n == 1: return s.element(None if small else c.choice("no children", (None, [])), c.flag("updateable"))
    left, kids = n - 1, []
    while left:
        k = c.choice("size", range(1, left + 1)) if left > 1 else 1
        kids.append(tree(s, k, small))
        left -= k
    if not small and c.flag("gap"): kids.insert(0, None)
    return s.element(kids, c.flag("updateable"), add=small or c.flag("add"))


@harness("C36", targets=T, params=(1, 2, 3, 4), bounds="trees with up to four elements")
def one_root(c, n):
    s = Screen(c)
    s.update()
    t = tree(s, n, n > 3)
    c.check("not initialized before it is shown", t.initialized() is False)
    s.show(t, c.choice("how", ("show", "changed")) if n < 4 else "show")
    s.show(t)


@harness("C36", targets=T, bounds="three roots with two elements each, up to four switches")
def roots(c):
    s = Screen(c)
    shared = s.element(updateable=True)
    rs = [s.element([s.element(updateable=True)], False), s.element([None, shared], True), s.element([s.element([shared])], True)]
    for _ in range(4): s.show(c.choice("root", rs), c.choice("how", ("show", "changed")))
    s.update()
    s.show(rs[0], "terminated")


@harness("C36", targets=[E + "init", E + "initialized", E + "contents_flat", E + "add"], bounds="up to three children", params=(0, 1, 2, 3))
def children(c, n):
    """one element with any children, whatever they consist of: the step of the induction over the tree"""
    DE = c.get("pyswitch.ui.ui:DisplayElement")
    log = []
    class Child:
        def __init__(self, k): self.k, self.ready = k, c.flag("initialized")
        def initialized(self): return self.ready
        def init(self, ui, appl):
            log.append((self.k, ui, appl))
            self.ready = True
        def contents_flat(self): return ["%d/%d" % (self.k, i) for i in range(self.k + 1)]
    kids = [None if c.flag("none") else Child(k) for k in range(n)]
    e = DE(children=kids if n else None)
    real = [k for k in kids if k is not None]
    c.check("not initialized", e.initialized() is False)
    want = [(k.k, "ui", "appl") for k in real if not k.ready]
    e.init("ui", "appl")
    c.check("exactly the children not initialized yet are initialized, once", log == want)
    c.check("initialized", e.initialized() is True)
    if real:
        real[-1].ready = False
        c.check("a child not initialized counts", e.initialized() is False)
    flat = [e]
    for k in real: flat += k.contents_flat()
    c.check("all elements in order", list(e.contents_flat()) == flat)


@harness("C36", targets=T, kind="history", bounds="concretely: four roots with up to 15 elements, 30 switches", random_runs=300)
def history(c):
    if c.symbolic: return c.check("concrete only", True)
    s = Screen(c)
    rs = [tree(s, c.int("n", 1, 15)) for _ in range(4)]
    for _ in range(30):
        if c.flag("update"): s.update()
        else: s.show(c.choice("root", rs), c.choice("how", ("show", "changed")))


class AnyChild:
    """contract of a child: init() makes it an initialized element, and contents_flat() lists it and its descendants"""
    def __init__(self, c, name, ready=None):
        self.c, self.name = c, name
        self.ready = c.flag("initialized") if ready is None else ready
        self.before = self.ready
        self.flat = c.segs(self, c.seg("descendants", lambda: AnyChild(c, name, True)), self) if c.symbolic else [self] + [object() for _ in range(2)]
    def initialized(self): return self.ready
    def init(self, ui, appl):
        self.c.trace.append(("init", self.name, ui, appl))
        self.ready = True
    def contents_flat(self): return self.flat


def inits(e): return [] if e is None or e.before else [("init", e.name, "ui", "appl")]


@harness("C36", targets=[E + "__init__", E + "init", E + "initialized", E + "contents_flat"], covers=["not all", "all"])
def any_children(c):
    """one element with any number of children, whatever they consist of"""
    DE = c.get("pyswitch.ui.ui:DisplayElement")
    def ready(e): c.check("initialized now", e is None or e.ready)
    def seg(name):
        return c.seg(name, lambda: None if c.flag("none") else AnyChild(c, name), inits, inv=ready, after=lambda: None if c.flag("none") else AnyChild(c, name, True),
                     grows=lambda e: [] if e is None else e.flat)
    A, B = seg("A"), seg("B")
    x, y = AnyChild(c, "x"), AnyChild(c, "y")
    items = [A, x, None, y, B]
    e = DE(children=c.segs(*items))
    c.check("not initialized", e.initialized() is False)
    e.init("ui", "appl")
    c.check_trace("exactly the children not initialized yet are initialized, once", c.trace, c.unroll(items, inits))
    c.check("initialized", e.initialized() is True)
    del c.trace[:]
    # initialized is what consists of initialized elements only
    for s in (A, B):
        s.calls = s.inv = None
        s.passed = lambda z: c.check("known to be initialized", z is None or z.ready)
        if c.symbolic: s.make = lambda name=s.name: None if c.flag("none") else AnyChild(c, name)
        else:
            for z in s.elements:
                if z is not None: z.ready = c.flag("initialized")
    e.children = c.segs(*items)
    r = e.initialized()
    c.cover("all" if r else "not all")
    known = [x, y]
    for s in (A, B): known += [z for z in (s.flat() if c.symbolic else s.elements) if isinstance(z, AnyChild)]
    if r: c.check("all are", all(z.ready for z in known))
    else: c.check("one is not", not all(z.ready for z in known))


@harness("C36", targets=[E + "contents_flat"])
def any_contents(c):
    """all elements in order"""
    DE = c.get("pyswitch.ui.ui:DisplayElement")
    grows = lambda e: [] if e is None else e.flat
    A, B = [c.seg(n, lambda: None if c.flag("none") else AnyChild(c, n), grows=grows) for n in "AB"]
    x, y = AnyChild(c, "x"), AnyChild(c, "y")
    items = [A, x, None, y, B]
    e = DE(children=c.segs(*items))
    want = c.segs(e)
    want.extend(c.flat(items, grows))
    c.check_items("all elements in order", e.contents_flat(), want)


@harness("C36", targets=[U + "show", U + "update", "misc.Updater.update"], covers=["first", "other"])
def any_root(c):
    """roots with any number of elements: whatever was shown before, the selected root is shown, and exactly its updatable elements are updated"""
    Up = c.get("pyswitch.misc:Updateable")
    shows = []
    class Tft:
        def show(self, g): shows.append(g)
    class Display:
        tft = Tft()
        width, height = 240, 135
    class Splash:
        def init(self, appl, listener): pass
        def get_root(self): return self.root
    class Plain:
        def __init__(self, name): self.name = name
    class Comp(Up):
        def __init__(self, name): self.name = name
        def update(self): c.trace.append(("update", self.name))
    def updates(e): return [("update", e.name)] if isinstance(e, Comp) else []
    class Root:
        splash = None
        def __init__(self, name, items):
            self.items = items
            self.ready = c.flag("root initialized")
            self.inits = 0
            self.was = self.ready
        def make_splash(self, font):
            if self.splash is None: self.splash = ("splash", font)
        def initialized(self): return self.ready
        def init(self, ui, appl):
            c.check("with a splash", ui is self and self.splash is not None and appl == "appl")
            self.ready = True
            self.inits += 1
        def contents_flat(self): return c.segs(*self.items)
    def root(n):
        s = c.seg(n, lambda: Comp(n) if c.flag("updateable") else Plain(n), updates)
        t = c.seg(n + "2", lambda: Comp(n + "2") if c.flag("updateable") else Plain(n + "2"), updates)
        return Root(n, [Plain("p"), s, Comp("c"), t])
    cb = Splash()
    ui = c.get("pyswitch.ui.UiController:UiController")(Display(), "font", cb)
    ui.init("appl")
    R, S = root("R"), root("S")
    if c.flag("shown before"):
        cb.root = S
        ui.show()
        c.cover("other")
    else: c.cover("first")
    for n in range(2):
        del shows[:]
        cb.root = R
        ui.show()
        c.check("the selected root is displayed, once", shows == ([("splash", "font")] if n == 0 else []))
        c.check("initialized once", R.ready and R.inits == (0 if R.was else 1))
        del c.trace[:]
        ui.update()
        c.check_trace("exactly the updatable elements, once each, in order", c.trace, c.unroll(R.items, updates))
