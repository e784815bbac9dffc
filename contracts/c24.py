"""Paging, on the real controller with real switches: any page IDs, rotating and direct pagers, page buttons, any current page; up to four pages
symbolically (bounded), longer lists and histories concretely. Any number of pages: every press from every page (induction with loop rules, unbounded);
any number of inputs and actions are reset."""
from vf.api import *
from .lib import *
from .c17 import LedDriver, CT

L = "pyswitch.clients.local.actions."
T = ["clients.local.actions.pager.PagerAction.__init__", "clients.local.actions.pager.PagerAction.init", "clients.local.actions.pager.PagerAction.push",
     "clients.local.actions.pager.PagerAction._get_page_index", "clients.local.actions.pager.PagerAction.proxy", "clients.local.actions.pager.PagerAction.update_displays",
     "clients.local.actions.pager.PagerAction._EnableCallback.enabled", "clients.local.actions.pager_direct.DirectPagerProxy.push",
     "clients.local.actions.pager_direct.DirectPagerProxy.update_displays",
     "controller.controller.Controller.reset_actions", "controller.actions.Action.enabled", "controller.actions.Action.reset"]


class Quiet:
    """MIDI port without messages"""
    def receive(self): return None
    def send(self, m): pass


def callback(c, name, log):
    class Cb(c.get("pyswitch.controller.callbacks:Callback")):
        def reset(self): log.append(name)
        def push(self): pass
        def release(self): pass
        def update_displays(self): pass
    return Cb()


class Net:
    """pagers: list of (ids, select page, page buttons)"""
    def __init__(self, c, pagers, extra_ids=(), **kw):
        self.c = c
        self.log = []
        P, A = c.get(L + "pager:PagerAction"), c.get("pyswitch.controller.actions:Action")
        self.pagers, self.ids, self.current = [], [], []
        self.buttons = []            # (model, pager index, target page index | None: rotate)
        self.members = []            # (action, pager index, id)
        inputs = []
        pixel = [0]

        def add(actions, hold=()):
            m = Model()
            inputs.append({"assignment": {"model": m, "pixels": (pixel[0], pixel[0] + 1)}, "actions": list(actions), "actionsHold": list(hold)})
            pixel[0] += 2
            return m
        for k, (ids, select, buttons) in enumerate(pagers):
            pages = [{"id": x, "color": (10 * (i + 1), 0, 0), "text": "page"} for i, x in enumerate(ids)]
            p = P(pages=pages, select_page=None if select is None else ids[select], **kw)
            self.pagers.append(p)
            self.ids.append(ids)
            self.current.append(0)
            self.buttons.append((add([p]), k, select))
            for i in buttons:
                self.buttons.append((add([p.proxy(page_id=ids[i])]), k, i))
            for j, x in enumerate(list(ids) + list(extra_ids)):
                n = "%d/%d" % (k, j)
                a = A({"callback": callback(c, n, self.log), "id": x, "enableCallback": p.enable_callback})
                b = A({"callback": callback(c, n + "h", self.log), "id": x, "enableCallback": p.enable_callback})
                self.members += [(a, k, x), (b, k, x)]
                add([a], [b])
        self.names = sorted(m[0].callback and n for n, m in zip(["%d/%d%s" % (k, j, h) for k, (ids, _, _) in enumerate(pagers)
                                                                  for j in range(len(ids) + len(extra_ids)) for h in ("", "h")], self.members))
        self.ctl = c.get(CT)(LedDriver(), Quiet(), config={"clearBuffers": False}, inputs=inputs)
        self.ctl.init()
        self.enabled()

    def enabled(self):
        c = self.c
        for a, k, x in self.members:
            ids = self.ids[k]
            want = False if not ids else (x is ids[self.current[k]] or c.eq(x, ids[self.current[k]]))
            c.check("exactly the actions of the current page are enabled", c.iff(a.enabled, want))
        for p, ids, cur in zip(self.pagers, self.ids, self.current):
            if ids: c.check("the current page is an existing one", c.eq(p.current_page_id, ids[cur]))

    def press(self, b):
        c = self.c
        m, k, target = self.buttons[b]
        self.log.clear()
        m.pushed = True
        self.ctl.tick()
        n = len(self.ids[k])
        old = self.current[k]
        if n: self.current[k] = (old + 1) % n if target is None else target
        if self.current[k] != old:
            c.check("every action is reset exactly once", sorted(self.log) == self.names, lambda: "reset %r, expected %r" % (sorted(self.log), self.names))
            c.cover("page changed")
        else:
            c.check("no action is reset more than once", len(set(self.log)) == len(self.log))
        self.enabled()
        self.log.clear()
        m.pushed = False
        self.ctl.tick()
        c.check("releasing changes nothing", self.log == [])
        self.enabled()


def distinct(c, n, lo=None, hi=None):
    ids = [c.int("id%d" % i, lo, hi) for i in range(n)]
    for i in range(n):
        for j in range(i): c.assume(ids[i] != ids[j])
    return ids


@harness("C24", targets=T, params=[(n, d) for n in (0, 1, 2, 3, 4) for d in (False, True) if n or not d], bounds="up to four pages with any IDs")
def one_pager(c, p):
    n, direct = p
    ids = distinct(c, n, 0)
    select = c.choice("select", range(n)) if direct else None
    net = Net(c, [(ids, select, range(n) if direct or n < 3 else ())])
    # reach any current page, then press any button
    if n: net.press(c.choice("first", range(len(net.buttons))))
    if n > 2 and not direct:
        for _ in range(c.choice("more", (0, 1, 2))): net.press(0)
    net.press(c.choice("press", range(len(net.buttons))))


@harness("C24", targets=T, params=(None, 0, 1), bounds="two or three pages, two presses", covers=["page changed"])
def disabled_pager(c, select):
    """the page buttons of a pager which is not enabled itself (e.g. as it is part of a page) select their pages all the same"""
    ids = distinct(c, c.choice("pages", (2, 3)), 0)
    net = Net(c, [(ids, select, range(len(ids)))], enable_callback=EnableCb(False))
    for _ in range(2): net.press(c.choice("press", range(1, len(ids) + 1)))


@harness("C24", targets=T, bounds="two pagers, two pages each, two presses", covers=["page changed"])
def two_pagers(c):
    ids = distinct(c, 4, 0)
    net = Net(c, [(ids[:2], None, (1,)), (ids[2:], c.choice("select", (None, 1)), (0,))])
    net.press(c.choice("first", range(4)))
    net.press(c.choice("second", range(4)))


@harness("C24", targets=T, kind="history", bounds="concretely up to 12 pages, three pagers, 30 presses", random_runs=300)
def history(c):
    if c.symbolic:
        net = Net(c, [([5, 0, 7], None, (2, 0))])
        for _ in range(3): net.press(c.choice("press", range(3)))
        return
    pool = list(range(40))
    cfg = []
    for k in range(c.int("pagers", 1, 3)):
        n = c.int("pages", 0, 12)
        ids = [pool.pop(c.int("id", 0, len(pool) - 1)) if len(pool) > 1 else 99 for _ in range(n)]
        ids = list(dict.fromkeys(ids))
        if c.flag("text IDs"): ids = ["id%d" % x for x in ids]
        n = len(ids)
        cfg.append((ids, c.choice("select", [None] + list(range(n))), [c.int("button", 0, n - 1) for _ in range(c.int("buttons", 0, 3))] if n else []))
    net = Net(c, cfg, extra_ids=(1000, "none"))
    for _ in range(30):
        net.press(c.choice("press", range(len(net.buttons))))
        if c.flag("wait"):
            c.advance(c.int("dt", 0, 400))
            net.ctl.tick()
            net.enabled()


@harness("C24", targets=["clients.local.actions.pager.PagerAction.init", "clients.local.actions.pager.PagerAction.__init__"])
def with_parameters(c):
    """a pager can depend on parameters: they are requested, paging works"""
    m = mapping(c, "p", request=nrpn(c, 200), response=nrpn(c, 0))
    ids = distinct(c, 2, 0)
    net = Net(c, [(ids, None, ())], mappings=[m])
    for _ in range(2):
        c.advance(c.int("dt", 201))
        net.ctl.tick()
    net.press(0)
    net.press(0)


class PagerAppl(Appl):
    def __init__(self):
        Appl.__init__(self)
        self.resets = 0
    def reset_actions(self): self.resets += 1


class Pages:
    """any number of pages before and after a certain one"""
    def __init__(self, c):
        self.c = c
        self.id = c.int("page ID", 0)
        self.page = self.entry(self.id)
        def other():
            x = c.int("other ID", 0)
            c.assume(x != self.id)
            return self.entry(x)
        A, B = c.seg("A", other), c.seg("B", other)
        if c.symbolic:
            self.k = A.n()
            self.n = A.n() + 1 + B.n()
        else:
            self.k = len(A.elements)
            self.n = len(A.elements) + 1 + len(B.elements)
        self.list = c.segs(A, self.page, B)
    def entry(self, i):
        c = self.c
        p = {"id": i}
        if c.flag("with color"): p["color"] = (10, 20, 30)
        return p

    def at_any(self, pager):
        """the pager is on any page"""
        c = self.c
        pos = c.int("current", 0)
        c.assume(pos < self.n)
        for k in ("current_page_index", "current_page_id"): c.field(pager, k)
        pager.current_page_index = pos
        # (the ID belonging to this page)
        pager.current_page_id = self.id if c.is_true(pos == self.k) else c.int("current ID", 0)
        return pos

    def check(self, pager, appl):
        c = self.c
        c.check("the page is the one expected", c.all([pager.current_page_index == self.k, pager.current_page_id == self.id]))
        c.check("all actions are reset once", appl.resets == 1)
        other = c.int("action ID", 0)
        class Act: pass
        a, b = Act(), Act()
        a.id, b.id = self.id, other
        c.check("exactly the actions of the page are enabled", c.all([pager.enable_callback.enabled(a), c.iff(pager.enable_callback.enabled(b), other == self.id)]))


PT = ["clients.local.actions.pager.PagerAction." + x for x in ("__init__", "init", "push", "_get_page_index", "proxy", "update_displays", "_EnableCallback.enabled")] + \
     ["clients.local.actions.pager_direct.DirectPagerProxy." + x for x in ("push", "update_displays")]


@harness("C24", targets=PT, kind="induction", covers=["next", "wrapped"])
def next_of_any_number_of_pages(c):
    """rotating: the page after the current one, or the first one after the last one"""
    p = Pages(c)
    pager = c.get(L + "pager:PagerAction")(pages=p.list)
    appl = PagerAppl()
    switch(c, appl, [pager])
    first = pager.current_page_index
    c.check("starts with the first page", first == 0)
    c.check("and its ID", c.implies(p.k == 0, pager.current_page_id == p.id))
    pos = p.at_any(pager)
    wraps = c.is_true(pos + 1 == p.n)
    c.assume(p.k == (0 if wraps else pos + 1))
    c.cover("wrapped" if wraps else "next")
    pager.push()
    p.check(pager, appl)


@harness("C24", targets=PT, kind="induction", params=("own", "proxy"))
def certain_one_of_any_number_of_pages(c, how):
    """direct: the page selected, whatever was selected before"""
    p = Pages(c)
    pager = c.get(L + "pager:PagerAction")(pages=p.list, select_page=p.id if how == "own" else None)
    button = pager if how == "own" else pager.proxy(page_id=p.id)
    appl = PagerAppl()
    switch(c, appl, [pager])
    if how == "proxy": switch(c, appl, [button])
    c.check("starts with the first page", pager.current_page_index == 0)
    pos = p.at_any(pager)
    button.push()
    p.check(pager, appl)


@harness("C24", targets=["controller.controller.Controller.reset_actions"])
def any_number_of_actions_is_reset(c):
    """every action of every input exactly once"""
    class Act:
        def __init__(self, name): self.name = name
        def reset(self): c.trace.append(("reset", self.name))
    class In: pass
    def resets(a): return [("reset", a.name)]
    def inputs(e): return c.unroll(e.items, resets)
    def make(name):
        def f():
            e = In()
            e.items = [c.seg(name + " actions", lambda: Act(name), resets), Act(name + " x"), c.seg(name + " more", lambda: Act(name + "2"), resets)]
            e.actions = c.segs(*e.items)
            return e
        return f
    A, x, y, B = c.seg("A", make("A"), inputs), make("x")(), make("y")(), c.seg("B", make("B"), inputs)
    ctl = c.get(CT)(LedDriver(), Quiet(), config={})
    c.field(ctl, "inputs")
    ctl.inputs = c.segs(A, x, y, B)
    ctl.reset_actions()
    c.check_trace("every action of every input once", c.trace, c.unroll([A, x, y, B], inputs))
