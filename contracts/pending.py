"""A client with any number of pending requests of arbitrary parameters, each with any number of listeners, around known ones."""
from vf.api import *
from .lib import *


class OtherMapping:
    """arbitrary parameter: takes the message under consideration or not (contract of ClientParameterMapping: C01, C02, C03)"""
    def __init__(self, c, tag, message=True):
        self.name = "%s parameter" % tag
        self.request = object()
        self.response, self.depends, self.set = object(), None, object()
        self.value = c.int(tag + " value")
        self.new = c.int(tag + " new value")
        self.takes = c.bool(tag + " takes") if message else False
        self.done = c.bool(tag + " complete") if message else True
        self.covered = c.bool(tag + " covered")
    def parse(self, m):
        if self.takes: self.value = self.new
        return self.takes
    def result_finished(self): return self.done


class Lis:
    """listener writing to the ghost trace"""
    def __init__(self, c, name):
        self.c, self.name = c, name
    def parameter_changed(self, m): self.c.trace.append(("changed", self.name, m.name, m.value))
    def request_terminated(self, m): self.c.trace.append(("terminated", self.name, m.name))


class Pending:
    def __init__(self, c, life=2000, cl=None, midi=None):
        self.c, self.life = c, life
        self.midi = midi or Midi(c)
        self.cl = cl or client(c, self.midi, {"maxRequestLifetimeMillis": life})
        self.Request = c.get(CL + ":ClientRequest")

    def listeners(self, tag):
        """any number of listeners"""
        c = self.c
        return c.seg(tag + " listeners", lambda: Lis(c, c.int(tag + " listener")))

    def others(self, tag, takes=None, kind=None, finished=None, aged=False):
        """segment of arbitrary requests; takes: constrain if they take the message"""
        c = self.c

        def make():
            m = OtherMapping(c, tag)
            if takes is not None: c.assume(c.iff(m.takes, takes))
            perm = (c.flag(tag + " permanent")) if kind is None else kind == "perm"
            ls = self.listeners(tag)
            if c.symbolic:
                r = self.Request(self.cl, m, 0 if perm else self.life)
                c.field(r, "listeners")
                r.listeners = c.segs(ls)
                fin = c.flag(tag + " finished") if finished is None else finished
                if fin: r.listeners = None
                if r.lifetime is not None:
                    born = c.int(tag + " born", 0) if aged else c.now()
                    c.assume(born <= c.now())
                    c.field(r.lifetime, "_PeriodCounter__last_reset")
                    r.lifetime.__dict__["_PeriodCounter__last_reset"] = born
                    r.born = born
            else:
                if perm: m.request = None
                op = self.cl.register if perm else self.cl.request
                op(m, None)
                for l in ls.elements: op(m, l)
                r = self.cl.get_matching_request(m)
                fin = False
                r.born = c.now()
            r.perm, r.fin, r.ls, r.old = perm, fin, ls, m.value
            return r
        return c.seg(tag if takes is None else tag + (" taking" if takes else " idle"), make)

    def known(self, m, ask, extra=True):
        """request of the parameter m by one known listener between any number of others; to be called in list order
        (after the segment before it); -> (request, items of its listeners)"""
        c = self.c
        L = Lis(c, "L")
        if c.symbolic:
            ask(m, L)
            r = self.cl.get_matching_request(m)
            items = [self.listeners("w1"), L, self.listeners("w2")] if extra else [L]
            c.field(r, "listeners")
            r.listeners = c.segs(*items)
        else:
            a = self.listeners("w1") if extra else None
            if a:
                for l in a.elements: ask(m, l)
            ask(m, L)
            b = self.listeners("w2") if extra else None
            if b:
                for l in b.elements: ask(m, l)
            r = self.cl.get_matching_request(m)
            items = [a, L, b] if extra else [L]
        return r, items

    def install(self, *items):
        """the list of pending requests"""
        c = self.c
        if c.symbolic:
            c.field(self.cl, "_Client__requests")
            self.cl.__dict__["_Client__requests"] = c.segs(*items)
        self.midi.take()
        del c.trace[:]

    def expect(self, items, calls):
        """listener items -> trace; calls(listener)"""
        for x in items:
            if hasattr(x, "make"): x.calls = calls
        return self.c.unroll(items, calls)

    def on_receive(self, *segs):
        """what receiving the message has to do to the other requests"""
        c = self.c

        def calls(r):
            if r.fin or not c.is_true(c.all([r.mapping.takes, r.mapping.done])): return []
            return self.expect([r.ls], lambda l: [("changed", l.name, r.mapping.name, r.mapping.new)])

        def inv(r):
            took = c.is_true(r.mapping.takes)
            c.check("other requests: gone exactly if answered", c.eq(r.finished, c.any([r.fin, c.all([took, r.mapping.done, not r.perm])])))
            c.check("other requests: value", c.eq(r.mapping.value, r.mapping.new if took and not r.fin else r.old))
        for s in segs: s.calls, s.inv = calls, inv

    def on_cleanup(self, *segs):
        """overdue requests are terminated"""
        c = self.c

        def overdue(r): return not r.fin and not r.perm and c.is_true(c.now() - r.born > self.life)

        def calls(r):
            if not overdue(r): return []
            return self.expect([r.ls], lambda l: [("terminated", l.name, r.mapping.name)])

        def inv(r):
            c.check("other requests: gone exactly if overdue", c.eq(r.finished, c.any([r.fin, overdue(r)])))
            c.check("other requests: value kept", c.eq(r.mapping.value, r.old))
        for s in segs: s.calls, s.inv = calls, inv
