from vf.api import *

PC = "pyswitch.misc:PeriodCounter"


@harness("C34", targets=["misc.PeriodCounter.exceeded", "misc.PeriodCounter.reset", "misc.PeriodCounter.passed"], covers=["elapsed", "not elapsed"], params=(False, True))
def period_counter_contract(c, fraction):
    """From any state (last reset at any time), any interval, any clock: exceeded <=> now - last > interval; and exactly then resets."""
    P = c.get(PC)
    ms = c.real("interval", 0) if fraction else c.int("interval", 0)          # e.g. 1000 ms / frames per second
    p = P(ms)
    if c.flag("was reset"):
        t0 = c.int("t_reset", 0)
        c.set_now(t0)
        p.reset()
    else:
        t0 = 0
    dt = c.int("dt", 0)
    c.advance(dt)
    now = c.now()
    c.check_eq("passed is the time since the last reset", p.passed, now - t0)
    e = p.exceeded
    want = (now - t0) > ms
    c.check("exceeded iff more than the interval has passed", c.iff(e, want))
    c.cover("elapsed", want)
    c.cover("not elapsed", c.not_(want))
    base = c.ite(want, now, t0)
    c.check_eq("a new period starts exactly when exceeded was reported", p.passed, now - base)
    c.advance(c.int("dt2", 0))
    c.check_eq("passed afterwards", p.passed, c.now() - base)
    c.check("second query", c.iff(p.exceeded, c.now() - base > ms))
