"""C19: GInv::Timer against spec/Timer.tla, on clocks the driver controls."""
import vlib, smallgen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    c.mc("Timer", "TimerBig.cfg") if vlib.THOROUGH else None
    edges = c.mc("Timer", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: s[0] == [0, 0, 0] and all(t["from"] == [] for t in s[1]), smallgen.timer_translate, lambda s: ["begin 0 timer 1"], ["end"], maxlen=40)
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "TimerTrace", progs, tag="edges")
    c.conform(drv, "TimerTrace", smallgen.timers(vlib.SEED, vlib.q(1500, 200), vlib.q(400, 150)), tag="rand")
