"""C04: GInv::Janet against spec/Janet.tla."""
import vlib, janetgen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    edges = c.mc("Janet", edges=True)
    c.mc("Janet", "JanetBig.cfg")
    progs, cov, total = vlib.cover_edges(edges, lambda s: s[1] == [], janetgen.translate,
                                         lambda s: ["begin 0 janet %d %d" % (s[0], 0)], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "JanetTrace", progs, tag="edges")
    c.conform(drv, "JanetTrace", janetgen.programs(vlib.SEED, vlib.q(1400, 170), ["rand", "complete", "deep", "wide", "huge"]), tag="rand")
    c.conform(drv, "JanetTrace", janetgen.widen(janetgen.programs(vlib.SEED + 40, vlib.q(400, 50), ["rand", "complete", "huge"]), vlib.SEED), tag="wide")
