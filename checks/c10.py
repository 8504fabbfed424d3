"""C10: GInv::GB against spec/Forest.tla."""
import vlib, forestgen, janetgen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    edges = c.mc("Forest", edges=True)
    c.mc("Forest", "ForestBig.cfg")
    progs, cov, total = vlib.cover_edges(edges, lambda s: s[1] == [], forestgen.translate,
                                         lambda s: ["begin 0 gb %d" % s[0]], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "ForestTrace", progs, tag="edges")
    c.conform(drv, "ForestTrace", forestgen.programs(vlib.SEED, vlib.q(1600, 200)), tag="rand")
    c.conform(drv, "ForestTrace", janetgen.widen(forestgen.programs(vlib.SEED + 60, vlib.q(500, 60)), vlib.SEED), tag="wide")
