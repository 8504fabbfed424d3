"""C06: PolyInt arithmetic against spec/Poly.tla."""
import vlib, polygen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    edges = c.mc("Poly", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[2]), polygen.translate,
                                         lambda s: ["begin 0 poly 2 %d %d" % (s[1], s[0])], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "PolyTrace", progs, tag="edges")
    c.conform(drv, "PolyTrace", polygen.programs(vlib.SEED, vlib.q(1600, 160), vlib.q(120, 60), "ring"), tag="rand")
    c.conform(drv, "PolyTrace", polygen.larges(vlib.SEED, vlib.q(160, 16)), tag="large")
    # the configuration with integers in GMP's own memory
    drv = vlib.build("drv_ginv", env={"VT_PLAININT": "1"})["drv_ginv"]
    c.conform(drv, "PolyTrace", polygen.programs(vlib.SEED + 1, vlib.q(300, 40), vlib.q(120, 60), "ring"), tag="gmp")
