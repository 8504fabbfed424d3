"""C08: GInv::Monom against spec/Monom.tla."""
import vlib, monomgen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    edges = c.mc("Monom", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[1]), monomgen.translate,
                                         lambda s: ["begin 0 monom 2 %d" % s[0]], ["q 0 0"] * 0 + ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "MonomTrace", progs, tag="edges")
    c.conform(drv, "MonomTrace", monomgen.programs(vlib.SEED, vlib.q(1500, 160), vlib.q(250, 120)), tag="rand")
