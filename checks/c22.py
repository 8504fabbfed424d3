"""C22: the monomials of the pure Python package against spec/PyMonom.tla."""
import vlib, pymonomgen

def run(c):
    drv = vlib.build_py("py")
    edges = c.mc("PyMonom", edges=True)
    c.mc("Orders")
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[1]), pymonomgen.translate,
                                         lambda s: ["begin 0 pymonom 2 18 %d 2" % s[0]], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "PyMonomTrace", progs, tag="edges")
    box = []
    for o in pymonomgen.ORDERS:
        box += pymonomgen.boxes(2, vlib.q(3, 2), 2, o, o) + pymonomgen.boxes(3, 1, 1, o, o + 500)
    c.conform(drv, "PyMonomTrace", box, tag="box")
    c.conform(drv, "PyMonomTrace", pymonomgen.programs(vlib.SEED, vlib.q(2500, 220), vlib.q(200, 100)), tag="rand")
