"""C23: the polynomials of the pure Python package against spec/PyPoly.tla."""
import vlib, pypolygen

def run(c):
    drv = vlib.build_py("py")
    for cfg, K, r in (("PyPoly", 0, 0), ("PyPolyMod", 1, 0), ("PyPolyPar", 0, 1)):
        edges = c.mc("PyPoly", cfg, edges=True)
        progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[2]), pypolygen.translate,
                                             lambda s: ["begin 0 pypoly 2 %d %d %d %d" % (s[1], s[0], K, r)], ["end"])
        c.extra["spec_transitions_replayed"] = c.extra.get("spec_transitions_replayed", 0) + cov
        c.extra["spec_transitions_total"] = c.extra.get("spec_transitions_total", 0) + total
        c.conform(drv, "PyPolyTrace", progs, tag="edges_" + cfg)
    c.conform(drv, "PyPolyTrace", pypolygen.programs(vlib.SEED, vlib.q(2600, 240), vlib.q(80, 60)), tag="rand")
    c.conform(drv, "PyPolyTrace", pypolygen.larges(vlib.SEED, vlib.q(80, 8)), tag="large")
