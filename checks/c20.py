"""C20: GInv::BMonom against spec/BMonom.tla."""
import vlib, bmonomgen

def run(c):
    drv = vlib.build("drv_bmonom", env={"VT_BMONOM": "1"})["drv_bmonom"]
    edges = c.mc("BMonom", edges=True)
    if vlib.THOROUGH:
        c.mc("BMonom", "BMonomBig.cfg")
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s), bmonomgen.translate, lambda s: ["begin 0 bmonom 2"], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "BMonomTrace", progs, tag="edges")
    c.conform(drv, "BMonomTrace", bmonomgen.programs(vlib.SEED, vlib.q(2500, 250), vlib.q(200, 90)), tag="rand")
