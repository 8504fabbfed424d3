"""C15: GInv::List against spec/List.tla."""
import vlib, listgen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    if vlib.THOROUGH:
        c.mc("List", "ListBig.cfg")
    edges = c.mc("List", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[0]) and all(m == [] for m in s[1] + s[2]), listgen.translate,
                                         lambda s: ["begin 0 list 2 1 1", "new 0 0", "new 1 0"], ["end"], maxlen=400)
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "ListTrace", progs, tag="edges")
    c.conform(drv, "ListTrace", listgen.longs(vlib.SEED, vlib.q(100, 12)), tag="long")
    c.conform(drv, "ListTrace", listgen.programs(vlib.SEED, vlib.q(3000, 400), vlib.q(400, 200)), tag="rand")
