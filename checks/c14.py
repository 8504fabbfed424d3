"""C14: GInv::RBTree against spec/RBTree.tla."""
import vlib, treegen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    if vlib.THOROUGH:
        c.mc("RBTree", "RBTreeBig.cfg")
    edges = c.mc("RBTree", vlib.q("RBTree9.cfg", "RBTree.cfg"), edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: s == [], treegen.translate, lambda s: ["begin 0 tree 1", "new 0 0"],
                                         ["probe 0 0 1 2 3 4 5 6 7 8 9 10", "end"], maxlen=250)
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "RBTrace", progs, tag="edges")
    c.conform(drv, "RBTrace", treegen.bigs(vlib.SEED, vlib.q(60, 8), vlib.q(5000, 2000)), tag="big")
    c.conform(drv, "RBTrace", treegen.programs(vlib.SEED, vlib.q(1500, 200), vlib.q(400, 160)), tag="rand")
