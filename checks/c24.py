"""C24: the Janet trees and forests of the pure Python package against spec/PyJanet.tla."""
import vlib, pyjanetgen

def run(c):
    drv = vlib.build_py("py")
    edges = c.mc("PyJanet", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: s[1] == [], pyjanetgen.translate,
                                         lambda s: ["begin 0 pyjanet janet 18 %d 0" % s[0]], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "PyJanetTrace", progs, tag="edges")
    c.conform(drv, "PyJanetTrace", pyjanetgen.programs(vlib.SEED, vlib.q(6000, 800)), tag="rand")
