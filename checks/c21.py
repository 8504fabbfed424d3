"""C21: the Python binding against spec/Cy.tla, spec/Monom.tla and spec/Involutive.tla."""
import os, vlib, cygen, sysgen

def run(c):
    drv = vlib.build_py("cy")
    edges = c.mc("Cy", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[2]) and s[3] == [] and s[0] == 2, cygen.translate,
                                         lambda s: ["begin 0 cypoly 2 %d %d" % (s[1], s[0])], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "CyTrace", progs, tag="edges")
    c.conform(drv, "CyTrace", cygen.polys(vlib.SEED, vlib.q(1500, 160), vlib.q(80, 45)), tag="expr")
    c.conform(drv, "CyTrace", cygen.larges(vlib.SEED, vlib.q(80, 8)), tag="large")
    c.conform(drv, "CyMonomTrace", cygen.monoms(vlib.SEED, vlib.q(1000, 120), vlib.q(200, 100)), tag="monoms")
    sys2 = [p for p in sysgen.programs(vlib.SEED + 2100, vlib.q(3000, 330), algs=[0]) if int(p[0].split()[4]) >= 2]
    c.conform(drv, "SysTrace", sys2, tag="sys", cfg="SysTraceCy.cfg", alts=["SysTraceCy2.cfg", "SysTraceCy3.cfg"], maxlog=(12000, 3500))
