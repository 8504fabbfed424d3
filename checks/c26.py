"""C26: differential and difference systems of the pure Python package."""
import vlib, pypolygen, pydsysgen

def run(c):
    drv = vlib.build_py("py")
    edges = c.mc("PyPoly", "PyDiff", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: all(m == [] for m in s[2]), pypolygen.translate,
                                         lambda s: ["begin 0 pydiff 2 %d %d 1 1" % (s[1], s[0])], ["end"])
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "PyPolyTrace", progs, tag="edges", cfg="PyDiffTrace.cfg")
    c.conform(drv, "PyPolyTrace", pypolygen.programs(vlib.SEED, vlib.q(1600, 160), vlib.q(60, 40), "pydiff"), tag="diff", cfg="PyDiffTrace.cfg")
    c.conform(drv, "PyPolyTrace", pypolygen.programs(vlib.SEED, vlib.q(800, 80), vlib.q(60, 40), "pyschem"), tag="schem")
    c.conform(drv, "PySysTrace", pydsysgen.constant(vlib.SEED, vlib.q(3000, 240)), tag="constant", cfg="PySysTrace.cfg",
              alts=["PySysTrace2.cfg", "PySysTrace3.cfg"], maxlog=(12000, 3500))
    c.conform(drv, "DiffSysTrace", pydsysgen.programs(vlib.SEED, vlib.q(12000, 1500)), tag="systems", cfg="DiffSysTrace.cfg",
              alts=["DiffSysTrace2.cfg", "DiffSysTrace3.cfg"], maxlog=(30000, 8000))
