"""C27: the elements a completed basis marks as a Groebner basis, against spec/Tq.tla (Marks) and spec/Involutive.tla (MarkedGroebner)."""
import vlib, sysgen, pysysgen, c01, c25

ALTS = ["SysTraceMarks2.cfg", "SysTraceMarks3.cfg"]

def run(c):
    drv, cy, py = vlib.build("drv_ginv")["drv_ginv"], vlib.build_py("cy"), vlib.build_py("py")
    progs, pyp = [], []
    for k, (cfg, order, n, every) in enumerate(c01.MODELS if vlib.q(1, 0) else c01.MODELS[:3]):
        e = c.mc("Tq", cfg, edges=True, edge_workers=vlib.NPROC)
        progs += c01.systems(e, order, n, vlib.q(1, 2 * every), vlib.SEED + 1)
        pyp += c25.systems(e, order, n, c25.MODELS[k][3], vlib.q(1, 4 * c25.MODELS[k][4]), vlib.SEED + 1)
    c.conform(drv, "SysTrace", progs, tag="model", cfg="SysTraceMarks.cfg", alts=ALTS, maxlog=c01.MAXLOG)
    c.conform(drv, "SysTrace", sysgen.programs(vlib.SEED + 2700, vlib.q(8000, 700)), tag="rand", cfg="SysTraceMarks.cfg", alts=ALTS, maxlog=c01.MAXLOG)
    sys2 = [p for p in sysgen.programs(vlib.SEED + 2800, vlib.q(2000, 150), algs=[0]) if int(p[0].split()[4]) >= 2]
    c.conform(cy, "SysTrace", sys2, tag="cython", cfg="SysTraceMarks.cfg", alts=ALTS, maxlog=c01.MAXLOG)
    c.conform(py, "PySysTrace", pyp + pysysgen.programs(vlib.SEED + 2900, vlib.q(3000, 200)), tag="python", cfg="PySysTraceMarks.cfg", alts=["PySysTraceMarks2.cfg", "PySysTraceMarks3.cfg"], maxlog=c01.MAXLOG)
    c.conform(drv, "SysTrace", sysgen.wide_programs(vlib.SEED + 3300, vlib.q(1000, 100)), tag="wide", cfg="SysTraceMarks.cfg", alts=ALTS, maxlog=c01.MAXLOG)
