"""C02: normal forms and lookups by a completed basis against spec/Involutive.tla."""
import vlib, sysgen

ALTS = ["SysTraceUse2.cfg", "SysTraceUse3.cfg"]

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    progs = []
    for cfg, order, n, deg, every in vlib.q([("Tq.cfg", 18, 2, 4, 3), ("TqMod.cfg", 34, 2, 3, 3), ("TqThree.cfg", 18, 3, 2, 4), ("TqLex.cfg", 17, 2, 4, 3)],
                                            [("Tq.cfg", 18, 2, 3, 12), ("TqMod.cfg", 34, 2, 2, 16)]):
        progs += sysgen.use_programs(c.mc("Tq", cfg, edges=True, edge_workers=vlib.NPROC), order, n, every, vlib.SEED, deg)
    c.conform(drv, "SysTrace", progs, tag="model", cfg="SysTraceUse.cfg", alts=ALTS)
    c.conform(drv, "SysTrace", sysgen.programs(vlib.SEED + 1000, vlib.q(6000, 800), queries=True), tag="rand", cfg="SysTraceUse.cfg", alts=ALTS, maxlog=(16000, 3500))
    c.conform(drv, "SysTrace", sysgen.wide_programs(vlib.SEED + 3200, vlib.q(2000, 120), queries=True), tag="wide", cfg="SysTraceUse.cfg", alts=ALTS, maxlog=(16000, 3500))
