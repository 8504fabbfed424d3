"""C03: Hilbert polynomials of Janet trees and of completed systems count the monomials outside."""
import vlib, janetgen, sysgen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    c.mc("HilbertCount")
    c.mc("HilbertCount", "HilbertCount3.cfg")
    c.conform(drv, "JanetTrace", janetgen.programs(vlib.SEED + 100, vlib.q(800, 120), ["complete", "complete", "rand", "deep"]), tag="trees")
    c.conform(drv, "JanetTrace", janetgen.programs(vlib.SEED + 110, vlib.q(300, 40), ["wide", "huge"]), tag="widetrees")
    c.conform(drv, "CompletionTrace", janetgen.compl_programs(vlib.SEED + 100, vlib.q(800, 120), ["janet"]), tag="sets")
    # every monomial ideal of three boxes, as a set of monomials and as a system
    sets = [(2, 3, 1), (3, 1, 1), (3, 2, vlib.q(1, 3)), (4, 1, vlib.q(1, 2))]
    c.conform(drv, "CompletionTrace", sum((janetgen.ideal_programs(vlib.SEED, n, top, ["janet"], e) for n, top, e in sets), []), tag="ideals")
    c.conform(drv, "SysTrace", sum((sysgen.ideal_programs(vlib.SEED + 1, n, top, e) for n, top, e in sets), []), tag="idealsys", cfg="SysTraceHp.cfg", maxlog=(16000, 5000))
    c.conform(drv, "SysTrace", sysgen.programs(vlib.SEED + 300, vlib.q(4000, 500)), tag="systems", cfg="SysTraceHp.cfg", maxlog=(16000, 5000))
