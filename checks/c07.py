"""C07: reductions, primitive parts and normal forms against spec/Poly.tla."""
import vlib, polygen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    c.mc("Poly", "PolyNF.cfg")
    c.conform(drv, "PolyTrace", polygen.programs(vlib.SEED, vlib.q(1600, 200), vlib.q(70, 40), "red"), tag="rand")
    c.conform(drv, "PolyTrace", polygen.larges(vlib.SEED + 7, vlib.q(80, 8)), tag="large")
