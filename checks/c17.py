"""C17: GInv::HilbertPoly against spec/HilbertPoly.tla."""
import vlib, smallgen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    c.mc("HilbertPoly")
    c.conform(drv, "HpTrace", smallgen.hps(vlib.SEED, vlib.q(1000, 120), vlib.q(80, 40)), tag="rand")
