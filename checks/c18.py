"""C18: GInv::RandPermutation against spec/Perm.tla."""
import vlib, smallgen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    c.mc("Perm")
    c.conform(drv, "PermTrace", smallgen.perms(vlib.SEED, vlib.q(600, 60)), tag="rand")
