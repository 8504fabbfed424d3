"""C13: GInv::Integer against spec/Integer.tla."""
import vlib, intgen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    c.mc("Integer")
    c.conform(drv, "IntegerTrace", intgen.pairs() + intgen.big(vlib.SEED, vlib.q(40, 8)) + intgen.echoes(vlib.SEED), tag="pairs")
    c.conform(drv, "IntegerTrace", intgen.programs(vlib.SEED, vlib.q(2000, 240), vlib.q(300, 120)), tag="rand")
    # the other configuration: integers in GMP's own memory
    drv = vlib.build("drv_util", env={"VT_PLAININT": "1"})["drv_util"]
    c.conform(drv, "IntegerTrace", intgen.echoes(vlib.SEED) + intgen.big(vlib.SEED + 1, vlib.q(20, 3)) + intgen.programs(vlib.SEED + 1, vlib.q(600, 80), vlib.q(300, 100)), tag="gmp")
