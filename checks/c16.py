"""C16: GInv::Stack against spec/Stack.tla."""
import vlib, smallgen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    edges = c.mc("Stack", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: s == [[[], []], [1, 1]], smallgen.stack_translate, lambda s: ["begin 0 stack 2", "new 0 1 0", "new 1 1 0"], ["end"], maxlen=300)
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "StackTrace", progs, tag="edges")
    c.conform(drv, "StackTrace", smallgen.tallstacks(vlib.SEED, vlib.q(24, 6)), tag="tall")
    c.conform(drv, "StackTrace", smallgen.stacks(vlib.SEED, vlib.q(1500, 200), vlib.q(400, 200)), tag="rand")
