"""C05: GInv::MJanet and GInv::MCompletion against spec/Completion.tla."""
import vlib, janetgen

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    c.mc("Completion")
    c.mc("Completion", "CompletionBig.cfg")
    # every monomial ideal of some boxes, by every order
    kinds = ["janet", "lex", "deglex", "lexGB", "deglexGB", "GB"]
    c.conform(drv, "CompletionTrace", sum((janetgen.ideal_programs(vlib.SEED, n, top, kinds, e) for n, top, e in [(2, 3, 1), (3, 1, 1), (3, 2, vlib.q(1, 12)), (4, 1, vlib.q(1, 8))]), []), tag="ideals")
    c.conform(drv, "CompletionTrace", janetgen.compl_programs(vlib.SEED, vlib.q(2400, 320)), tag="rand")
    c.conform(drv, "CompletionTrace", janetgen.widen(janetgen.compl_programs(vlib.SEED + 50, vlib.q(600, 80)), vlib.SEED), tag="wide")
