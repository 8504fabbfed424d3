"""C28: the pictures of red-black trees, Janet trees and forests against spec/Pict.tla."""
import random
import vlib, treegen, janetgen, forestgen

def look(progs, seed, cmd, rate):
    """the same histories, with pictures taken on the way and at the end"""
    rnd = random.Random(seed)
    res = []
    for p in progs:
        out = []
        for i, l in enumerate(p):
            if l == "end" or (i > 1 and rnd.random() < rate): out.append(cmd(p))
            out.append(l)
        res.append(out)
    return res

def run(c):
    b = vlib.build("drv_ginv", "drv_util", env={"VT_PICT": "1"})
    drv = b["drv_ginv"]
    anyd = lambda p: "pict"
    edges = c.mc("Janet", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: s[1] == [], lambda a, f: janetgen.translate(a, f)[:1] + ["pict"], lambda s: ["begin 0 janet %d %d" % (s[0], 0)], ["pict", "end"])
    c.conform(drv, "JanetTrace", progs[::vlib.q(1, 3)], tag="jedges")
    c.conform(drv, "JanetTrace", look(janetgen.programs(vlib.SEED + 81, vlib.q(400, 50), ["rand", "complete", "deep", "wide"]), 1, anyd, .05), tag="janet")
    edges = c.mc("Forest", edges=True)
    progs, cov2, total2 = vlib.cover_edges(edges, lambda s: s[1] == [], lambda a, f: forestgen.translate(a, f)[:1] + ["pict"], lambda s: ["begin 0 gb %d" % s[0]], ["pict", "end"])
    c.conform(drv, "ForestTrace", progs[::vlib.q(1, 3)], tag="fedges")
    c.conform(drv, "ForestTrace", look(forestgen.programs(vlib.SEED + 82, vlib.q(400, 50)), 2, anyd, .05), tag="forest")
    c.extra["spec_transitions_replayed"] = cov + cov2
    c.extra["spec_transitions_total"] = total + total2
    c.conform(b["drv_util"], "RBTrace", look(treegen.programs(vlib.SEED + 83, vlib.q(300, 40), vlib.q(200, 120)), 3, lambda p: "pict 0", .04), tag="rb")
