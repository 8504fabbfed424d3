"""C12: GInv::Allocator against spec/Arena.tla."""
import vlib, arenagen

def run(c):
    drv = vlib.build("drv_util")["drv_util"]
    if vlib.THOROUGH:
        c.mc("Arena", "ArenaBig.cfg")
    edges = c.mc("Arena", edges=True)
    progs, cov, total = vlib.cover_edges(edges, lambda s: s[1] == [] and s[2] == 0 and s[3] == 0 and all(a["alloc"] == 0 for a in s[0]), arenagen.translate, lambda s: ["begin 0 arena 2", "new 0", "new 1"], ["end"], maxlen=200)
    c.extra["spec_transitions_replayed"] = cov
    c.extra["spec_transitions_total"] = total
    c.conform(drv, "ArenaTrace", progs, tag="edges")
    c.conform(drv, "ArenaTrace", arenagen.programs(vlib.SEED, vlib.q(1500, 240), vlib.q(200, 120)), tag="rand")
    # the configuration without arenas: the same histories against spec/Plain.tla
    drv = vlib.build("drv_util", env={"VT_PLAIN": "1"})["drv_util"]
    edges = c.mc("Plain", edges=True)
    progs, cov2, total2 = vlib.cover_edges(edges, lambda s: s[1] == [] and s[2] == 0 and s[3] == 0 and all(a == 0 for a in s[0]), arenagen.translate, lambda s: ["begin 0 arena 2", "new 0", "new 1"], ["end"], maxlen=200)
    c.extra["spec_transitions_replayed"] = cov + cov2
    c.extra["spec_transitions_total"] = total + total2
    c.conform(drv, "PlainTrace", progs, tag="pedges")
    c.conform(drv, "PlainTrace", arenagen.programs(vlib.SEED + 7, vlib.q(800, 120), vlib.q(200, 120)), tag="plain")
