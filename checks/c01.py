"""C01: completion of polynomial generators against spec/Involutive.tla and the algorithm spec/Tq.tla."""
import json, random
import vlib, sysgen

ALTS = ["SysTraceBasis2.cfg", "SysTraceBasis3.cfg"]
MAXLOG = (12000, 3500)

def systems(edges, order, n, every, shift):
    """programs completing the systems TLC enumerated, every algorithm in turn"""
    rnd = random.Random(vlib.SEED)
    out = []
    for k, (s, _, _) in enumerate(sorted(set(edges))):
        if (k + shift) % every:
            continue
        gens = [sysgen.text({tuple(m): c for m, c in g}) for g in json.loads(s)]
        rnd.shuffle(gens)
        algs = sysgen.DISTINCT if vlib.q(1, 0) else [sysgen.DISTINCT[(k // every) % len(sysgen.DISTINCT)]]
        for alg in algs:
            p = ["begin %d sys %d %d" % (k, order, n)]
            if rnd.random() < .3:
                p += ["push " + gens[0], "build %d" % alg] + ["push " + g for g in gens[1:]]
            else:
                p += ["push " + g for g in gens]
            out.append(p + ["build %d" % alg, "end"])
    return out

ALGMODELS = ["TqAlgs%s.cfg" % a for a in (
    "TQ", "TQMod", "TQThree", "TQLex", "TQ1", "TQ1Mod", "TQ1Three", "TQ1Lex", "TQ2", "TQ2Mod", "TQ2Three",
    "Block", "BlockMod", "BlockThree", "BlockLex")]
MODELS = [("Tq.cfg", 18, 2, 3), ("TqMod.cfg", 34, 2, 3), ("TqThree.cfg", 18, 3, 6), ("TqLex.cfg", 17, 2, 3)]

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    progs = []
    for cfg, order, n, every in MODELS if vlib.q(1, 0) else MODELS[:3]:
        e = c.mc("Tq", cfg, edges=True, edge_workers=vlib.NPROC)
        progs += systems(e, order, n, vlib.q(1, every), vlib.SEED)
    c.mc("Tq", "TqAlways.cfg", expect="Invariant Right is violated")
    for cfg in ALGMODELS if vlib.q(1, 0) else ["TqAlgsTQ.cfg", "TqAlgsTQ1Lex.cfg", "TqAlgsTQ2Mod.cfg", "TqAlgsBlock.cfg"]:
        c.mc("TqAlgs", cfg)
    c.conform(drv, "SysTrace", progs, tag="model", cfg="SysTraceBasis.cfg", alts=ALTS)
    c.conform(drv, "SysTrace", sysgen.programs(vlib.SEED, vlib.q(6000, 700)), tag="rand", cfg="SysTraceBasis.cfg", alts=ALTS, maxlog=MAXLOG)
    c.conform(drv, "SysTrace", sysgen.wide_programs(vlib.SEED + 3100, vlib.q(2000, 150)), tag="wide", cfg="SysTraceBasis.cfg", alts=ALTS, maxlog=MAXLOG)
