"""C25: the completions of the pure Python package against spec/Tq.tla and spec/Involutive.tla."""
import json, random
import vlib, sysgen, pysysgen

ALTS = ["PySysTrace2.cfg", "PySysTrace3.cfg"]

def systems(edges, order, n, K, every, shift):
    """programs completing the systems TLC enumerated, algorithms and trees in turn"""
    rnd = random.Random(vlib.SEED + 2500)
    out = []
    algs = [(a, t) for a in ("min", "block") for t in ("janet", "cache") if a == "min" or order == 0x12]
    for k, (s, _, _) in enumerate(sorted(set(edges))):
        if (k + shift) % every: continue
        gens = [sysgen.text({tuple(m): c for m, c in g}) for g in json.loads(s)]
        rnd.shuffle(gens)
        for alg, tree in algs if vlib.q(1, 0) and k % 4 == 0 else [algs[(k // every) % len(algs)]]:
            out.append(["begin %d pysys %d %d %d %s %s" % (k, order, n, K, tree, alg)] + ["push " + g for g in gens] + ["build", "hp", "end"])
    return out

MODELS = [("Tq.cfg", 18, 2, 0, 5), ("TqMod.cfg", 34, 2, 3, 6), ("TqThree.cfg", 18, 3, 0, 10), ("TqLex.cfg", 17, 2, 0, 6)]

def run(c):
    drv = vlib.build_py("py")
    progs = []
    for cfg, order, n, K, every in MODELS if vlib.q(1, 0) else MODELS[:2]:
        progs += systems(c.mc("Tq", cfg, edges=True, edge_workers=vlib.NPROC), order, n, K, vlib.q(1, every), vlib.SEED)
    c.conform(drv, "PySysTrace", progs, tag="model", cfg="PySysTrace.cfg", alts=ALTS)
    c.conform(drv, "PySysTrace", pysysgen.programs(vlib.SEED, vlib.q(9000, 700)), tag="sys", cfg="PySysTrace.cfg", alts=ALTS, maxlog=(12000, 3500))
    c.conform(drv, "PySysTrace", pysysgen.wide_programs(vlib.SEED + 2550, vlib.q(2000, 120)), tag="wide", cfg="PySysTrace.cfg", alts=ALTS, maxlog=(12000, 3500))
