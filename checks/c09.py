"""C09: the monomial orders against spec/Orders.tla and spec/Monom.tla."""
import itertools, random
import vlib, monomgen

def box_programs(n, mx, poses, order, first):
    """porder over every ordered pair of a box"""
    mons = [(p,) + e for p in poses for e in itertools.product(range(mx + 1), repeat=n)]
    progs = []
    for a in mons:
        out = ["begin %d monom 2 %d" % (first, n), "set 0 " + " ".join(map(str, a))]
        for b in mons:
            out += ["set 1 " + " ".join(map(str, b)), "porder %d 0 1" % order]
            if order in (0x11, 0x12):
                out.append("q 0 1")
        progs.append(out + ["end"])
    return progs

def run(c):
    drv = vlib.build("drv_ginv")["drv_ginv"]
    c.mc("Orders", "Orders.cfg")
    c.mc("Orders", "Orders3.cfg")
    progs = []
    for o in monomgen.ORDERS:
        progs += box_programs(2, vlib.q(3, 2), [-1, 0, 2], o, o)
        progs += box_programs(3, 1, [-1, 1], o, o)
        if vlib.THOROUGH:
            progs += box_programs(3, 2, [-1, 0], o, o)
    c.extra["box_pairs_exhaustive"] = "every ordered pair of exponent boxes, 6 module orders"
    c.conform(drv, "MonomTrace", progs, tag="box")
    c.conform(drv, "MonomTrace", monomgen.programs(vlib.SEED + 7, vlib.q(1500, 200), vlib.q(300, 140), orders_only=True), tag="rand")
