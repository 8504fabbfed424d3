"""C11: accounting of arenas and garbage collection against spec/Gc.tla; whole programs
over every part of the library against spec/MemTrace.tla, in both memory configurations."""
import vlib, gcgen, sysgen, janetgen, forestgen, polygen, monomgen, intgen, treegen, listgen, smallgen

CONFIGS = [{"VT_PLAIN": "1"},              # no arenas: every block is counted by itself
           {"VT_CHECK_ALLOC": "1"},        # arenas: an arena that is not empty in the end stops the program
           {"VT_PLAIN": "1", "VT_CFLAGS": "-O1 -DNDEBUG -fsanitize=address", "VT_LDFLAGS": "-fsanitize=address"}]   # every block by itself, with guards: touching anything else stops the program

def run(c):
    b = vlib.build("drv_ginvmem")
    c.mc("Gc")
    c.conform(b["drv_ginvmem"], "GcTrace", gcgen.programs(vlib.SEED, vlib.q(2000, 280)), tag="gc")
    s, k = vlib.SEED + 500, vlib.q(8, 1)
    programs = [("drv_ginv", sysgen.programs(s, 200 * k) + janetgen.programs(s, 120 * k, ["complete", "rand", "deep"]) + janetgen.compl_programs(s, 120 * k)
                 + forestgen.programs(s, 80 * k) + polygen.programs(s, 120 * k, 50, "ring") + polygen.programs(s, 120 * k, 50, "red") + monomgen.programs(s, 80 * k, 80) + polygen.larges(s, 16 * k)),
                ("drv_ginvmem", gcgen.programs(s, 140 * k)),
                ("drv_util", intgen.programs(s, 100 * k, 80) + treegen.programs(s, 100 * k, 120) + listgen.programs(s, 100 * k, 120, True) + smallgen.stacks(s, 60 * k, 120) + treegen.bigs(s, 3 * k, 2000) + listgen.longs(s, 6 * k) + smallgen.tallstacks(s, 3 * k))]
    for n, e in enumerate(CONFIGS):
        b = vlib.build("drv_ginv", "drv_ginvmem", "drv_util", env=e)
        for d, p in programs:
            c.conform(b[d], "MemTrace", p, tag="mem%d" % n, denv={"VT_MEM": "1"})
