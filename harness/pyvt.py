"""Plumbing of the Python conformance drivers (the counterpart of vt.hpp): runs
every trace of a program in a forked child, one JSON object per command."""
import json, os, resource, signal, sys, traceback

OUT = None

def emit(o):
    OUT.write(json.dumps(o, separators=(",", ":")) + "\n")
    OUT.flush()

def big(n):
    """integer -> [sign, base 10^4 digits, least first]"""
    if n == 0: return [0]
    r, m = [1 if n > 0 else -1], abs(n)
    while m:
        m, d = divmod(m, 10000)
        r.append(d)
    return r

def main(run, cpu_s=60):
    global OUT
    prog, log = sys.argv[-2:]
    traces = []
    for line in open(prog):
        w = line.split()
        if not w or w[0][0] == "#": continue
        if w[0] == "begin" or not traces: traces.append([])
        traces[-1].append(w)
    open(log, "w").close()
    if os.environ.get("VT_SHORT"): cpu_s //= 4
    abnormal = 0
    for t in traces:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 97
            try:
                OUT = open(log, "a")
                resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 2))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                signal.alarm(cpu_s * 12)
                err = os.dup(2)
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get("VT_STDERR"): os.dup2(dn, 2)
                run(t)
                OUT.flush()
                rc = 77
            except Harness as e:
                os.write(err, ("driver: %s\n" % e).encode())
                rc = 97
            except BaseException as e:          # an exception of the code under test ends the trace
                if os.environ.get("VT_STDERR"): traceback.print_exc()
                emit({"op": "abnormal", "how": "exception " + type(e).__name__})
                rc = 77
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        how = ""
        if os.WIFEXITED(st):
            if os.WEXITSTATUS(st) == 97: sys.exit(97)
            if os.WEXITSTATUS(st) != 77: how = "exit%d" % os.WEXITSTATUS(st)
        else:
            how = "signal%d" % os.WTERMSIG(st)
        if how:
            with open(log, "a") as f: f.write(json.dumps({"op": "abnormal", "how": how}) + "\n")
            abnormal += 2 if how == "signal%d" % signal.SIGXCPU else 1
            if abnormal >= 3: break
    sys.exit(0)

class Harness(Exception):
    pass
