"""Engine of the checks: builds the drivers from /repo's working tree, replays
programs in the real code, and has TLC check specifications and logs."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from collections import defaultdict, deque
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GINV_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(HERE, "spec")
WORK = None
NPROC = max(1, min(8, os.cpu_count() or 4))

class CheckError(Exception):
    pass

def q(thorough, quick):
    return thorough if THOROUGH else quick

def workdir(prop):
    global WORK
    base = os.path.join(HERE, ".work")
    os.makedirs(base, exist_ok=True)
    WORK = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    return WORK

def cleanup():
    if WORK and os.path.isdir(WORK) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(WORK, ignore_errors=True)

def build(*drivers, env=None):
    out = os.path.join(WORK, "b_" + "_".join(drivers) + ("" if not env else str(abs(hash(tuple(sorted(env.items())))))))
    ev = dict(os.environ, GINV_REPO=REPO)
    if env:
        ev.update(env)
    r = subprocess.run([os.path.join(HERE, "lib", "build.sh"), out, *drivers], env=ev,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout[-3000:])
    return {d: os.path.join(out, d) for d in drivers}

def build_py(kind):
    """argv of a Python driver: the binding is built from the tree, the package is used as it is"""
    if kind == "cy":
        out = os.path.join(WORK, "b_cy")
        r = subprocess.run([os.path.join(HERE, "lib", "build_cy.sh"), out], env=dict(os.environ, GINV_REPO=REPO),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-3000:])
        return ["/usr/bin/python3", "-B", os.path.join(HERE, "harness", "drv_cy.py"), out]
    return ["/usr/bin/python3", "-B", os.path.join(HERE, "harness", "drv_%s.py" % kind), os.path.join(REPO, "pyginv")]

# --------------------------------------------------------------- programs
def run_driver(binary, traces, tag, timeout=600, env=None):
    """traces: list of lists of command lines (each starts with 'begin'); returns
    a list of event lists, one per trace (events are raw json lines)."""
    prog = os.path.join(WORK, tag + ".prog")
    log = os.path.join(WORK, tag + ".ndjson")
    with open(prog, "w") as f:
        for t in traces:
            f.write("\n".join(t) + "\n")
    argv = binary if isinstance(binary, list) else [binary]
    try:
        r = subprocess.run(argv + [prog, log], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=dict(os.environ, VT_SHORT=q("", "1"), **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode:
        raise CheckError("driver failed rc=%d %s" % (r.returncode, r.stderr[-2000:]))
    out, cur = [], None
    with open(log) as f:
        for line in f:
            line = line.rstrip("\n")
            if not line:
                continue
            if line.startswith('{"op":"begin"'):
                cur = []
                out.append(cur)
            if cur is None:
                cur = []
                out.append(cur)
            cur.append(line)
    return out

def run_driver_parallel(binary, traces, tag, timeout=600, env=None, parts=None):
    n = min(parts or NPROC, max(1, len(traces)))
    groups = [traces[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda kg: run_driver(binary, kg[1], "%s_%d" % (tag, kg[0]), timeout, env), enumerate(groups)))
    pairs = []
    for g, evs in zip(groups, res):
        # a driver stops early only after repeated abnormal ends
        for t, ev in zip(g, evs):
            pairs.append((t, ev))
    return pairs

# -------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=(), tag=None, stack="256m"):
    tag = tag or module
    md = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-XX:TieredStopAtLevel=4",
           "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-Djava.io.tmpdir=" + md, "-DTLA-Library=" + SPEC, "-cp", TLAJARS, "tlc2.TLC", "-metadir", md, "-workers", str(workers),
           "-noGenerateSpecTE", "-nowarning", "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(WORK, tag + ".tlcout")
    t0 = time.time()
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout + 60, cwd=md)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(md, ignore_errors=True)
    return rc, outp, time.time() - t0

RE_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left")
RE_DEPTH = re.compile(r"^The depth of the complete state graph search is (\d+)")
RE_STATE = re.compile(r"^State (\d+):")

def parse_tlc(outp):
    d = {"gen": 0, "distinct": 0, "depth": 0, "maxstate": 0, "errors": [], "finished": False}
    with open(outp, errors="replace") as f:
        for line in f:
            m = RE_STATES.match(line)
            if m:
                d["gen"], d["distinct"], d["left"] = int(m[1]), int(m[2]), int(m[3])
            m = RE_DEPTH.match(line)
            if m:
                d["depth"] = int(m[1])
            m = RE_STATE.match(line)
            if m:
                d["maxstate"] = max(d["maxstate"], int(m[1]))
            if line.startswith("Error:") or "Exception" in line or "StackOverflow" in line or "OutOfMemory" in line:
                d["errors"].append(line.strip())
            if line.startswith("Model checking completed"):
                d["finished"] = True
    return d

class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.mc = [], []
        self.ops = defaultdict(int)
        self.notes = []

def model_check(module, cfg, st, env=None, workers=NPROC, heap="6g", timeout=800, edges=False, tag=None, edge_workers=1, expect=None):
    """exhaustive model checking of a specification module; returns the printed EDGEs"""
    rc, outp, wall = tlc(module, cfg, env=env, workers=edge_workers if edges else workers, heap=heap, timeout=timeout, tag=tag or ("mc_" + cfg.replace(".cfg", "")))
    d = parse_tlc(outp)
    if expect:                                  # a configuration known to be wrong: the model must say so
        if not any(expect in x for x in d["errors"]):
            raise CheckError("model checking %s/%s did not report: %s" % (module, cfg, expect))
        st.mc.append({"module": module, "cfg": cfg, "refuted_as_expected": expect, "wall_s": round(wall, 1)})
        return []
    if rc != 0 or d["errors"] or not d["gen"]:
        raise CheckError("model checking %s/%s failed rc=%s: %s\n%s" % (module, cfg, rc, d["errors"][:4], open(outp, errors="replace").read()[-2500:]))
    st.states += d["distinct"]
    st.transitions += d["gen"]
    st.mc.append({"module": module, "cfg": cfg, "distinct_states": d["distinct"], "generated": d["gen"], "depth": d["depth"], "wall_s": round(wall, 1)})
    if not edges:
        return []
    res = []
    pre = '<<"EDGE", "'
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith(pre):
                body = line.rstrip("\n")[len('<<"EDGE", '):-2]
                parts = json.loads("[" + body + "]")
                res.append(tuple(parts))
    return res

def cover_edges(edges, init_pred, translate, begin, end, maxlen=150, shuffle=None):
    """walks covering every printed transition. translate(actjson, fromstate)->command lines or None;
    begin(statejson)->lines. Returns list of programs."""
    out = defaultdict(list)
    seen = set()
    for a, act, b in edges:
        if (a, act, b) in seen:
            continue
        seen.add((a, act, b))
        out[a].append((act, b))
    inits = sorted(s for s in out if init_pred(json.loads(s)))
    todo = {a: list(range(len(v))) for a, v in out.items()}
    left = sum(len(v) for v in todo.values())
    rnd = random.Random(SEED)
    for v in todo.values():
        rnd.shuffle(v)
    progs, covered = [], 0
    # which initial state reaches what: walk from each initial state in turn
    for s0 in inits:
        while True:
            prog, cur, n, progress = list(begin(json.loads(s0))), s0, 0, 0
            while n < maxlen:
                if todo.get(cur):
                    k = todo[cur].pop()
                    act, nxt = out[cur][k]
                    prog += translate(json.loads(act), json.loads(cur))
                    cur, n, progress, covered = nxt, n + 1, progress + 1, covered + 1
                    continue
                # nearest state with something left
                prev, dq, goal = {cur: None}, deque([cur]), None
                while dq:
                    x = dq.popleft()
                    if todo.get(x):
                        goal = x
                        break
                    for act, y in out.get(x, ()):
                        if y not in prev:
                            prev[y] = (x, act)
                            dq.append(y)
                if goal is None:
                    break
                path = []
                x = goal
                while prev[x]:
                    path.append((prev[x][1], prev[x][0]))
                    x = prev[x][0]
                for act, frm in reversed(path):
                    prog += translate(json.loads(act), json.loads(frm))
                    n += 1
                cur = goal
            if not progress:
                break
            progs.append(prog + list(end))
    return progs, covered, len(seen)

# ------------------------------------------------------- trace validation
def _validate(module, cfg, pairs, tag, heap, timeout, env=None):
    log = os.path.join(WORK, tag + ".log")
    starts, n = [], 0
    with open(log, "w") as f:
        for t, ev in pairs:
            starts.append(n + 1)
            for line in ev:
                f.write(line + "\n")
            n += len(ev)
    rc, outp, wall = tlc(module, cfg, env=dict(env or {}, TRACE=log), workers=1, heap=heap, timeout=timeout, tag=tag)
    d = parse_tlc(outp)
    os.unlink(log)
    if rc == 0 and d["finished"] and not d["errors"]:
        return d, None, n
    if wall >= timeout - 1:                 # stopped by TLC itself: looks like a rejection, is no answer
        raise CheckError("TLC ran out of time on %s" % tag)
    txt = " ".join(d["errors"])
    if "OutOfMemory" in txt or rc == -1 or (not d["finished"] and not d["errors"]):
        raise CheckError("TLC gave no answer on %s (rc=%s %s)" % (tag, rc, txt[:500]))
    if "StackOverflow" in txt:
        raise CheckError("TLC stack overflow on " + tag)
    # a rejection leaves the number of consumed events in the depth of the search
    at = (d["maxstate"] if not d["depth"] else d["depth"])
    if at == 0:
        raise CheckError("TLC failed on %s (rc=%s): %s\n%s" % (tag, rc, txt[:800], open(outp, errors="replace").read()[-2500:]))
    k = max(j for j, s in enumerate(starts) if s <= at) if at <= n else len(starts) - 1
    return d, (k, at - starts[k], txt, outp), n

def validate(module, pairs, st, tag=None, cfg=None, shards=NPROC, heap="3g", timeout=800, env=None, cost=None):
    """checks the logs against the trace specification; returns [] or the rejected (trace, events, index, msg)"""
    if not pairs:
        return []
    tag = tag or module
    cfg = cfg or module + ".cfg"
    n = min(shards, len(pairs))
    cost = cost or (lambda p: sum(len(x) for x in p[1]) + 200 * len(p[1]))
    groups, load = [[] for _ in range(n)], [0] * n
    for p in sorted(pairs, key=cost, reverse=True):
        k = load.index(min(load))
        groups[k].append(p)
        load[k] += cost(p)
    bad = []
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda kg: _validate(module, cfg, kg[1], "%s_v%d" % (tag, kg[0]), heap, timeout, env), enumerate(groups)))
    for g, (d, rej, nev) in zip(groups, res):
        st.states += d["distinct"]
        st.transitions += d["gen"]
        if rej is None:
            st.traces += len(g)
            st.events += nev
        else:
            k, idx, msg, _ = rej
            st.traces += k
            bad.append((g[k][0], g[k][1], idx, msg, g[k + 1:]))
    return bad

def count_ops(pairs, st):
    for _, ev in pairs:
        for line in ev:
            k = line.find('"op":"')
            if k >= 0:
                st.ops[line[k + 6:line.index('"', k + 6)]] += 1

DEV = os.environ.get("VT_DEV")       # a folder: keep transitions of the models there, stop at the first violation

class Check:
    """One property check."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.st, self.t0 = prop, level, Stats(), time.time()
        self.violations, self.assumptions, self.extra = [], [], {}
        workdir(prop)
        self.replaydir = os.path.join(HERE, "replay", prop)
        self.nreplay = 0
        shutil.rmtree(self.replaydir, ignore_errors=True)

    def mc(self, module, cfg=None, **kw):
        if DEV:                                 # trials of many changes: the models do not depend on the code
            k = os.path.join(DEV, "%s-%s.json" % (module, cfg or module))
            if not kw.get("edges"):
                return []
            if not os.path.exists(k):
                json.dump(model_check(module, cfg or module + ".cfg", self.st, **kw), open(k, "w"))
            return [tuple(x) for x in json.load(open(k))]
        return model_check(module, cfg or module + ".cfg", self.st, **kw)

    def report(self, trace, events, idx, msg, module, note=""):
        os.makedirs(self.replaydir, exist_ok=True)
        self.nreplay += 1
        path = os.path.join(self.replaydir, "v%d.txt" % self.nreplay)
        with open(path, "w") as f:
            f.write("# property %s, rejected by spec/%s.tla\n# %s %s\n" % (self.prop, module, note, msg[:1500]))
            f.write("# program (for the driver):\n" + "\n".join(trace) + "\n")
            f.write("# rejected event (number %d of the log of this program):\n" % (idx + 1))
            for j, line in enumerate(events[:idx + 2]):
                f.write("#%s %s\n" % ("->" if j == idx else "  ", line))
        self.violations.append(path)

    def conform(self, binary, module, traces, tag=None, cfg=None, env=None, heap="3g", timeout=800, denv=None, confirm=True, dtimeout=600, cost=None, maxlog=None, alts=()):
        """replay the programs in the real code, validate every log; a rejected trace is
        run once more alone before it is reported"""
        if self.violations:                     # one is enough: the answer is known
            return []
        tag = tag or module
        if DEV and len(traces) >= 40:
            traces = traces[::int(os.environ.get("VT_SAMPLE", "1"))]
        pairs = run_driver_parallel(binary, traces, tag, env=denv, timeout=dtimeout)
        if maxlog:                              # histories whose numbers grew beyond what TLC can take
            fits = lambda p: sum(map(len, p[1])) <= maxlog[0] and max(map(len, p[1])) <= maxlog[1]
            big = [p for p in pairs if not fits(p)]
            pairs = [p for p in pairs if fits(p)]
            self.extra["left_out_as_too_large"] = self.extra.get("left_out_as_too_large", 0) + len(big)
        count_ops(pairs, self.st)
        if pairs and len(self.st.samples) < 6:
            t, ev = pairs[len(pairs) // 2]
            self.st.samples.append({"program": t[:8], "log": [x[:300] for x in ev[:4]]})
        bad = validate(module, pairs, self.st, tag, cfg, env=env, heap=heap, timeout=timeout, cost=cost)
        while bad:
            rest = []                       # what a log accepted after all kept from being looked at
            for t, ev, idx, msg, left in bad:
                if len(self.violations) >= 3:
                    break
                if not confirm:
                    self.report(t, ev, idx, msg, module)
                    continue
                again = run_driver(binary, [t], tag + "_again", env=denv, timeout=dtimeout)
                if not again:
                    self.report(t, ev, idx, msg, module)
                    continue
                s2 = Stats()
                b2 = validate(module, [(t, again[0])], s2, tag + "_again", cfg, env=env, heap=heap, timeout=timeout)
                for a in alts:              # other primes: a prime that divides something proves nothing
                    if b2:
                        b2 = validate(module, [(t, again[0])], s2, tag + "_alt", a, env=env, heap=heap, timeout=timeout)
                if b2:
                    self.report(*b2[0][:4], module)
                elif alts:
                    self.extra["accepted_with_another_prime"] = self.extra.get("accepted_with_another_prime", 0) + 1
                    rest += left
                else:
                    self.report(t, ev, idx, msg, module, "(rejected once, accepted when run again)")
            if self.violations:
                break
            bad = validate(module, rest, self.st, tag, cfg, env=env, heap=heap, timeout=timeout, cost=cost)
        return pairs

    def finish(self):
        known = load_known().get(self.prop, [])
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        st = self.st
        cov = {"states": st.states, "transitions": st.transitions, "traces_validated_against_impl": st.traces,
               "samples": st.samples or [{"note": "none"}], "events_validated": st.events, "events_by_operation": dict(sorted(st.ops.items())),
               "model_checked": st.mc}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        print("%s: %d traces, %d events, %d states, %.1fs%s" % (self.prop, st.traces, st.events, st.states, time.time() - self.t0,
              "" if not self.violations else ", %d violations" % len(self.violations)))
        return 1 if self.violations else 0

def load_known():
    res = defaultdict(list)
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m:
                res[m[1]].append(m[2])
    return res
