#!/usr/bin/env python3
"""check.py PROP            explore PROP on /repo's working tree (VERIF_SEED, VERIF_TIER)
check.py --replay FILE     rerun one recorded violation
check.py --setup           build everything

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Anything else: the check itself failed.
"""
import collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build  # noqa: E402

T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))
TAG = "-%s-%s" % (os.path.basename(build.REPO), TIER) if build.REPO != "/repo" else ""

LIB = "the whole runtime library (all of src/*.cpp except the generators), libstdc++ futures and threads"
STUB = ("pthread threads, mutexes, condition variables, futexes, clocks and sleeps, malloc/free "
        "(simulated: one seeded scheduler decides every interleaving)")
DYN = "service accessors and data: harness objects built on service::Object, ModifiedResult and schema::*"

GENERATED = dict(
    real="the runtime library, the generators schemagen and clientgen (run at build time) and the C++ they generate for three "
         "schemas of the harness (one file and separate files, with and without introspection), libstdc++ futures and threads",
    stub="field implementations behind the generated accessors: harness objects")

CLIENT = ("the runtime library with its JSON reader and writer, the generators schemagen and clientgen (run at build time), a "
          "generated service and generated clients for the documents of the harness, libstdc++ futures and threads")

# target, seconds of exploration (quick, thorough), what runs
CONF = {
    "C01": dict(target="dyn", secs=(40, 600)),
    "C02": dict(target="dyn", secs=(35, 600)),
    "C03": dict(target="dyn", secs=(30, 600)),
    "C04": dict(target="dyn", secs=(40, 600)),
    "C05": dict(target="dyn", secs=(40, 600)),
    "C06": dict(target="gen", secs=(40, 600), **GENERATED),
    "C07": dict(target="dyn", secs=(40, 600)),
    "C08": dict(target="dyn", secs=(40, 600)),
    "C09": dict(target="dyn", secs=(40, 600)),
    "C10": dict(target="dyn", secs=(40, 600)),
    "C11": dict(target="gen", secs=(40, 600), **GENERATED),
    "C12": dict(target="cli", secs=(40, 600), real=CLIENT,
                stub=["the network between client and service: messages in queues of the harness", GENERATED["stub"]]),
    "C14": dict(target="dyn", secs=(40, 600),
                real="the parser and the validation of the runtime library, PEGTL with its file input, libstdc++",
                stub=["the files and system calls on them (open, fstat, mmap, munmap, read, close), decided by the harness"]),
    "C13": dict(target="io", driver="c13", secs=(30, 600)),
}
# a few more runs of another workload: inputs that the exploration does not draw, see known_findings.txt
PROBES = {"C01": ("C01-merge", 24)}
RULE = {
    "C01": "A run = a generated schema, data set, document, variables, launch policy, accessor answer modes and "
           "thread schedule, all drawn from the seed.",
    "C02": "As C01, with a drawn set of failing accessors and list elements.",
    "C03": "As C01 for mutation documents, with and without failing accessors.",
    "C04": "A run = 2-6 client threads sending generated requests (valid, failing, invalid, with and without variables) to "
           "one shared service, some through one shared document; data, launch policies and schedule drawn from the seed.",
    "C07": "A run = generated subscriptions, events and filters on one service, subscribed, unsubscribed and delivered from "
           "1-4 threads in a drawn order and schedule; callbacks take their response at once, later or never.",
    "C08": "As C07, with failing notifications, rejected documents, throwing callbacks and filters, callbacks that call "
           "back into the service, unknown keys and failing thread creation.",
    "C09": "A run = requests (or subscriptions and deliveries) from several threads whose documents, variables, states, "
           "futures and service are dropped by the client at drawn moments, under a drawn schedule; every memory access "
           "is checked.",
    "C10": "A run = a history of parse, validate, resolve, subscribe, deliver and unsubscribe, once without faults to count "
           "allocations and thread creations, once with one or two operations failing at drawn ones, then the same "
           "service without faults.",
    "C06": "A run = queries, mutations, subscriptions and deliveries on a generated service whose objects are shared and are "
           "implemented without locks; arguments, data, failing accessors, answer modes, launch policies, threads and "
           "schedule drawn from the seed.",
    "C11": "A run = 1-4 threads creating and dropping services, asking for the schema, looking up and wrapping types and "
           "sending introspection requests, in a drawn order and schedule.",
    "C12": "A run = 1-3 client threads with 1-3 requests each, made by clientgen from one of the harness' documents, with drawn "
           "variables, in process or over the simulated network to 1-3 server threads, with drawn message faults, "
           "partition, service restarts, failing accessors and schedule; clients retry until they have the answer.",
    "C13": "A run = one or two runs of schemagen or clientgen on the same directories (empty or with older files), each with 1-3 "
           "faults at drawn file operations (failing, short and torn operations, full disk, failing close, kill), then a run "
           "without faults; files, list of files and exit status are compared with those of a run on an empty directory.",
    "C14": "A run = 1-4 threads parsing files and strings (generated documents and schemas, cut off, damaged, padded to whole "
           "pages), while the files are replaced and removed and system calls and allocations fail, handing the trees to "
           "each other and dropping them, in a drawn order and schedule.",
    "C05": "A run = client threads validating and executing generated and mutated documents, some at the same time, in a "
           "drawn order; every verdict is compared with that of an unused service on the same document.",
}
NONTRIVIAL = (" Non-trivial: at least two switches between threads happened; distinct: the sequence of (thread, "
              "synchronisation operation) differs from every other run's.")


def die(msg):
    print("check: " + msg, file=sys.stderr)
    sys.exit(3)


# ---- known findings --------------------------------------------------------------------------
def known_findings(prop):
    """lines 'known: property=<id> key=<regex> | <what fails>' of known_findings.txt"""
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


# ---- running ---------------------------------------------------------------------------------
class Sim:
    def __init__(self, prop, exe, scratch):
        self.prop, self.exe, self.scratch = prop, exe, scratch
        self.tier = "1" if TIER == "thorough" else "0"

    def args(self, mode, *a):
        return [self.exe, mode, "--prop", self.prop, "--tier", self.tier, "--scratch", self.scratch, *map(str, a)]

    def explore(self, seconds, maxfail=3):
        procs = []
        for i in range(WORKERS):
            out, hs = (os.path.join(self.scratch, "%s%d" % (n, i)) for n in ("out", "hash"))
            err = open(os.path.join(self.scratch, "err%d" % i), "w")
            procs.append((subprocess.Popen(self.args("run", "--seed", SEED, "--first", i, "--stride", WORKERS, "--seconds",
                seconds, "--cpu", i, "--maxfail", maxfail, "--out", out, "--hashes", hs), stderr=err,
                stdin=subprocess.DEVNULL), out, hs))
        summaries, fails, hashes = [], [], set()
        for i, (p, out, hs) in enumerate(procs):
            try:
                rc = p.wait(seconds + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                die("worker %d did not end" % i)
            err = open(os.path.join(self.scratch, "err%d" % i)).read()
            if rc:
                die("worker %d ended with %d: %s" % (i, rc, err[-2000:]))
            if err:
                print(err[-500:], file=sys.stderr)
            for line in open(out):
                j = json.loads(line)
                (summaries if j.get("summary") else fails).append(j)
            d = open(hs, "rb").read()
            hashes.update(d[k:k + 8] for k in range(0, len(d), 8))
        return summaries, fails, len(hashes)

    def one(self, index):
        p = subprocess.run(self.args("one", "--seed", SEED, "--first", index), capture_output=True, text=True)
        return json.loads(p.stdout)

    def replay(self, streams, verbose=False):
        """list of stream triples -> list of results, in fresh processes"""
        if not streams:
            return []
        n = min(WORKERS, len(streams))
        parts = [streams[i::n] for i in range(n)]
        res = [None] * n

        def go(i):
            text = "".join(" ".join(str(len(s)) for s in st) + " " + " ".join(str(v) for s in st for v in s) + "\n"
                           for st in parts[i])
            p = subprocess.run(self.args("replay", "--cpu", i, "--verbose", int(verbose)), input=text, capture_output=True,
                               text=True)
            res[i] = [json.loads(x) for x in p.stdout.splitlines()] if p.returncode == 0 else None
        ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if any(r is None or len(r) != len(parts[i]) for i, r in enumerate(res)):
            return None
        out = [None] * len(streams)
        for i in range(n):
            out[i::n] = res[i]
        return out

    def symbolise(self, text):
        cache = {}

        def f(m):
            a = int(m.group(0), 16)
            if a > 0x7f0000000000:
                return m.group(0)
            if a not in cache:
                o = subprocess.run(["addr2line", "-Cfe", self.exe, hex(a)], capture_output=True,
                                   text=True).stdout.splitlines()
                cache[a] = "\n      %s at %s" % (o[0][:120], o[1]) if len(o) > 1 else m.group(0)
            return cache[a]
        return re.sub(r"0x[0-9a-f]{6,}(?= |$|\n)", f, text)


def shrink(sim, streams, kind, seconds):
    """Reduce the choice streams while the same kind of violation happens."""
    end = time.time() + seconds
    best = [list(s) for s in streams]
    tried = 0

    def strip(st):
        st = [list(s) for s in st]
        for s in st:
            while s and s[-1] == 0:
                s.pop()
        return st

    def attempt(cands):
        nonlocal best, tried
        cands = [strip(c) for c in cands]
        cands = [c for c in cands if c != best]
        if not cands or time.time() > end:
            return False
        r = sim.replay(cands)
        if r is None:
            return False
        tried += len(cands)
        ok = [c for c, x in zip(cands, r) if x["status"] == 1 and x["kind"] == kind]
        if not ok:
            return False
        best = min(ok, key=lambda c: (len(c[0]) + len(c[1]) + len(c[2]), sum(map(sum, c))))
        return True

    def edit(i, f):
        c = [list(s) for s in best]
        c[i] = f(c[i])
        return c

    best = strip(best)
    progress = True
    while progress and time.time() < end:
        progress = False
        for i in (1, 2, 0):
            progress |= attempt([edit(i, lambda s: [])])
            size = max(1, len(best[i]) // 2)
            while size >= 1 and time.time() < end:
                pos = 0
                while pos < len(best[i]) and time.time() < end:
                    c = []
                    for k in range(8):
                        a = pos + k * size
                        if a < len(best[i]):
                            c.append(edit(i, lambda s, a=a: s[:a] + s[a + size:]))
                            if any(best[i][a:a + size]):
                                c.append(edit(i, lambda s, a=a: s[:a] + [0] * len(s[a:a + size]) + s[a + size:]))
                    if attempt(c):
                        progress = True
                    else:
                        pos += 8 * size
                size //= 2
            for a in range(len(best[i])):
                if a < len(best[i]) and best[i][a] and time.time() < end:
                    v = best[i][a]
                    progress |= attempt([edit(i, lambda s, w=w: s[:a] + [w] + s[a + 1:]) for w in {0, 1, v // 2, v - 1}])
    return best, tried


def evidence(prop, level, coverage, assumptions, violations):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    e = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions,
             wall_s=round(time.time() - T0, 1), violations=violations)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay_path(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(data["choices"]).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def check(prop):
    conf = CONF[prop]
    if conf.get("driver"):
        import importlib
        return importlib.import_module(conf["driver"]).check(sys.modules["__main__"], prop)
    try:
        exe = build.build([conf["target"]])[conf["target"]]
    except build.Broken as e:
        if prop not in ("C06", "C12"):
            die(str(e))
        return broken(prop, conf, str(e))
    built = time.time() - T0
    seconds = conf["secs"][TIER == "thorough"]
    if os.environ.get("SIM_SECONDS"):
        seconds = float(os.environ["SIM_SECONDS"])
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=base)
    try:
        return explore(prop, conf, Sim(prop, exe, scratch), seconds, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def broken(prop, conf, message):
    """the generators fail on the harness' schema or documents, or write code that does not compile"""
    path = replay_path(prop, dict(property=prop, target=conf["target"], kind="generate", tier=TIER, seed=SEED, message=message,
                                  choices=[[], [], []]))
    evidence(prop, "exploration", dict(evaluations=1, distinct_nontrivial=1, rule=RULE[prop], samples=[message[:1500]]), [], 1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  " + message[:3000])
    return 1


def explore(prop, conf, sim, seconds, built):
    t = time.time()
    summaries, fails, distinct = sim.explore(seconds)
    wall = time.time() - t
    tot = collections.Counter()
    counters = collections.Counter()
    draws = [0, 0, 0]
    for s in summaries:
        for k in ("runs", "ok", "violations", "failstop", "discarded", "steps", "syncops", "switches", "threads",
                  "simtime_ns", "allocs", "rechecks", "mismatches"):
            tot[k] += s[k]
        for k, v in s["counters"].items():
            counters[k] += v
        draws = [a + b for a, b in zip(draws, s["draws"])]
    if prop in PROBES:
        name, n = PROBES[prop]
        probe = Sim(name, sim.exe, sim.scratch)
        for i in range(n):
            r = probe.one(i)
            tot["probes"] += 1
            if r["status"] == 1:
                fails.append(dict(r, workload=name))
    known = known_findings(prop)
    fresh, seen_known = [], collections.Counter()
    for f in sorted(fails, key=lambda j: j["steps"]):
        for rx, what in known:
            if rx.search(f["kind"] + ": " + f["msg"]):
                seen_known[what] += 1
                break
        else:
            fresh.append(f)
    reported = []
    classes = set()
    unreproduced = []
    for f in fresh:
        sim = Sim(f.get("workload", prop), sim.exe, sim.scratch)
        if f["kind"] == "harness":
            die("harness error in run %d: %s" % (f["seed"], f["msg"][:2000]))
        if f["kind"] in classes or len(reported) >= 3:
            continue
        full = f["choices"]
        again = sim.replay([full, full])
        if not again or any(a["status"] != 1 or a["kind"] != f["kind"] for a in again):
            unreproduced.append(f)
            continue
        # (code that depends on something outside of the simulation may take another path to the same violation)
        exact = all(a["trace_hash"] == f["trace_hash"] for a in again)
        classes.add(f["kind"])
        small, tried = shrink(sim, full, f["kind"], 40 if TIER == "quick" else 120)
        r = sim.replay([small], verbose=True)
        if not r or r[0]["status"] != 1:
            small, tried, r = full, 0, sim.replay([full], verbose=True)
        r = r[0]
        data = dict(property=prop, workload=sim.prop, target=conf["target"], kind=r["kind"], tier=TIER, seed=SEED, run=f["seed"],
                    message=sim.symbolise(r["msg"]), steps=r["steps"], trace_hash=r["trace_hash"],
                    original_choices=[len(c) for c in full], minimised_choices=[len(c) for c in small],
                    shrink_attempts=tried, exact=exact, choices=small, trace=r["trace"].splitlines())
        path = replay_path(prop, data)
        fresh_result = sim.replay([small])
        if not fresh_result or fresh_result[0]["status"] != 1 or exact and fresh_result[0]["trace_hash"] != r["trace_hash"]:
            unreproduced.append(f)
            continue
        reported.append(path)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  seed %d run %d, %s: %s" % (SEED, f["seed"], r["kind"], data["message"][:3000]))
    samples = []
    sim = Sim(prop, sim.exe, sim.scratch)
    for i in (0, 1):
        o = sim.one(i)
        samples.append(dict(run=i, status=o["status"], steps=o["steps"], threads=o["threads"], switches=o["switches"],
                            trace=o["trace"][:1500].splitlines()))
    hours = wall * 1.0 / 3600
    cov = dict(
        evaluations=tot["runs"], distinct_nontrivial=distinct,
        rule=RULE[prop] + NONTRIVIAL,
        samples=samples,
        probe_runs=tot["probes"],
        runs_per_hour=int(tot["runs"] / hours), seeds_per_hour=int(tot["runs"] / hours),
        simulated_time_s=tot["simtime_ns"] / 1e9, instrumented_steps=tot["steps"], sync_operations=tot["syncops"],
        thread_switches=tot["switches"], threads=tot["threads"], sut_allocations=tot["allocs"],
        deterministic_reruns=tot["rechecks"], rerun_mismatches=tot["mismatches"],
        discarded_runs=tot["discarded"], failstop_runs=tot["failstop"],
        choices=dict(workload=draws[0], schedule=draws[1], fault=draws[2]),
        counters={k: v for k, v in sorted(counters.items()) if v},
        faults_injected={k: v for k, v in sorted(counters.items()) if v and re.match(
            r"fault_|msg_(dropped|trunc|corr|dup|delay|reord|stale|rewritten)|io_|dropped_|reentrant", k)},
        interleaving_measure="hash of the sequence of (thread, synchronisation operation) of a run",
        real_components=[conf.get("real", LIB)],
        stub_components=[STUB] + (conf["stub"] if isinstance(conf.get("stub"), list) else [conf.get("stub", DYN)]),
        explore_s=round(wall, 1), build_s=round(built, 1), workers=WORKERS)
    for what in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if known:
        cov["known_findings_seen"] = dict(seen_known)
    evidence(prop, "exploration", cov, conf.get("assume", []) + [
        "bounded sizes: schemas, documents, data and thread counts as generated (see DESIGN.md)",
        "sequentially consistent interleavings at instrumented accesses; races are reported by happens-before"], len(reported))
    print("%s: %d runs (%d distinct interleavings), %.0f s, %d violations" % (prop, tot["runs"], distinct, wall, len(fresh)))
    if reported:
        return 1
    if unreproduced:
        f = unreproduced[0]
        die("a violation did not replay: seed %d run %d %s %s" % (SEED, f["seed"], f["kind"], f["msg"][:1500]))
    if tot["mismatches"]:
        print("check: %d of %d repeated runs differ: the code depends on something outside of the simulation" %
              (tot["mismatches"], tot["rechecks"]), file=sys.stderr)
    if tot["ok"] + tot["failstop"] == 0:
        die("no run completed")
    return 0


def replay(path):
    d = json.load(open(path))
    if d.get("driver"):
        import importlib
        return importlib.import_module(d["driver"]).replay(d)
    try:
        exe = build.build([d["target"]])[d["target"]]
    except build.Broken as e:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print(e)
        return 1
    if d["kind"] == "generate":
        print("the violation does not happen on this tree")
        return 0
    scratch = tempfile.mkdtemp(prefix="sim-")
    try:
        global TIER
        TIER = d["tier"]
        sim = Sim(d.get("workload", d["property"]), exe, scratch)
        r = sim.replay([d["choices"]], verbose=True)[0]
        print(r["trace"])
        print(r["kind"], sim.symbolise(r["msg"]))
        if r["status"] != 1:
            print("the violation does not happen on this tree")
            return 0
        print("same execution as recorded" if r["trace_hash"] == d["trace_hash"] else "a different execution")
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build.build(sorted({c["target"] for c in CONF.values() if c.get("target")}))
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if len(a) == 1 and a[0] in CONF:
        return check(a[0])
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())
