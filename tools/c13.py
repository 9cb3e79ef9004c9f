"""C13: the code generators on a failing disk.

The generators of the working tree run as they are, one process per run, on real scratch
directories; every file operation they make passes sim/gen/io_shim.cpp, which numbers it and injects
the planned fault.  A history is one or two faulted runs on the same directories and a run without
faults after them; scenario, state of the directories and faults are drawn from the seed.
"""
import collections, hashlib, json, os, random, re, shutil, subprocess, tempfile, threading, time

import build

KILLED = 77
TIMEOUT = 60
LINE = re.compile(r"^(\d+) (\S+) (\S+) (\d+)(?: ! (\S+))?$")


# ---- inputs ------------------------------------------------------------------------------------
def big_schema(n):
    o = ['schema { query: T0 }\n', 'interface Node { id: ID! }\n', 'enum Color { RED GREEN BLUE }\n',
         'input In { a: Int = 3, b: [String!] = ["x", "y"], c: Color = RED }\n']
    for i in range(n):
        o.append('"""\nType %d, with a description\n"""\ntype T%d implements Node {\n  id: ID!\n' % (i, i))
        for k in range(8):
            o.append('  "field %d"\n  f%d(x: Int = %d, y: In = {a: 1}, z: [Float!]): [T%d!]\n' % (k, k, k, (i * 7 + k) % n))
        o.append('}\n')
    o.append('union U = ' + ' | '.join('T%d' % i for i in range(n)) + '\n')
    return "".join(o)


def prepare(inputs, emit):
    """writes the input files and returns the scenarios"""
    os.makedirs(inputs)
    samples = os.path.join(build.REPO, "samples")
    for f in os.listdir(samples):
        if f.endswith(".graphql"):
            shutil.copy(os.path.join(samples, f), inputs)
    for n, name in ((60, "big"), (3, "small")):
        with open(os.path.join(inputs, name + ".graphql"), "w") as f:
            f.write(big_schema(n))
    with open(os.path.join(inputs, "broken.graphql"), "w") as f:
        f.write(big_schema(3)[:-40])
    with open(os.path.join(inputs, "wrong.request.graphql"), "w") as f:
        f.write("query { nowhere }")
    m = os.path.join(inputs, "model")
    os.makedirs(m)
    subprocess.run([emit, m, "0", "clients"], check=True)
    out = []

    def schemagen(schema, *opts, dirs="same"):
        out.append(dict(tool=0, name="schemagen %s %s %s" % (schema, " ".join(opts), dirs), dirs=dirs,
                        args=["--schema", "IN/" + schema, "--prefix", "P", "--namespace", "ns"] + list(opts)))

    def clientgen(schema, request, *opts, dirs="same"):
        out.append(dict(tool=1, name="clientgen %s %s %s %s" % (schema, request, " ".join(opts), dirs), dirs=dirs,
                        args=["--schema", "IN/" + schema, "--request", "IN/" + request, "--prefix", "P", "--namespace", "ns"]
                        + list(opts)))
    for schema in ("small.graphql", "schema.today.graphql", "model/schema.graphql", "big.graphql", "schema.validation.graphql"):
        if not os.path.exists(os.path.join(inputs, schema)):
            continue
        for k, opts in enumerate(([], ["--separate-files"], ["--no-stubs"], ["--no-introspection", "--verbose"],
                     ["--separate-files", "--verbose", "--no-stubs"], ["--separate-files", "--no-introspection"])):
            schemagen(schema, *opts, dirs=("same", "apart", "cwd")[(k + len(out)) % 3])
    out.append(dict(tool=0, name="schemagen --introspection", dirs="cwd", args=["--introspection", "--verbose"]))
    for r in ("query", "mutate", "subscribe", "client.benchmark"):
        if os.path.exists(os.path.join(inputs, r + ".today.graphql")):
            clientgen("schema.today.graphql", r + ".today.graphql", *(["--verbose"] if r == "query" else []),
                      dirs="apart" if r == "mutate" else "cwd" if r == "subscribe" else "same")
    for line in open(os.path.join(m, "clients.txt")):
        doc, prefix, op = line.split()
        clientgen("model/schema.graphql", "model/" + doc, *(["--operation", op] if op != "-" else []),
                  *(["--no-introspection"] if len(out) % 3 == 0 else []), dirs=("same", "apart")[len(out) % 2])
    # these have to fail
    schemagen("broken.graphql")
    schemagen("nowhere.graphql")
    schemagen("small.graphql", dirs="missing")
    schemagen("small.graphql", "--separate-files", dirs="taken")
    clientgen("schema.today.graphql", "wrong.request.graphql")
    clientgen("schema.today.graphql", "nowhere.graphql")
    clientgen("schema.today.graphql", "query.today.graphql", dirs="missing")
    return out


# ---- running -----------------------------------------------------------------------------------
class Runner:
    def __init__(self, tools, inputs, root):
        self.tools, self.inputs, self.root = tools, inputs, root

    def reset(self, scenario, initial, reference=None):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root + "/h")
        os.makedirs(self.root + "/s")
        os.symlink(self.inputs, self.root + "/IN")
        if scenario["dirs"] == "missing":
            os.rmdir(self.root + "/h")
        if scenario["dirs"] == "taken": # a directory where a file should go
            os.makedirs(self.root + "/h/T1Object.h")
        if initial and reference:
            for i, (f, data) in enumerate(sorted(reference["files"].items())):
                k = (initial + i) % 6
                half = len(data) // 2
                old = (b"", data + b"// old\n" * 400, data[:half], b"x" * 20000, data[:half] + bytes(b ^ 1 for b in data[half:]), data)[k]
                if k or initial % 2:
                    with open(self.root + f, "wb") as o:
                        o.write(old)

    def command(self, scenario):
        d = scenario["dirs"]
        a = [x.replace("IN/", self.root + "/IN/", 1) if x.startswith("IN/") else x for x in scenario["args"]]
        if d != "cwd":
            h = self.root + "/h"
            a += ["--header-dir", h, "--source-dir", self.root + "/s" if d == "apart" else h]
        return [self.tools[scenario["tool"]]] + a

    def run(self, scenario, plan, full_stdout=False):
        log, out = self.root + ".log", self.root + ".out"
        for f in (log, out):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(PATH="/usr/bin:/bin", IO_ROOT=self.root, IO_LOG=log,
                   IO_PLAN=",".join("%d:%s:%d" % (at, what, arg) for at, what, arg in plan))
        with open("/dev/full" if full_stdout else out, "wb") as o:
            p = subprocess.Popen(self.command(scenario), stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.PIPE, env=env,
                                 cwd=self.root + "/h" if os.path.isdir(self.root + "/h") else self.root)
            try:
                err = p.communicate(timeout=TIMEOUT)[1]
                hang = False
            except subprocess.TimeoutExpired:
                p.kill()
                err, hang = p.communicate()[1], True
        ops = open(log).read().splitlines() if os.path.exists(log) else []
        return dict(rc=p.returncode, err=err.decode("utf-8", "replace").replace(self.root, ""), hang=hang, ops=ops,
                    out=b"" if full_stdout else open(out, "rb").read().replace(self.root.encode(), b""), files=self.snapshot())

    def snapshot(self):
        d = {}
        for sub in ("/h", "/s"):
            for base, _, names in os.walk(self.root + sub):
                for n in names:
                    p = os.path.join(base, n)
                    d[p[len(self.root):]] = open(p, "rb").read()
        return d


def summary(run):
    return "exit %s%s, stderr %r" % (run["rc"], " (no end)" if run["hang"] else "", run["err"][:200])


def judge(run, ref, faulty):
    """what is wrong with a run, or None"""
    if run["hang"]:
        return "hang", "the run does not end"
    if run["rc"] == KILLED and any(l.endswith((" kill", " torn")) for l in run["ops"]):
        return None
    if run["rc"] < 0:
        return "crash", "the run ends by signal %d" % -run["rc"]
    if run["rc"] == 0:
        if ref["rc"]:
            return "success", "the run reports success on input that has to fail"
        for f, data in sorted(ref["files"].items()):
            got = run["files"].get(f)
            if got != data:
                at = next((i for i, (x, y) in enumerate(zip(got or b"", data)) if x != y), min(len(got or b""), len(data)))
                return "incomplete", "exit 0, but %s %s" % (f, "does not exist" if got is None else
                    "has %d bytes, differing at %d; complete it has %d" % (len(got), at, len(data)))
        if run["out"] != ref["out"] and not run.get("full_stdout"):
            return "list", "exit 0, but the list of files is %r instead of %r" % (run["out"][:300], ref["out"][:300])
        if run.get("full_stdout") and ref["out"]:
            return "list", "exit 0, but the list of files could not be written"
        return None
    if not run["err"].strip():
        return "silent", "the run fails (%d) without a diagnostic" % run["rc"]
    if not faulty and not ref["rc"]:
        return "spurious", "the run fails though no operation has failed: " + run["err"][:300]
    return None


def execute(runner, ref, history):
    """-> (kind, message, trace) ; kind None if all is well"""
    sc = history["scenario"]
    runner.reset(sc, history["initial"], ref)
    trace, stats = [sc["name"] + ", directories " + ("empty" if not history["initial"] else "with older files (%d)" % history["initial"])], []
    for i, step in enumerate(history["steps"] + [dict(plan=[])]):
        last = i == len(history["steps"])
        run = runner.run(sc, step["plan"], step.get("full_stdout", False))
        run["full_stdout"] = step.get("full_stdout", False)
        hit = [l for l in run["ops"] if " ! " in l]
        stats.append((len(run["ops"]), hit))
        trace.append("run %d, faults %s: %s" % (i, ["%d:%s" % (a, w) for a, w, _ in step["plan"]] if not last else "none", summary(run)))
        trace += ["  " + l for l in (run["ops"] if len(run["ops"]) < 60 else hit)]
        bad = judge(run, ref, bool(hit) or run["full_stdout"])
        if not bad and last and run["rc"] != ref["rc"]:
            bad = "spurious", "the run after the failed ones ends with %d instead of %d: %s" % (run["rc"], ref["rc"], run["err"][:300])
        if bad:
            return bad[0], "%s: run %d%s: %s" % (sc["name"], i, ", without faults, after the failed ones," if last else "", bad[1]), trace, stats
    return None, "", trace, stats


# ---- drawing -----------------------------------------------------------------------------------
FAULTS = {
    "open": ["EACCES", "ENOENT", "EMFILE", "EIO", "kill"],
    "create": ["EACCES", "ENOSPC", "EMFILE", "EIO", "EROFS", "full", "kill"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EINTR", "short", "full", "torn", "kill"],
    "read": ["EIO", "EINTR", "short", "kill"],
    "fstat": ["EIO", "ENOMEM", "kill"],
    "mmap": ["ENOMEM", "ENODEV", "EIO", "kill"],
    "close": ["EIO", "ENOSPC", "EDQUOT", "lost", "kill"],
    "flush": ["ENOSPC", "EIO", "full", "kill"],
    "rename": ["EIO", "ENOSPC", "EACCES", "kill"],
    "fsync": ["EIO", "ENOSPC", "kill"],
}


def draw(rng, scenarios, refs):
    sc = scenarios[rng.randrange(len(scenarios))]
    if rng.random() < 0.3:  # the ones with many files
        many = [s for s in scenarios if "--separate-files" in s["args"]]
        sc = rng.choice(many)
    ref = refs[sc["name"]]
    kinds = collections.defaultdict(list)
    for l in ref["ops"]:
        m = LINE.match(l)
        if m:
            kinds[m.group(2)].append(int(m.group(1)))
    steps = []
    for _ in range(1 if rng.random() < 0.7 else 2):
        plan = {}
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            if not kinds:
                break
            kind = rng.choice(sorted(kinds))
            at = rng.choice(kinds[kind] if rng.random() < 0.7 else kinds[kind][:3] + kinds[kind][-3:])
            plan[at] = (at, rng.choice(FAULTS.get(kind, ["kill"])), rng.choice((0, 1, 300, 500, 900, 999)))
        step = dict(plan=[list(plan[k]) for k in sorted(plan)])
        if rng.random() < 0.05:
            step["full_stdout"] = True
        steps.append(step)
    return dict(scenario=sc, initial=rng.choice((0, 0, 1, 2, 3, 4, 5, 6)), steps=steps)


def shrink(runner, ref, history, kind, seconds):
    end, tried = time.time() + seconds, 0

    def bad(h):
        nonlocal tried
        tried += 1
        return execute(runner, ref, h)[0] == kind
    best = history
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = []
        for i in range(len(best["steps"])):
            cands.append(dict(best, steps=best["steps"][:i] + best["steps"][i + 1:]))
            s = best["steps"][i]
            for k in range(len(s["plan"])):
                cands.append(dict(best, steps=best["steps"][:i] + [dict(s, plan=s["plan"][:k] + s["plan"][k + 1:])] + best["steps"][i + 1:]))
            if s.get("full_stdout"):
                cands.append(dict(best, steps=best["steps"][:i] + [dict(plan=s["plan"])] + best["steps"][i + 1:]))
        if best["initial"]:
            cands.append(dict(best, initial=0))
        for c in cands:
            if time.time() < end and bad(c):
                best, progress = c, True
                break
    return best, tried


# ---- check -------------------------------------------------------------------------------------
def tools():
    build.lock()
    try:
        return build.TARGETS["io"](), build.emitter()
    finally:
        build.unlock()


def references(runner, scenarios):
    """(runs without faults, or what is wrong with them)"""
    refs = {}
    for sc in scenarios:
        got = []
        for _ in range(2):
            runner.reset(sc, 0)
            got.append(runner.run(sc, []))
        a, b = got
        if a["rc"] != b["rc"] or a["files"] != b["files"] or a["out"] != b["out"]:
            return None, ("unstable", "%s: two runs without faults differ: %s; %s" % (sc["name"], summary(a), summary(b)), sc)
        if a["rc"] == KILLED or (a["rc"] and not a["err"].strip()) or a["rc"] < 0:
            return None, ("crash", "%s: %s" % (sc["name"], summary(a)), sc)
        for f in a["out"].decode().split() if not a["rc"] else []:
            f = f if f.startswith("/") else "/h/" + f
            if f not in a["files"] or not a["files"][f].endswith(b"\n"):
                return None, ("incomplete", "%s: %s is announced, but %s" % (sc["name"], f, "not complete" if f in a["files"] else "not there"), sc)
        expect = sc["dirs"] in ("missing", "taken") or "nowhere" in sc["name"] or "broken" in sc["name"] or "wrong" in sc["name"]
        if expect != bool(a["rc"]):
            return None, ("success" if expect else "spurious", "%s: %s" % (sc["name"], summary(a)), sc)
        refs[sc["name"]] = a
    return refs, None


def check(main, prop):
    t0 = time.time()
    exes, emit = tools()
    built = time.time() - t0
    seconds = main.CONF[prop]["secs"][main.TIER == "thorough"]
    if os.environ.get("SIM_SECONDS"):
        seconds = float(os.environ["SIM_SECONDS"])
    scratch = tempfile.mkdtemp(prefix="sim-c13-")
    try:
        return explore(main, prop, exes, emit, scratch, seconds, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(main, prop, kind, message, history, trace, extra):
    data = dict(property=prop, driver="c13", kind=kind, tier=main.TIER, seed=main.SEED, message=message, history=history,
                trace=trace, choices=json.loads(json.dumps(history)), **extra)
    path = main.replay_path(prop, data)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  seed %d run %s, %s: %s" % (main.SEED, extra.get("run", "-"), kind, message[:3000]))
    return path


def explore(main, prop, exes, emit, scratch, seconds, built):
    inputs = scratch + "/in"
    scenarios = prepare(inputs, emit)
    refs, wrong = references(Runner(exes, inputs, scratch + "/ref"), scenarios)
    if wrong:
        kind, message, sc = wrong
        main.evidence(prop, "exploration", dict(evaluations=1, distinct_nontrivial=1, rule=main.RULE[prop], samples=[message[:1500]]), [], 1)
        report(main, prop, kind, message, dict(scenario=sc, initial=0, steps=[]), [], {})
        return 1
    n = main.WORKERS
    lock = threading.Lock()
    tot, kinds, faults, done_ops = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    distinct, fails, samples = set(), [], []
    end = time.time() + seconds
    broken = []

    def worker(w):
        runner = Runner(exes, inputs, scratch + "/w%d" % w)
        i = w
        try:
            while time.time() < end and not (len(fails) >= 12):
                rng = random.Random(main.SEED * 1000003 + i)
                h = draw(rng, scenarios, refs)
                kind, msg, trace, stats = execute(runner, refs[h["scenario"]["name"]], h)
                recheck = None
                if i % 50 < n: # the same history again is the same execution
                    recheck = execute(runner, refs[h["scenario"]["name"]], h)
                with lock:
                    tot["histories"] += 1
                    tot["processes"] += len(stats)
                    if recheck:
                        tot["rechecks"] += 1
                        if recheck[:3] != (kind, msg, trace):
                            tot["mismatches"] += 1
                            broken.append((i, trace, recheck[2]))
                    hits = [l for _, hs in stats for l in hs]
                    for ops, hs in stats:
                        tot["operations"] += ops
                        for l in hs:
                            m = LINE.match(l)
                            faults["%s:%s" % (m.group(2), m.group(5))] += 1
                    if any(s.get("full_stdout") for s in h["steps"]):
                        faults["stdout:full"] += 1
                    if hits:
                        distinct.add(hashlib.sha256("\n".join(trace).encode()).hexdigest())
                    if len(samples) < 2:
                        samples.append(dict(run=i, trace=trace[:12]))
                    if kind:
                        fails.append((i, kind, msg, h))
                i += n
        except Exception as e:
            import traceback
            with lock:
                broken.append(("harness", traceback.format_exc(), ""))
    t = time.time()
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(n)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    wall = time.time() - t
    harness = [b for b in broken if b[0] == "harness"]
    if harness:
        main.die(harness[0][1])
    reported, seen, unreproduced = [], set(), []
    runner = Runner(exes, inputs, scratch + "/w0")
    known = main.known_findings(prop)
    for i, kind, msg, h in sorted(fails, key=lambda f: sum(len(s["plan"]) for s in f[3]["steps"])):
        if any(rx.search(kind + ": " + msg) for rx, _ in known):
            continue
        if kind in seen or len(reported) >= 3:
            continue
        ref = refs[h["scenario"]["name"]]
        if execute(runner, ref, h)[0] != kind:
            unreproduced.append((i, kind, msg))
            continue
        seen.add(kind)
        small, tried = shrink(runner, ref, h, kind, 40)
        k, m, trace, _ = execute(runner, ref, small)
        reported.append(report(main, prop, k, m, small, trace, dict(run=i, shrink_attempts=tried)))
    for rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    hours = max(wall, 1e-3) / 3600
    main.evidence(prop, "exploration", dict(
        evaluations=tot["histories"], distinct_nontrivial=len(distinct),
        rule=main.RULE[prop] + " Non-trivial: a fault was injected; distinct: the sequence of operations, faults and outcomes "
             "differs from every other history's.",
        samples=samples, runs_per_hour=int(tot["histories"] / hours), seeds_per_hour=int(tot["histories"] / hours),
        generator_processes=tot["processes"], file_operations=tot["operations"], simulated_time_s=0,
        scenarios=len(scenarios), deterministic_reruns=tot["rechecks"], rerun_mismatches=tot["mismatches"],
        faults_injected=dict(sorted(faults.items())), interleaving_measure="hash of operations, faults and outcomes of a history",
        real_components=["schemagen and clientgen with the whole library, libstdc++ streams, boost program_options, the kernel's files"],
        stub_components=["open, write, read, fstat, mmap, close and stdout pass a seam that injects the planned faults"],
        explore_s=round(wall, 1), build_s=round(built, 1), workers=n),
        ["a killed process loses its own buffers only: what it handed to the kernel stays (no power failure)",
         "bounded inputs: the scenarios listed in tools/c13.py"], len(reported))
    print("%s: %d histories (%d distinct), %d generator runs, %.0f s, %d violations"
          % (prop, tot["histories"], len(distinct), tot["processes"], wall, len(fails)))
    if reported:
        return 1
    if unreproduced:
        main.die("a violation did not replay: run %s %s %s" % unreproduced[0])
    if tot["mismatches"]:
        main.die("%d of %d repeated histories differ: %s" % (tot["mismatches"], tot["rechecks"], broken[0]))
    if not tot["histories"]:
        main.die("no history completed")
    return 0


def replay(d):
    exes, emit = tools()
    scratch = tempfile.mkdtemp(prefix="sim-c13-")
    try:
        inputs = scratch + "/in"
        prepare(inputs, emit)
        sc = d["history"]["scenario"]
        runner = Runner(exes, inputs, scratch + "/w0")
        refs, wrong = references(runner, [sc])
        if wrong:
            kind, msg, trace = wrong[0], wrong[1], []
        else:
            kind, msg, trace, _ = execute(runner, refs[sc["name"]], d["history"])
        print("\n".join(trace))
        if not kind:
            print("the violation does not happen on this tree")
            return 0
        print(kind, msg)
        print("same execution as recorded" if trace == d["trace"] else "a different execution")
        print("VIOLATION property=%s" % d["property"])
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
