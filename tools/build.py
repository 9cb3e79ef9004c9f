#!/usr/bin/env python3
"""Content-addressed build of the simulator from /repo's working tree.

Objects are keyed by the hash of (flags, compiler, preprocessed text), so an edit that changes no
code (comments) or is reverted costs nothing.  Everything goes to /verif/build (git ignores it).
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "g++"
WARN = ["-w"]
BASE = ["-std=gnu++17", "-DNDEBUG", "-fno-pie"]
SIM = BASE + ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
RT = BASE + ["-O2", "-g1"]
PLAIN = BASE + ["-O0", "-g1"]
INC = ["-I", REPO + "/include"]
WRAP = "-Wl," + ",".join("--wrap=" + f for f in
                         ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen"))
MAINS = {"SchemaGenerator.cpp", "ClientGenerator.cpp", "GeneratorUtil.cpp", "GeneratorLoader.cpp",
         "RequestLoader.cpp", "SchemaLoader.cpp"}
RT_SOURCES = ("rt.cpp", "vfs.cpp", "main.cpp")
LOCK = None
_version = None


def version():
    global _version
    if _version is None:
        _version = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    return _version


def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write(what + " failed:\n" + p.stderr[-6000:] + "\n")
        raise SystemExit(2)
    return p.stdout


def stat_sig(path):
    try:
        s = os.stat(path)
        return [s.st_mtime_ns, s.st_size]
    except OSError:
        return None


class Index:
    """(source, flags) -> dependency stats and object key of the last build: the fast path"""

    def __init__(self):
        self.path = os.path.join(BUILD, "index.json")
        try:
            self.d = json.load(open(self.path))
        except Exception:
            self.d = {}

    def save(self):
        tmp = self.path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.d, f)
        os.replace(tmp, self.path)


def compile_one(index, src, flags):
    ident = hashlib.sha256("\0".join([src] + flags).encode()).hexdigest()
    e = index.d.get(ident)
    if e and os.path.exists(e["obj"]) and all(stat_sig(p) == s for p, s in e["deps"].items()):
        return e["obj"]
    dep = os.path.join(BUILD, "tmp", ident + ".d")
    # -P drops line numbers: comment edits keep the key
    text = run([CXX, *flags, "-E", "-P", "-MD", "-MF", dep, "-MT", "x", src], "preprocessing " + src)
    key = hashlib.sha256((version() + "\0".join(flags) + text).encode()).hexdigest()
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        t = time.time()
        try:
            run([CXX, *flags, "-c", src, "-o", tmp], "compiling " + src)
        except SystemExit:
            # sources the generators wrote; the harness' own next to them are named *glue.cpp
            if src.startswith(os.path.join(BUILD, "gen")) and not src.endswith("glue.cpp"):
                raise Broken("generated code does not compile: " + os.path.basename(src))
            raise
        os.replace(tmp, obj)
        print("build: %s %.0f s" % (os.path.basename(src), time.time() - t), file=sys.stderr)
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    index.d[ident] = {"obj": obj, "deps": {p: stat_sig(p) for p in deps}}
    return obj


def compile_all(jobs):
    """jobs: list of (src, flags); returns objects in order"""
    index = Index()
    weight = {"SyntaxTree.cpp": 9, "GraphQLService.cpp": 5, "IntrospectionSchema.cpp": 4, "Validation.cpp": 4}
    order = sorted(range(len(jobs)), key=lambda i: -weight.get(os.path.basename(jobs[i][0]), 2))
    out = [None] * len(jobs)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {i: ex.submit(compile_one, index, *jobs[i]) for i in order}
        try:
            for i, f in fs.items():
                out[i] = f.result()
        finally:
            index.save()
    return out


def link(name, objs, flags):
    key = hashlib.sha256(("\0".join(objs + flags) + version()).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run([CXX, *objs, "-o", tmp, *flags], "linking " + name)
        os.replace(tmp, exe)
    return exe


def lock():
    global LOCK
    for d in ("tmp", "obj", "bin", "gen"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    LOCK = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(LOCK, fcntl.LOCK_EX)


def unlock():
    LOCK.close()


def library():
    return sorted(p for p in glob.glob(REPO + "/src/*.cpp") if os.path.basename(p) not in MAINS)


def harness(groups):
    h = os.path.join(HERE, "sim", "harness")
    return sorted(set(p for g in groups for p in glob.glob(os.path.join(h, g))))


def sim(name, sources, extra_inc=()):
    """instrumented objects first, the runtime last"""
    inc = INC + [x for i in extra_inc for x in ("-I", i)] + ["-I", os.path.join(HERE, "sim", "harness")]
    jobs = [(s, SIM + WARN + INC) for s in library()]
    jobs += [(s, SIM + WARN + inc) for s in sources]
    jobs += [(os.path.join(HERE, "sim", "rt", f), RT + WARN) for f in RT_SOURCES]
    objs = compile_all(jobs)
    return link(name, objs, ["-no-pie", WRAP, "-ldl", "-lpthread"])


def build_dyn():
    return sim("dyn", harness(["common.cpp", "model.cpp", "mutate.cpp", "sdl.cpp", "dyn.cpp", "wl_*.cpp"]))


# ---- generated services ------------------------------------------------------------------------
GENDIR = os.path.join(HERE, "sim", "gen")
# options of schemagen per generated service (the index is that of emit.cpp)
GEN_OPTIONS = {0: ["--prefix", "A"], 1: ["--prefix", "B", "--separate-files", "--no-stubs", "--no-introspection"],
               2: ["--prefix", "C", "--separate-files"]}


def generators(extra=()):
    """schemagen and clientgen of the working tree, run natively"""
    lib = [(s, SIM + WARN + INC) for s in library()]
    src = lambda *n: [(os.path.join(REPO, "src", x), SIM + WARN + INC + ["-DUSE_STD_FILESYSTEM"]) for x in n]
    stub = [(os.path.join(GENDIR, x), RT + WARN) for x in ("tsan_stub.cpp",) + tuple(extra)]
    parts = [lib, src("GeneratorUtil.cpp", "GeneratorLoader.cpp", "SchemaLoader.cpp", "RequestLoader.cpp"),
             src("SchemaGenerator.cpp"), src("ClientGenerator.cpp"), stub]
    objs = compile_all([j for p in parts for j in p])
    out, k = [], 0
    for p in parts:
        out.append(objs[k:k + len(p)])
        k += len(p)
    lib, util, sg, cg, stub = out
    flags = ["-no-pie", "-lboost_program_options", "-lboost_filesystem", "-ldl", "-lpthread", "-rdynamic"]
    name = "".join("-" + x.split(".")[0] for x in extra)
    return (link("schemagen" + name, sg + util + lib + stub, flags),
            link("clientgen" + name, cg + util + lib + stub, flags))


def emitter():
    h = os.path.join(HERE, "sim", "harness")
    objs = compile_all([(p, RT + WARN) for p in (os.path.join(GENDIR, "emit.cpp"), h + "/model.cpp", h + "/sdl.cpp", h + "/client_doc.cpp")])
    return link("emit", objs, ["-no-pie"])


class Broken(Exception):
    """the generators fail, or what they generate does not compile"""


def generate(key, fill):
    """fill(directory) writes files; returns a directory named by their content: objects are reused
    when the generators change without effect"""
    d = os.path.join(BUILD, "gen", hashlib.sha256("\0".join(key).encode()).hexdigest()[:24])
    if not os.path.exists(d):
        tmp = d + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        fill(tmp)
        h = hashlib.sha256()
        for f in sorted(os.listdir(tmp)):
            h.update(f.encode() + b"\0" + open(os.path.join(tmp, f), "rb").read())
        c = os.path.join(BUILD, "gen", "c-" + h.hexdigest()[:24])
        if not os.path.exists(c):
            os.rename(tmp, c)
        else:
            shutil.rmtree(tmp)
        if os.path.lexists(d):
            os.unlink(d)
        os.symlink(os.path.basename(c), d)
    return os.path.realpath(d)


def run_generator(cmd, what):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Broken(what + " does not end: " + " ".join(cmd))
    if p.returncode:
        raise Broken("%s ends with %d: %s%s" % (what, p.returncode, p.stderr[-2000:], " ".join(cmd)))


def generated():
    """runs emit and schemagen; returns the directories, one per service"""
    schemagen = generators()[0]
    emit = emitter()
    dirs = []
    for i, opts in GEN_OPTIONS.items():
        def fill(tmp):
            run([emit, tmp, str(i)], "emit")
            run_generator([schemagen, "--schema", tmp + "/schema.graphql", "--namespace", "g%d" % i, "--source-dir", tmp,
                           "--header-dir", tmp] + opts, "schemagen")
        dirs.append(generate([schemagen, emit, str(i)] + opts, fill))
    return dirs


def clients(i, opts=()):
    """runs emit and clientgen; returns the directory with the clients of service i"""
    clientgen = generators()[1]
    emit = emitter()

    def fill(tmp):
        run([emit, tmp, str(i), "clients"], "emit")
        for line in open(tmp + "/clients.txt"):
            doc, prefix, op = line.split()
            run_generator([clientgen, "--schema", tmp + "/schema.graphql", "--request", tmp + "/" + doc, "--prefix", prefix,
                           "--namespace", "g%d" % i, "--source-dir", tmp, "--header-dir", tmp]
                          + list(opts) + (["--operation", op] if op != "-" else []), "clientgen")
    return generate([clientgen, emit, str(i)] + list(opts), fill)


def generated_jobs(dirs, inc):
    return [(f, SIM + WARN + inc + ["-I", d]) for d in dirs for f in sorted(glob.glob(d + "/*.cpp"))]


def build_gen():
    dirs = generated()
    inc = INC + ["-I", os.path.join(HERE, "sim", "harness")]
    jobs = [(s, SIM + WARN + INC) for s in library()]
    for s in harness(["common.cpp", "model.cpp", "dyn.cpp", "gen.cpp", "gwl_*.cpp"]):
        jobs.append((s, SIM + WARN + inc))
    jobs += generated_jobs(dirs, inc)
    jobs += [(os.path.join(HERE, "sim", "rt", f), RT + WARN) for f in RT_SOURCES]
    return link("gen", compile_all(jobs), ["-no-pie", WRAP, "-ldl", "-lpthread"])


def build_cli():
    services = generated()
    dirs = [services[0], services[2], clients(0), clients(2, ["--no-introspection"])]
    inc = INC + ["-I", os.path.join(HERE, "sim", "harness")]
    jobs = [(s, SIM + WARN + INC) for s in library()]
    for s in harness(["common.cpp", "model.cpp", "dyn.cpp", "gen.cpp", "client*.cpp", "cwl_*.cpp"]):
        jobs.append((s, SIM + WARN + inc))
    jobs += generated_jobs(dirs, inc)
    jobs += [(os.path.join(HERE, "sim", "rt", f), RT + WARN) for f in RT_SOURCES]
    return link("cli", compile_all(jobs), ["-no-pie", WRAP, "-ldl", "-lpthread"])


def build_io():
    """the generators on the I/O seam"""
    return list(generators(("io_shim.cpp",)))


TARGETS = {"io": build_io, "dyn": build_dyn, "gen": build_gen, "cli": build_cli}


def build(names):
    lock()
    try:
        return {n: TARGETS[n]() for n in names}
    finally:
        unlock()


if __name__ == "__main__":
    for n, p in build(sys.argv[1:] or list(TARGETS)).items():
        print(n, p)
