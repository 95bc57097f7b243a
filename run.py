#!/usr/bin/env python3
"""Builds the explorer of one property from /repo's working tree and runs it.

usage: run.py ID [--replay FILE] [--only NAME] [--bound N] [other engine options]
Exit status: 0 the property held on everything explored, 1 violation.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
CACHE = os.path.join(HERE, ".cache")

# property -> harness sources, flavour of the library objects
HARNESS = json.load(open(os.path.join(MC, "harness.json")))

LIB_ASAN = ["clang", "-std=gnu99", "-O1", "-g", "-fno-builtin", "-fno-omit-frame-pointer", "-w",
    "-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,shift-base,function",
    "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope"]
LIB_TSAN = ["clang", "-std=gnu99", "-O1", "-g", "-fno-builtin", "-w", "-fsanitize=thread",
    "-mllvm", "-tsan-instrument-func-entry-exit=0"]
CXX_LIB_ASAN = ["clang++", "-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-w", "-fsanitize=address,undefined",
    "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,shift-base,function,vptr", "-fno-sanitize-recover=all", "-DMC_ASAN"]
HARN = ["clang++", "-std=c++17", "-O2", "-g", "-w"]


def die(msg):
    print("error: " + msg)
    sys.exit(2)


def tree_key():
    h = hashlib.sha256()
    for d in ("include", "src"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".hpp", ".am")):
                    p = os.path.join(r, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def file_key(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def sources():
    """the sources of the library, as its own build file lists them"""
    t = open(os.path.join(REPO, "src", "Makefile.am")).read()
    m = re.search(r"libpomp_la_SOURCES\s*=((?:[^\n]*\\\n)*[^\n]*)", t)
    l = [s for s in re.split(r"[\s\\]+", m.group(1)) if s.endswith(".c")]
    if not l:
        die("no sources found")
    return [os.path.join(REPO, "src", s) for s in l]


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def compile_one(job):
    cmd, src, key = job
    k = hashlib.sha256((" ".join(cmd) + "\0" + src + "\0" + key).encode()).hexdigest()[:32]
    o = os.path.join(CACHE, k + ".o")
    if not os.path.exists(o):
        t = o + ".%d.tmp.o" % os.getpid() + hashlib.md5(src.encode()).hexdigest()[:6] + ".o"
        run(cmd + ["-c", src, "-o", t], None)
        os.rename(t, o)
    else:
        os.utime(o)
    return o


def symbols(o, defined):
    out = subprocess.run(["nm", "--defined-only" if defined else "-u", o], stdout=subprocess.PIPE, text=True).stdout
    return [l.split()[-1] for l in out.splitlines() if l.strip()]


def build(prop, bindir):
    h = HARNESS[prop]
    flavour = h.get("flavour", "asan")
    os.makedirs(CACHE, exist_ok=True)
    tk = tree_key()
    mk = file_key([os.path.join(MC, f) for f in sorted(os.listdir(MC)) if f.endswith((".h", ".hpp"))])
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    libflags = (LIB_ASAN if flavour == "asan" else LIB_TSAN) + ["-DHAVE_TIMER_CREATE", "-DPOMP_API_EXPORTS"] + inc
    harnflags = HARN + (["-DMC_ASAN"] if flavour == "asan" else ["-DMC_TSAN"])
    jobs = [(libflags, s, tk) for s in sources()]
    nlib = len(jobs)
    if h.get("cxxlib"):
        # the C++ interface is header code: the harness part that instantiates it is instrumented and renamed like the library
        for s in h["cxxlib"]:
            jobs.append((CXX_LIB_ASAN + inc + ["-I" + MC], os.path.join(MC, s), tk + mk + file_key([os.path.join(MC, s)])))
    nlib2 = len(jobs)
    for s in ["engine.cc"] + ([] if h.get("nosimk") else ["simk.cc"]) + (["racert.cc"] if flavour == "tsan" else []):
        jobs.append((harnflags, os.path.join(MC, s), mk + file_key([os.path.join(MC, s)])))
    for s in h["files"]:
        jobs.append((harnflags + inc + ["-I" + MC] + h.get("cflags", []), os.path.join(MC, s), tk + mk + file_key([os.path.join(MC, s)])))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, jobs))
    lib = os.path.join(bindir, "lib.o")
    run(["ld", "-r", "-o", lib] + objs[:nlib], None)
    others = objs[nlib2:]
    if not h.get("nosimk"):
        simos = [o for o, j in zip(objs, jobs) if j[1].endswith(("simk.cc", "racert.cc"))]
        sim = [s for x in simos for s in symbols(x, True) if s.startswith("sim_")]
        with open(os.path.join(bindir, "redef"), "w") as f:
            for s in sim:
                f.write("%s %s\n" % (s[4:], s))
        run(["objcopy", "--redefine-syms=" + os.path.join(bindir, "redef"), lib], None)
    extra = []
    for o in objs[nlib:nlib2]:
        if not h.get("nosimk"):
            x = os.path.join(bindir, "cxx%d.o" % len(extra))
            # allocation stays with the C++ runtime; only calls into the system are redirected
            extra.append(o)
        else:
            extra.append(o)
    exe = os.path.join(bindir, "mc")
    link = ["clang++", "-o", exe, lib] + extra + others + h.get("ldflags", [])
    if flavour == "asan":
        link += ["-fsanitize=address,undefined"]
    run(link + ["-lpthread", "-lrt", "-ldl"], None)
    return exe


def build_so(bindir):
    """the library as a shared object, for harnesses written in Python"""
    os.makedirs(CACHE, exist_ok=True)
    flags = ["clang", "-std=gnu99", "-O1", "-g", "-w", "-fPIC", "-DHAVE_TIMER_CREATE", "-DPOMP_API_EXPORTS",
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    tk = tree_key()
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, [(flags, s, tk) for s in sources()]))
    so = os.path.join(bindir, "libpomp.so")
    run(["clang", "-shared", "-o", so] + objs + ["-lpthread", "-lrt"], None)
    return so


def prune_cache():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs.sort(key=os.path.getmtime)
        for f in fs[:-600]:
            os.unlink(f)
    except OSError:
        pass


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in HARNESS:
        die("usage: run.py PROPERTY [engine options]")
    prop = sys.argv[1]
    rest = sys.argv[2:]
    thorough = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in rest
    h = HARNESS[prop]
    work = tempfile.mkdtemp(prefix="mc-" + prop + "-")
    try:
        t0 = time.time()
        exe = build_so(work) if "py" in h else build(prop, work)
        prune_cache()
        if os.environ.get("MC_VERBOSE"):
            print("built in %.1fs" % (time.time() - t0))
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        env = dict(os.environ)
        env["MC_REPLAY_DIR"] = rd
        env["MC_WORK"] = work
        env["MC_VERIF"] = HERE
        env["MC_REPO"] = REPO
        env["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:allocator_may_return_null=1:malloc_context_size=8:handle_abort=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env["TZ"] = "UTC"
        cap = h.get("cap_thorough", 3300) if thorough else h.get("cap_quick", 600)
        args = [exe, "--prop", prop, "--dir", work, "--cap", str(cap)]
        if "--replay" not in rest and "--only" not in rest and "--list" not in rest and "--sample" not in rest and not os.environ.get("MC_NOEVIDENCE"):
            args += ["--evidence", os.path.join(HERE, "evidence", prop + ".json")]
        if "py" in h:
            env["MC_SO"] = exe
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            args[:1] = [sys.executable, os.path.join(MC, h["py"])]
        p = subprocess.run(args + rest, env=env)
        sys.stdout.flush()
        rc = p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rc < 0 or rc > 1:
        print("error: the explorer ended with status %d" % rc)
        sys.exit(2)
    sys.exit(rc)


main()
