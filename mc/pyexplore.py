"""Exhaustive explorer for harnesses written in Python.

A scenario is a function that calls pick(n, what) for each decision; every sequence of answers is
run exactly once (depth first).  The first decision of a scenario is divided between the worker
processes.  Nothing is sampled."""
import json, mmap, os, signal, struct, sys, time, traceback

SCEN = []            # (name, function)
THOROUGH = False


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Run:
    def __init__(self):
        self.path = []       # answers to follow
        self.sizes = []
        self.names = []
        self.pos = 0
        self.cases = 0
        self.notes = None
        self.states = set()
        self.ntrans = 0
        self.stats = {}


R = Run()
SLOT = None
WORKER = (0, 1)


def publish():
    if SLOT is None:
        return
    b = json.dumps([R.scen, R.path[:R.pos]]).encode()[:4000]
    SLOT[8:12] = struct.pack("<I", 0)
    SLOT[12:12 + len(b)] = b
    SLOT[8:12] = struct.pack("<I", len(b))


def beat():
    if SLOT is not None:
        SLOT[0:8] = struct.pack("<Q", struct.unpack("<Q", SLOT[0:8])[0] + 1)


def pick(n, what="choice"):
    assert n > 0
    i = R.pos
    if i == len(R.path):
        first = WORKER[0] if i == 0 and R.replay is None else 0
        if first >= n:
            raise Skip()
        R.path.append(first)
        R.sizes.append(n)
        R.names.append(what)
        R.ntrans += 1
    elif R.replay is not None:
        R.sizes.append(n)
        R.names.append(what)
    assert R.path[i] < n, "not deterministic"
    R.pos += 1
    if R.notes is not None:
        R.notes.append("    [choice %d] %s: %d of %d" % (i, what, R.path[i], n))
    publish()
    return R.path[i]


def choose(seq, what="choice"):
    return seq[pick(len(seq), what)]


def note(fmt, *args):
    if R.notes is not None:
        R.notes.append("  " + (fmt % args if args else fmt))


def case():
    """one elementary case inside an execution"""
    R.cases += 1
    if R.cases & 255 == 0:
        beat()


def stat(name, n=1):
    """counts something for the evidence"""
    R.stats[name] = R.stats.get(name, 0) + n


def state(s):
    R.states.add(hash((R.scen, s)))


class Skip(Exception):
    pass


def onalarm(sig, frame):
    raise Hang()


def one(fn, limit=60):
    """runs one execution, returns None or the text of the violation"""
    R.pos = 0
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn()
    except Skip:
        raise
    except Violation as e:
        return str(e)
    except Hang:
        return "no end within %d s" % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        f = tb[-1]
        return "exception %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def explore(fn, scen, out):
    """all executions of one scenario that fall to this worker"""
    R.scen = scen
    R.path, R.sizes, R.names = [], [], []
    R.replay = None
    execs = nodes = depth = 0
    sample = None
    while True:
        start = len(R.path)
        R.notes = [] if execs == 0 else None
        try:
            v = one(fn)
        except Skip:
            break
        beat()
        execs += 1
        nodes += len(R.path) - max(0, start - 1)
        depth = max(depth, len(R.path))
        if execs == 1:
            sample = "\n".join(R.notes[:12])
        if v:
            out["violation"] = (scen, v, list(R.path))
            break
        # next sequence of answers
        while R.path:
            step = WORKER[1] if len(R.path) == 1 else 1
            if R.path[-1] + step < R.sizes[-1]:
                R.path[-1] += step
                R.ntrans += 1
                break
            R.path.pop(); R.sizes.pop(); R.names.pop()
        if not R.path:
            break
    out["scen"][scen] = {"executions": execs, "nodes": nodes, "depth": depth, "sample": sample}


def main(prop, describe):
    global THOROUGH, SLOT, WORKER
    a = sys.argv[1:]
    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    THOROUGH = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    if "--quick" in a:
        THOROUGH = False
    only, replay, evidence, cap = opt("--only"), opt("--replay"), opt("--evidence"), float(opt("--cap", "600"))
    signal.signal(signal.SIGALRM, onalarm)
    scens = [(n, f) for n, f, t in SCEN if (THOROUGH or not t) and (not only or n == only)]
    if replay:
        d = json.load(open(replay))
        if d.get("thorough"):
            THOROUGH = True
        f = dict((n, f) for n, f, t in SCEN)[d["scenario"]]
        R.scen, R.path, R.replay, R.notes, R.sizes, R.names = d["scenario"], d["path"], True, [], [], []
        v = one(f)
        print("\n".join(R.notes))
        if v:
            print("VIOLATION: " + v)
            print("replay: violation")
            sys.exit(1)
        print("replay: ok")
        sys.exit(0)
    t0 = time.time()
    n = os.cpu_count() or 4
    slots, pipes, pids = [], [], []
    for w in range(n):
        m = mmap.mmap(-1, 8192)
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            SLOT, WORKER = m, (w, n)
            out = {"scen": {}}
            for name, f in scens:
                explore(f, name, out)
                if "violation" in out:
                    break
            out["cases"], out["trans"], out["states"] = R.cases, R.ntrans, list(R.states)
            out["stats"] = R.stats
            b = json.dumps(out).encode()
            while b:
                b = b[os.write(wr, b):]
            os._exit(0)
        os.close(wr)
        slots.append(m); pipes.append(r); pids.append(pid)
    import select
    data = [b""] * n
    openp = set(range(n))
    last = [(-1, time.time())] * n
    viol = None
    bad = None
    while openp:
        r, _, _ = select.select([pipes[i] for i in openp], [], [], 1)
        for i in list(openp):
            if pipes[i] in r:
                d = os.read(pipes[i], 1 << 16)
                if d:
                    data[i] += d
                else:
                    openp.discard(i)
            c = struct.unpack("<Q", slots[i][0:8])[0]
            if c != last[i][0]:
                last[i] = (c, time.time())
            elif i in openp and time.time() - last[i][1] > 100:
                bad = (i, "no progress for 100 s")
                os.kill(pids[i], 9)
                openp.discard(i)
        if bad or time.time() - t0 > cap:
            break
    capped = bool(openp) and not bad
    if bad or capped:
        for i in range(n):
            try: os.kill(pids[i], 9)
            except OSError: pass
    res = []
    for i in range(n):
        _, st = os.waitpid(pids[i], 0)
        if data[i] and i not in openp and not (bad and bad[0] == i):
            res.append(json.loads(data[i]))
        elif not bad and not capped and st != 0:
            bad = (i, "the process ended with status %d (signal %d)" % (st >> 8, st & 127))
    for o in res:
        if "violation" in o and viol is None:
            viol = o["violation"]
    if viol is None and bad is not None:
        m = slots[bad[0]]
        l = struct.unpack("<I", m[8:12])[0]
        s, p = json.loads(m[12:12 + l].decode()) if l else ("?", [])
        viol = (s, bad[1], p)
    if viol:
        # a failure is reported only if running it again fails again
        f = dict((n, f) for n, f, t in SCEN).get(viol[0])
        if f and not bad:
            R.scen, R.path, R.replay, R.notes, R.sizes, R.names = viol[0], list(viol[2]), True, None, [], []
            if one(f) is None:
                print("error: failure not confirmed: %s: %s" % (viol[0], viol[1]))
                sys.exit(2)
    tot = {}
    for o in res:
        for k, s in o["scen"].items():
            t = tot.setdefault(k, {"executions": 0, "nodes": 0, "depth": 0, "sample": None})
            t["executions"] += s["executions"]; t["nodes"] += s["nodes"]; t["depth"] = max(t["depth"], s["depth"])
            t["sample"] = t["sample"] or s["sample"]
    execs = sum(s["executions"] for s in tot.values())
    nodes = sum(s["nodes"] for s in tot.values())
    cases = sum(o["cases"] for o in res)
    trans = sum(o["trans"] for o in res)
    stats = {}
    for o in res:
        for k, v in o["stats"].items(): stats[k] = stats.get(k, 0) + v
    dst = set(x for o in res for x in o["states"])
    print("%s %s: %d executions, %d elementary cases, %d states, %d transitions, %.1fs%s" % (prop, "thorough" if THOROUGH else "quick", execs, cases, nodes + len(dst), trans, time.time() - t0, " (cut by time)" if capped else ""))
    if evidence:
        ev = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": 1, "level": "model_checking",
              "coverage": {"states": nodes + len(dst), "transitions": trans, "traces_validated_against_impl": execs, "executions": execs,
                           "elementary_cases": cases, "distinct_decoder_states": len(dst), "capped": capped, "exhaustive": not capped,
                           "scenarios": "; ".join("%s: %d executions, %d choices, max depth %d" % (k, s["executions"], s["nodes"], s["depth"]) for k, s in tot.items()),
                           "counters": stats, "explanation": describe, "samples": ["scenario %s, first execution:\n%s" % (k, s["sample"]) for k, s in list(tot.items())[:4]]},
              "wall_s": round(time.time() - t0, 3), "violations": 1 if viol else 0}
        json.dump(ev, open(evidence, "w"), indent=1)
    if viol:
        d = os.environ.get("MC_REPLAY_DIR", "/tmp")
        p = os.path.join(d, "%s-%s.replay" % (prop, viol[0]))
        json.dump({"scenario": viol[0], "path": viol[2], "thorough": THOROUGH, "what": viol[1]}, open(p, "w"))
        print("scenario %s: %s" % (viol[0], viol[1]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    if capped:
        print("note: stopped by the time limit of %d s, every execution run until then passed" % cap)
    sys.exit(0)
