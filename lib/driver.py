"""The machinery every check shares. See DESIGN.md."""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from props import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 8


RUNS = itertools.count()


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.p = PROPS[pid]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        if self.p.get("heights"):
            os.environ["RRBH_HEIGHTS"] = "1"
        self.scratch = os.path.join(HERE, "scratch", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.replay = os.path.join(HERE, "replay")
        os.makedirs(self.replay, exist_ok=True)
        self.paths = {}       # histories the models went through, by model
        self.sessions = []    # what the models did with a focus
        self.inputs = []      # what the models were given to sort, to search
        self.models = []      # what TLC explored on the design side
        self.cov = {"worlds": 0, "events": 0, "crashes": 0, "suspects": 0, "not_own": []}
        self.violations = []
        self.samples = []
        self.hooks = True
        self.unjudged = False

    def elapsed(self):
        return time.time() - self.t0


# ---------------------------------------------------------------------------------------- build

def builds(ctx):
    """What is built: a node width, and with or without debug assertions. The width as shipped goes without; the
    others are looked at both ways."""
    return ["4", "4r", "64r"] if ctx.quick else ["4", "4r", "8", "8r", "64", "64r"]


def cargo(build, hooks, target):
    width, bare = int(build.rstrip("r")), build.endswith("r")
    flags = ""
    if hooks:
        flags = "--cfg librrb_verif" + ("" if width == 64 else " --cfg librrb_verif_w%d" % width)
    env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_TARGET_DIR", None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", "bare" if bare else "dev", "--target-dir", target],
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout, os.path.join(target, "bare" if bare else "debug", "rrbh")


def build(ctx):
    """Builds the harness against the working tree of /repo: one binary a node width."""
    base = os.environ.get("RRBH_TARGET", os.path.join(HARNESS, "target"))
    want = builds(ctx)
    with ThreadPoolExecutor(6) as ex:
        got = list(ex.map(lambda b: cargo(b, True, os.path.join(base, "w" + b)), want))
    ctx.bins = {}
    if all(ok for ok, _, _ in got):
        for b, (_, _, path) in zip(want, got):
            ctx.bins[b] = path
            ctx.bins.setdefault(int(b.rstrip("r")), path)
        return
    # the hooks may not survive a change to the code: everything but the tree's shape is public
    ok, out, path = cargo("64r", False, os.path.join(base, "plain"))
    if not ok:
        raise ToolError("the harness does not build against /repo:\n" + out[-3000:])
    log("note: the hooks do not build; running without them")
    ctx.hooks = False
    ctx.bins = {64: path, "64r": path}
    if ctx.p.get("shapes") or ctx.p.get("heights"):
        raise ToolError("this check needs the hook, which does not build:\n" + got[0][1][-3000:])


# ---------------------------------------------------------------------------------------- TLC

def tlc(ctx, module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=()):
    meta = os.path.join(ctx.scratch, "md-%s-%d" % (module, next(RUNS)))
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return out


def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def judge(ctx, trace, timeout=None):
    """None if the trace is a behaviour of the specification; else (line number, reason)."""
    out = tlc(ctx, "VecTrace", "VecTrace.cfg", {"TRACE": trace}, timeout=timeout or (200 if ctx.quick else 1500))
    return verdict(out, trace)


class Unfinished(Exception):
    pass


def verdict(out, trace):
    bad = re.search(r'<<"BAD", (\d+), "([^"]*)">>', out)
    if bad:
        return int(bad.group(1)), bad.group(2)
    read = re.search(r'<<"READ", (\d+), (\d+)>>', out)
    if out.endswith("\nTIMEOUT"):
        raise Unfinished(trace)
    if not read:
        raise ToolError("TLC gave no answer on %s:\n%s" % (trace, out[-2500:]))
    n, total = int(read.group(1)), int(read.group(2))
    if "No error has been found" in out and n == total:
        return None
    if n < total and "Postcondition" in out:
        return n + 1, "result: the specification has no such step"
    raise ToolError("TLC failed on %s:\n%s" % (trace, out[-2500:]))


# ---------------------------------------------------------------------------------------- harness

def run_bin(args, timeout):
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 97, "", "timeout"


def died(rc, err):
    if rc == 97:
        return "hung"
    if "overflowed its stack" in err:
        return "overflowed its stack"
    return "was killed by signal %d" % -rc if rc < 0 else "exited with %d" % rc


class Job:
    """One run of the harness: many worlds, or many scripts."""

    def __init__(self, width, kind, profile, worlds, secs, events, seed, script=None, k=4, battery="", part=0, parts=1, bare=False):
        self.__dict__.update(width=width, kind=kind, profile=profile, worlds=worlds, secs=secs, events=events,
                             seed=seed, script=script, k=k, battery=battery, part=part, parts=parts, bare=bare)

    def bin(self, ctx):
        return ctx.bins.get("%dr" % self.width, ctx.bins[self.width]) if self.bare else ctx.bins[self.width]

    def name(self):
        return "%s w=%d %s seed=%d" % (self.kind, self.width, os.path.basename(self.script) + " " + self.battery if self.script else self.profile, self.seed)


def read_lines(path):
    try:
        with open(path) as f:
            return [x for x in f.read().split("\n") if x.strip()]
    except FileNotFoundError:
        return []


class Finding:
    """A run that went wrong: its script, its trace, what died."""

    def __init__(self, job, ops, trace, death=None, note=""):
        self.job, self.ops, self.trace, self.death, self.note = job, ops, trace, death, note


def run_job(ctx, job, n):
    d = os.path.join(ctx.scratch, "job%d" % n)
    os.makedirs(d, exist_ok=True)
    b = job.bin(ctx)
    common = ["--kind", job.kind, "--out", d, "--seed", str(job.seed), "--watchdog", "25"]
    if job.script:
        cmd = [b, "scripts", "--file", job.script, "--battery", job.battery, "--profile", job.profile, "--part", str(job.part),
               "--parts", str(job.parts), "--secs", str(job.secs), "--events", str(job.events)] + common
    else:
        cmd = [b, "run", "--profile", job.profile, "--worlds", str(job.worlds), "--secs", str(job.secs),
               "--events", str(job.events)] + common
    rc, out, err = run_bin(cmd, job.secs + 120)
    res = dict(job=job, dir=d, findings=[], stats={}, sample=os.path.join(d, "sample.ndjson"),
               shapes=os.path.join(d, "shapes.txt"))
    if rc == 3:
        raise ToolError("harness failed on %s: %s" % (job.name(), err[-2000:]))
    if rc == 0:
        res["stats"] = json.load(open(os.path.join(d, "stats.json")))
        i = 1
        while os.path.exists(os.path.join(d, "suspect-%d.ndjson" % i)):
            base = os.path.join(d, "suspect-%d" % i)
            res["findings"].append(Finding(job, read_lines(base + ".ops"), base + ".ndjson",
                                           note=" ".join(read_lines(base + ".txt"))))
            i += 1
        return res
    # the process died: run the world it died in again, writing through
    death = died(rc, err)
    ctx.cov["crashes"] += 1
    world = (read_lines(os.path.join(d, "current")) or ["0"])[0]
    rd = os.path.join(d, "retrace")
    os.makedirs(rd, exist_ok=True)
    if job.script:
        cmd = [b, "scripts", "--file", job.script, "--battery", job.battery, "--profile", job.profile, "--only", world,
               "--seed", str(job.seed), "--kind", job.kind, "--out", rd, "--watchdog", "25"]
    else:
        cmd = [b, "retrace", "--profile", job.profile, "--world", world, "--kind", job.kind, "--out", rd, "--seed",
               str(job.seed), "--watchdog", "25"]
    rc2, _, err2 = run_bin(cmd, 150)
    if rc2 == 0:
        # dying depends on the schedule or on memory: the trace up to there is not to be had
        ops, tr = read_lines(os.path.join(rd, "intent.txt")), os.path.join(rd, "trace.ndjson")
        f = Finding(job, ops, tr, death=death + " (not every time)")
        f.unsure = True
    else:
        f = Finding(job, read_lines(os.path.join(rd, "intent.txt")), os.path.join(rd, "trace.ndjson"), death=died(rc2, err2))
        add_crash(f.trace)
    res["findings"].append(f)
    return res


def add_crash(trace):
    lines = read_lines(trace)
    if lines:
        try:
            json.loads(lines[-1])
        except ValueError:
            lines.pop()
    lines.append(json.dumps({"op": "crash", "a": [], "r": [], "p": 0, "o": 0, "obs": [], "c": 0, "ch": 0, "live": [], "tot": 0, "f": 0, "ht": []}))
    with open(trace, "w") as f:
        f.write("\n".join(lines) + "\n")


# ------------------------------------------------------------------------------- cutting to size

def room(job):
    """How many vectors a job's histories may have at once."""
    m = re.search(r"(?:^|,)k=(\d+)", job.profile or "")
    return int(m.group(1)) if m else job.k


def replay(ctx, job, ops, where, secs=30):
    """Runs a script; (what the harness says, trace)."""
    os.makedirs(where, exist_ok=True)
    sf = os.path.join(where, "script.ops")
    with open(sf, "w") as f:
        f.write("\n".join(ops) + "\n")
    rc, out, err = run_bin([job.bin(ctx), "replay", "--script", sf, "--k", str(room(job)), "--kind", job.kind, "--out", where,
                            "--watchdog", "8"], secs)
    tr = os.path.join(where, "trace.ndjson")
    if rc == 0:
        return out.strip().split("\n")[-1], tr
    if rc == 3:
        return "fine", tr
    return "died: " + died(rc, err), tr


def fault_kind(note, ops):
    """The class of a harness complaint, so that cutting keeps to the same one."""
    if note.startswith("died"):
        return "died"
    if "allocations left" in note:
        return "memory"
    if "live elements" in note or "dead or corrupt" in note:
        return "ownership"
    return "wrong"


def cut(ctx, f, budget=12.0):
    """Delta debugging on the operations, keeping the same kind of complaint."""
    where = os.path.join(ctx.scratch, "cut%d" % next(RUNS))
    t0 = time.time()
    first, tr = replay(ctx, f.job, f.ops, where)
    if first == "fine":
        return f
    want = fault_kind(first, f.ops)
    best = list(f.ops)
    step = max(1, len(best) // 2)
    while step >= 1 and time.time() - t0 < budget:
        i, changed = 0, False
        while i < len(best) and time.time() - t0 < budget:
            cand = best[:i] + best[i + step:]
            if not cand:
                break
            got, _ = replay(ctx, f.job, cand, where)
            if got != "fine" and fault_kind(got, cand) == want:
                best, changed = cand, True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2) if step > 1 or not changed else 1
    got, tr = replay(ctx, f.job, best, where)
    if got == "fine":
        return f
    if got.startswith("died"):
        add_crash(tr)
    g = Finding(f.job, [x for x in best], tr, death=got[6:] if got.startswith("died") else None, note=got)
    return g


# ---------------------------------------------------------------------------------- whose is it?

def op_name(line):
    return line.split()[0] if line.split() else ""


def mine(ctx, ev, why, ops, death, panics):
    """Is this failure a violation of the property being checked?"""
    p = ctx.p
    kind = why.split(":")[0]
    names = {op_name(x) for x in ops}
    last = op_name(ops[-1]) if ops else ""
    own = p["own"]
    if kind in p.get("why", ()):
        return True
    if kind == "access":
        return ev.get("op") in own
    if ctx.pid == "C13" and death and "hung" not in death and "stack" not in death:
        return True
    if ctx.pid == "C13" and ev.get("op") == "drop" and kind in ("panic", "contents"):
        return True
    if ctx.pid == "C16":
        # threads are this property's business whatever went wrong after they ran
        return bool(names & {"conc", "par", "sched"}) and kind in ("contents", "result", "panic", "the process died", "ownership",
                                                         "memory", "isolation")
    if ctx.pid == "C19":
        return bool(names & BOMB or panics) and kind in ("ownership", "isolation", "contents", "the process died", "memory",
                                                        "panic", "result", "access")
    if kind in ("ownership", "memory", "sharing", "shape"):
        return False
    if kind == "isolation":
        return ev.get("op") in own or last in own
    if ctx.pid == "C21":
        return "iter" in names and any(x.startswith("iter ") and x.split()[2] == "1" for x in ops)
    if ctx.pid == "C07":
        return any(x.startswith("iter ") and x.split()[2] != "1" for x in ops) or ev.get("op") == "all"
    if ev.get("op") in own:
        return True
    return bool(names & own)


def handle(ctx, f):
    if len(ctx.violations) >= 6:
        return None
    try:
        return handle_one(ctx, f)
    except Unfinished:
        log("note: TLC ran out of time on a suspicious run of " + f.job.name())
        ctx.unjudged = ToolError("TLC ran out of time on a suspicious run")
    except ToolError as e:
        log("note: no verdict on a suspicious run of " + f.job.name())
        ctx.unjudged = e


def handle_one(ctx, f):
    """Has TLC judge a suspicious run; records a violation if it is one, and this property's."""
    ctx.cov["suspects"] += 1
    g = f
    if not getattr(f, "unsure", False):
        g = cut(ctx, f)
        v = judge(ctx, g.trace)
        if v is None and g is not f:
            g = f
            v = judge(ctx, g.trace)
    else:
        v = judge(ctx, g.trace)
        if v is None:
            # no trace, but the process did die: the last resort
            add_crash(g.trace)
            v = judge(ctx, g.trace)
    if v is None:
        log("note: the harness suspected a run the specification accepts: %s (%s)" % (f.job.name(), f.note))
        return
    line, why = v
    evs = read_lines(g.trace)
    try:
        ev = json.loads(evs[line - 1])
    except (ValueError, IndexError):
        ev = {"op": "crash"}
    panics = any('"p":1' in x for x in evs[:line])
    if why == "the process died" and g.death:
        why = "the process died: it " + g.death
    own = mine(ctx, ev, why, g.ops, g.death, panics)
    what = "%s at %s (%s)" % (why, json.dumps(ev.get("op")), f.job.name())
    if not own:
        ctx.cov["not_own"].append(what)
        log("note: not this property's failure: " + what)
        return
    report(ctx, what, g, line)


def report(ctx, what, g, line):
    n = len(ctx.violations) + 1
    base = os.path.join(ctx.replay, "%s-%d" % (ctx.pid, n))
    with open(base + ".ops", "w") as o:
        o.write("# %s\n# replay: %s replay --kind %s --k %d --script <this> --out <dir>\n# %s line %d\n" %
                (ctx.pid, g.job.bin(ctx), g.job.kind, room(g.job), what, line))
        o.write("\n".join(g.ops) + "\n")
    if os.path.exists(g.trace):
        shutil.copy(g.trace, base + ".ndjson")
    ctx.violations.append((what, base + ".ops"))
    log("violation: " + what)


# ---------------------------------------------------------------------------------------- shapes

def norm(n):
    return [0, n] if isinstance(n, int) else [n[0], n[1], [norm(c) for c in n[2]]]


def check_shapes(ctx, results):
    """Has TLC judge every distinct shape the runs went through."""
    by_w = {}
    for r in results:
        by_w.setdefault(r["job"].width, set()).update(read_lines(r["shapes"]))
    limit = 40000 if ctx.quick else 600000
    parts, total = [], 0
    for w, ss in sorted(by_w.items()):
        ss = sorted(ss)
        if len(ss) > limit:
            import random
            rnd = random.Random(ctx.seed)
            ss = sorted(rnd.sample(ss, limit))
        n = max(1, min(CPUS // max(1, len(by_w)), len(ss) // 2000 + 1))
        for i in range(n):
            path = os.path.join(ctx.scratch, "shapes-%d-%d.ndjson" % (w, i))
            with open(path, "w") as f:
                for s in ss[i::n]:
                    s = json.loads(s)
                    f.write(json.dumps([s[0], [norm(x) for x in s[1]], norm(s[2]), [norm(x) for x in s[3]]],
                                       separators=(",", ":")) + "\n")
            parts.append((w, path))
        total += len(ss)
    ctx.cov["shapes_judged"] = total

    def one(part):
        w, path = part
        if not read_lines(path):
            return None
        out = tlc(ctx, "ShapeTrace", "ShapeTrace%d.cfg" % w, {"TRACE": path}, timeout=1500)
        v = verdict(out, path)
        return None if v is None else (w, path, v)
    with ThreadPoolExecutor(CPUS) as ex:
        return [x for x in ex.map(one, parts) if x]


def shape_violation(ctx, results, w, path, v):
    """Finds a run that reaches a wrong shape, for the report."""
    line, why = v
    shape = read_lines(path)[line - 1]
    base = os.path.join(ctx.replay, "%s-%d" % (ctx.pid, len(ctx.violations) + 1))
    with open(base + ".json", "w") as f:
        f.write(json.dumps({"width": w, "why": why, "shape": json.loads(shape),
                            "runs": [r["job"].name() for r in results if r["job"].width == w]}) + "\n")
    ctx.violations.append(("shape: invariant " + why, base + ".json"))
    log("violation: invariant %s: %s" % (why, shape[:300]))


# ------------------------------------------------------------------------------------- the check

# properties also tried on vectors of hundreds of thousands
HUGE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C18", "C20", "C21"}
# and those whose calls tear a vector to single runs, on somewhat smaller ones
TORN = {"C10", "C11", "C12", "C15", "C17", "C19"}


def jobs(ctx):
    p, q = ctx.p, ctx.quick
    if "profile" not in p:
        return []
    prof = p["profile"]
    secs = 6 if q else 60
    ev = 3500 if q else 25000
    out = []

    def add(w, kind, extra, seed, frac=1.0):
        if w in ctx.bins:
            # a trace of long vectors of tracked elements takes TLC longer
            share = frac * (0.6 if kind.endswith("t") and (w == 64 or "bulk" in extra) else 1)
            out.append(Job(w, kind, prof + extra, 10 ** 7, max(2, int(secs * frac)), int(ev * share), seed, bare=seed % 2 == 0))
    s = ctx.seed * 1000
    ik = ",ik=1" if p.get("itermut") else ""
    small, mid, big = ",maxlen=60,ops=120" + ik, ",maxlen=300,ops=200,bulk=2" + ik, ",maxlen=6000,ops=90,bulk=6" + ik
    tok, plain = ("arct", "arc") if p.get("threads") else ("rct", "rc")
    if ctx.pid in HUGE:
        # as tall as trees get at the width the library is built with; what tears a vector to single runs left out
        keep = ",".join(x for x in prof.split(",") if x.split("=")[0] not in ("sort", "dual", "rev", "cmp", "search", "bomb", "iter", "par", "ctor"))
        for i in range(1 if q else 3):
            out.append(Job(64, tok if p.get("tracked") else ("rc", "arc", "rct")[i], keep + ",ctor=1,iter=1,maxlen=300000,ops=60,bulk=6",
                           10 ** 7, 6 if q else 60, 250 if q else 1500, s + 40 + i))
    if ctx.pid in TORN:
        out.append(Job(64, "rc", prof + ",deque=6,maxlen=150000,ops=40,bulk=6", 10 ** 7, 6 if q else 60, 250 if q else 1500, s + 43))
    rounds = 1 if q else 4
    for r in range(rounds):
        t = s + r * 100
        if 4 not in ctx.bins:
            for i, (kind, e) in enumerate([(plain, mid), (tok, mid), ("arct", mid), (plain, big), (tok, big), ("arc", big)]):
                add(64, kind, e, t + i)
            continue
        add(4, tok if p.get("tracked") else plain, small, t + 1)
        add(4, tok, mid, t + 2)
        add(4, "arct", small, t + 3)
        add(4, plain, mid, t + 4)
        add(4, "arc" if not p.get("tracked") else "arct", big if not p.get("tracked") else mid, t + 5)
        add(64, plain if not p.get("tracked") else tok, big, t + 6)
        add(64, tok, mid, t + 7)
        if p.get("threads"):
            add(64, "arc", mid, t + 8)
        else:
            add(64, plain if not p.get("tracked") else "arct", mid, t + 8)
        if not q:
            add(8, tok, small, t + 9)
            add(8, plain, mid, t + 10)
            add(8, "arct", mid, t + 11)
            add(8, plain, big, t + 12)
    return out


def validate_samples(ctx, results):
    """TLC reads what the harness recorded of runs it found nothing wrong with."""
    todo = [r for r in results if os.path.exists(r["sample"]) and os.path.getsize(r["sample"])]

    def one(r):
        t = time.time()
        try:
            return r, judge(ctx, r["sample"], timeout=240 if ctx.quick else 3000)
        except Unfinished:
            return r, "unfinished"
        except ToolError as e:
            ctx.unjudged = e
            return r, "no verdict"
        finally:
            if os.environ.get("RRBH_TIMES"):
                log("judged %.1f s, %d bytes: %s" % (time.time() - t, os.path.getsize(r["sample"]), r["job"].name()))
    # the longest first
    todo.sort(key=lambda r: -os.path.getsize(r["sample"]) * (2.5 if r["job"].kind.endswith("t") else 1))
    bad = []
    with ThreadPoolExecutor(CPUS) as ex:
        for r, v in ex.map(one, todo):
            lines = read_lines(r["sample"])
            if v == "unfinished":
                log("note: TLC ran out of time on the sample of " + r["job"].name())
                ctx.cov["unfinished_samples"] = ctx.cov.get("unfinished_samples", 0) + 1
                continue
            if v == "no verdict":
                continue
            ctx.cov["trace_events_judged"] = ctx.cov.get("trace_events_judged", 0) + (len(lines) if v is None else v[0])
            worlds = sum(1 for x in lines if x.startswith('{"op":"reset"'))
            ctx.cov["traces_judged"] = ctx.cov.get("traces_judged", 0) + (worlds if v is None else 1)
            if v is not None:
                bad.append((r, v, lines))
            elif lines and len(ctx.samples) < 3:
                ctx.samples.append({"job": r["job"].name(), "first_events": [json.loads(x) for x in lines[1:4] if len(x) < 1500]})
    for r, (line, why), lines in bad:
        ev = json.loads(lines[line - 1])
        start = max(i for i in range(line) if lines[i].startswith('{"op":"reset"'))
        tr = os.path.join(ctx.scratch, "bad-%d.ndjson" % len(ctx.violations))
        with open(tr, "w") as f:
            f.write("\n".join(lines[start:line]) + "\n")
        names = []
        for x in lines[start + 1:line]:
            e = json.loads(x)
            names.append("%s %s" % (e["op"].replace("iter_open", "iter"), " ".join(map(str, e["a"]))))
        f = Finding(r["job"], names, tr, note=why)
        panics = any('"p":1' in x for x in lines[start:line])
        if mine(ctx, ev, why, names, None, panics):
            report(ctx, "%s at %s (%s)" % (why, json.dumps(ev["op"]), r["job"].name()), f, line - start)
        else:
            ctx.cov["not_own"].append("%s at %s" % (why, ev["op"]))
            log("note: not this property's failure: %s at %s" % (why, ev["op"]))


def known_findings(pid):
    out = []
    for l in read_lines(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def evidence(ctx):
    cov = dict(ctx.cov)
    cov["not_own"] = cov["not_own"][:20]
    cov["states"] = sum(m["states"] for m in ctx.models)
    cov["transitions"] = sum(m["transitions"] for m in ctx.models)
    cov["traces_validated_against_impl"] = cov.pop("traces_judged", 0)
    cov["samples"] = ctx.samples or [{"note": "no accepted sample in this run"}]
    cov["design_models"] = ctx.models
    cov["hooks"] = ctx.hooks
    cov["violations"] = [x[0] for x in ctx.violations]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump({"property": ctx.pid, "tier": "quick" if ctx.quick else "thorough", "seed": ctx.seed,
                   "level": "model_checking", "coverage": cov, "wall_s": round(ctx.elapsed(), 2)}, f, indent=1)
        f.write("\n")


def run_models(ctx):
    import models
    def one(m):
        t = time.time()
        cfg = m["cfg"]
        if m.get("rule"):
            cfg = os.path.join(ctx.scratch, m["rule"] + "-" + cfg)
            with open(os.path.join(SPEC, m["cfg"])) as i, open(cfg, "w") as o:
                o.write(re.sub(r'Rule = "\w+"', 'Rule = "%s"' % m["rule"], i.read()))
        out = tlc(ctx, m["module"], cfg, workers=m.get("workers", 2), timeout=m.get("timeout", 3000),
                  heap=m.get("heap", "6g"), extra=m.get("extra", ()))
        g, d = counts(out)
        if m.get("simulate"):
            sim = re.findall(r"The number of states generated: (\d+)", out)
            ok = bool(sim) and "Error:" not in out
            g = d = int(sim[-1]) if sim else 0
        elif m.get("rule"):
            ok = "is violated" in out
        else:
            ok = "No error has been found" in out
        if not ok:
            raise ToolError("the design model %s does not check:\n%s" % (m["cfg"], out[-3000:]))
        ctx.models.append({"model": m["cfg"] + (" with the fault '%s', exposed" % m["rule"] if m.get("rule") else ""), "states": d, "transitions": g, "secs": round(time.time() - t, 1)})
        got = re.findall(r'^"PATH ([^"]*)"$', out, re.M)
        if got:
            ctx.paths.setdefault(m["cfg"], []).extend(got)
        ctx.sessions += re.findall(r'^"SESSION ([^"]*)"$', out, re.M)
        ctx.inputs += re.findall(r'^"((?:KEYS|SEARCH|RANGE|RING|ITER|HIST|SCHED)[^"]*)"$', out, re.M)
        log("model %s: %d states, %d transitions, %.1f s" % (m["cfg"], d, g, time.time() - t))

    ms = models.of(ctx.pid, ctx.quick, ctx.seed)
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, ms))


def setup():
    """Builds what the checks will build again, faster."""
    ctx = Ctx("C01")
    try:
        build(ctx)
        return 0
    except ToolError as e:
        log("error: %s" % e)
        return 1
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def main(argv):
    if argv[0] == "setup":
        return setup()
    if argv[0] == "selftest":
        import selftest
        return selftest.main()
    pid = argv[0]
    ctx = Ctx(pid)
    try:
        model_error = []

        def mod():
            try:
                run_models(ctx)
            except ToolError as e:
                model_error.append(e)
        th = threading.Thread(target=mod)
        th.start()
        build(ctx)
        log("built after %.1f s" % ctx.elapsed())
        import suites
        with ThreadPoolExecutor(CPUS) as ex:
            results = list(ex.map(lambda x: run_job(ctx, x[1], x[0]), enumerate(jobs(ctx))))
        log("random histories run after %.1f s" % ctx.elapsed())
        th.join()
        js = suites.jobs(ctx, Job)
        with ThreadPoolExecutor(CPUS) as ex:
            results += list(ex.map(lambda x: run_job(ctx, x[1], 1000 + x[0]), enumerate(js)))
        for r in results:
            ctx.cov["worlds"] += r["stats"].get("worlds", 0)
            ctx.cov["events"] += r["stats"].get("events", 0)
            if r["job"].script:
                key = "scripts_run_" + os.path.basename(r["job"].script).split(".")[0]
                ctx.cov[key] = ctx.cov.get(key, 0) + r["stats"].get("worlds", 0)
        log("ran %d worlds, %d events after %.1f s" % (ctx.cov["worlds"], ctx.cov["events"], ctx.elapsed()))
        found = [f for r in results for f in r["findings"]]
        # at most a few of each job: they tend to be one defect
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(lambda f: handle(ctx, f), found[:24]))
        if not ctx.violations:
            validate_samples(ctx, results)
            log("traces judged after %.1f s" % ctx.elapsed())
        import giants
        if pid in giants.GIANT and not ctx.violations:
            giants.check(ctx)
            log("vectors longer than memory judged after %.1f s" % ctx.elapsed())
        if ctx.p.get("shapes") and ctx.hooks and not ctx.violations:
            for w, path, v in check_shapes(ctx, results)[:3]:
                shape_violation(ctx, results, w, path, v)
            log("shapes judged after %.1f s" % ctx.elapsed())
        if ctx.unjudged and not ctx.violations:
            raise ctx.unjudged
        if model_error and not ctx.violations:
            raise model_error[0]
        known = known_findings(pid)
        fresh, seen = [], set()
        for what, path in ctx.violations:
            hit = [k for k in known if re.search(k[0], what)]
            if hit:
                seen.add(hit[0])
            else:
                fresh.append((what, path))
        for k in sorted(seen):
            log("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
        evidence(ctx)
        for what, path in fresh[:5]:
            log("VIOLATION property=%s replay=%s" % (pid, path))
        log("%s: %s in %.1f s" % (pid, "VIOLATED" if fresh else "holds", ctx.elapsed()))
        return 1 if fresh else 0
    except ToolError as e:
        log("error of the check: %s" % e)
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
