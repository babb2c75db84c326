"""Vectors of up to 2^64 elements: made by sharing, judged by HugeTrace."""
import json
import os
import shutil
from concurrent.futures import ThreadPoolExecutor

import driver
from driver import Unfinished, died, log, read_lines, run_bin, tlc, verdict

# properties whose calls are made on them, at least some of them
GIANT = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C17", "C18", "C20", "C21", "C22", "C23"}
WHOSE = {"ownership": "C13", "isolation": "C06", "sharing": "C20", "height": "C22", "cost": "C23"}


class Run:
    def __init__(self, build, kind, seed, worlds, secs):
        self.build, self.kind, self.seed, self.worlds, self.secs = build, kind, seed, worlds, secs

    def name(self):
        return "giants %s w=%s seed=%d" % (self.kind, self.build.rstrip("r"), self.seed)


def runs(ctx):
    alone = ctx.pid == "C23"
    n = (4 if alone else 1) * (1 if ctx.quick else 6)
    worlds, secs = (60, 5) if ctx.quick else (300, 40)
    if alone:
        worlds *= 2
    widths = [b for b in ("4r", "8r", "64r") if b in ctx.bins]
    out = []
    for i in range(n):
        for j, kind in enumerate(("rc", "arc", "rcz", "arcz")):
            for w in widths if alone or not ctx.quick else [widths[(i + j) % len(widths)] if kind != "rc" else widths[-1]]:
                out.append(Run(w, kind, ctx.seed * 1000 + 50 + i, worlds, secs))
    return out


def crash_line(cur):
    """The call that was under way, as an event."""
    op, rest = (cur.split(" ", 1) + [""])[:2]
    try:
        a = json.loads(rest[:rest.index("]") + 1])
    except ValueError:
        a = [0]
    return op, json.dumps({"op": "crash", "a": a or [0], "v": [], "n": [], "rv": [], "rn": [], "p": 0, "len": [], "pr": [], "ht": [],
                           "c": -1, "alive": [0, 0, 0]})


def mine(ctx, op, why, died_of):
    kind = why.split(":")[0]
    if died_of == "hung":
        return ctx.pid == "C23"
    if kind in WHOSE:
        return WHOSE[kind] == ctx.pid
    if op in ("drop", "end"):
        return ctx.pid == "C13"
    return op in ctx.p["own"]


def one(ctx, run):
    d = os.path.join(ctx.scratch, "giant-%s-%s-%d" % (run.kind, run.build, run.seed))
    os.makedirs(d, exist_ok=True)
    rc, _, err = run_bin([ctx.bins[run.build], "giants", "--kind", run.kind, "--out", d, "--worlds", str(run.worlds), "--secs",
                          str(run.secs), "--seed", str(run.seed), "--watchdog", "20"], run.secs + 90)
    trace = os.path.join(d, "trace.ndjson")
    if rc == 3:
        raise driver.ToolError("harness failed on %s: %s" % (run.name(), err[-2000:]))
    lines = read_lines(trace)
    death, at = None, None
    if rc != 0:
        death = "hung" if "watchdog" in err else died(rc, err)
        try:
            json.loads(lines[-1])
        except (ValueError, IndexError):
            lines = lines[:-1]
        at, line = crash_line(" ".join(read_lines(os.path.join(d, "intent.txt"))))
        lines.append(line)
    found = []
    # what is found wrong is taken out, and the rest looked at again
    for _ in range(4):
        if not lines:
            break
        with open(trace, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            v = verdict(tlc(ctx, "HugeTrace", "HugeTrace.cfg", {"TRACE": trace}, timeout=200 if ctx.quick else 1500), trace)
        except Unfinished:
            ctx.cov["unfinished_samples"] = ctx.cov.get("unfinished_samples", 0) + 1
            break
        if v is None:
            worlds = sum(1 for x in lines if x.startswith('{"op":"reset"'))
            ctx.cov["giant_worlds"] = ctx.cov.get("giant_worlds", 0) + worlds
            ctx.cov["traces_judged"] = ctx.cov.get("traces_judged", 0) + worlds
            ctx.cov["giant_events"] = ctx.cov.get("giant_events", 0) + len(lines)
            if len(ctx.samples) < 3:
                ctx.samples.append({"job": run.name(), "first_events": [json.loads(x) for x in lines[1:4] if len(x) < 1500]})
            break
        n, why = v
        start = max(i for i in range(n) if lines[i].startswith('{"op":"reset"'))
        end = next((i for i in range(n, len(lines)) if lines[i].startswith('{"op":"reset"')), len(lines))
        op = json.loads(lines[n - 1])["op"]
        crash = op == "crash"
        found.append((run, lines[start:n], at if crash else op, why + (": it " + death if crash else ""), death if crash else None))
        lines = lines[:start] + lines[end:]
    return found


# as in the harness
TIMED = ["push_back", "push_front", "pop_back", "pop_front", "front", "get", "set", "split_off", "slice_from_start", "slice_to_end",
         "extract", "append", "prepend", "insert", "clone", "clone_from", "fc_get", "fm_set", "it_next", "it_next_set", "into_iter", "erange"]


def timed(ctx, run):
    """What calls cost on vectors of a million elements that share nothing, next to what they cost on short ones."""
    d = os.path.join(ctx.scratch, "costs-%s-%s-%d" % (run.kind, run.build, run.seed))
    os.makedirs(d, exist_ok=True)
    rc, _, err = run_bin([ctx.bins[run.build], "costs", "--kind", run.kind, "--out", d, "--seed", str(run.seed), "--watchdog", "60"], 300)
    trace = os.path.join(d, "trace.ndjson")
    lines = read_lines(trace)
    if rc != 0:
        # wrong answers are for other checks
        log("note: could not time %s: %s" % (run.name(), "hung" if rc == 97 or "watchdog" in err else err[:200] or died(rc, err)))
        ctx.cov["not_own"].append("timing stopped at " + " ".join(read_lines(os.path.join(d, "intent.txt"))))
        try:
            json.loads(lines[-1])
        except (ValueError, IndexError):
            lines = lines[:-1]
    found = []
    while lines:
        with open(trace, "w") as f:
            f.write("\n".join(lines) + "\n")
        v = verdict(tlc(ctx, "HugeTrace", "HugeTrace.cfg", {"TRACE": trace}), trace)
        if v is None:
            ctx.cov["calls_timed"] = ctx.cov.get("calls_timed", 0) + len(lines) - 1
            break
        e = json.loads(lines[v[0] - 1])
        found.append((run, [lines[0], lines[v[0] - 1]], TIMED[e["v"][0]], "%s (%d ns, %d ns)" % (v[1], *e["rv"]), None))
        del lines[v[0] - 1]
        if len(found) == 3:
            break
    return found


def check(ctx):
    todo = runs(ctx)
    with ThreadPoolExecutor(driver.CPUS) as ex:
        found = [f for fs in ex.map(lambda r: one(ctx, r), todo) for f in fs]
    if ctx.pid == "C23":
        todo = [Run(b, k, ctx.seed * 1000 + 70 + i, 0, 0) for b in ctx.bins if isinstance(b, str) and b.endswith("r")
                for k in ("rc", "arc") for i in range(1 if ctx.quick else 4)]
        with ThreadPoolExecutor(4) as ex:
            found += [f for fs in ex.map(lambda r: timed(ctx, r), todo) for f in fs]
    for run, lines, op, why, death in found:
        what = "%s at %s (%s)" % (why, json.dumps(op), run.name())
        if not mine(ctx, op, why, death):
            ctx.cov["not_own"].append(what)
            log("note: not this property's failure: " + what)
            continue
        base = os.path.join(ctx.replay, "%s-%d.ndjson" % (ctx.pid, len(ctx.violations) + 1))
        with open(base, "w") as f:
            f.write("\n".join(lines) + "\n")
        ctx.violations.append((what, base))
        log("violation: %s\n  again: %s giants --kind %s --seed %d --worlds %d --out <dir>" %
            (what, ctx.bins[run.build], run.kind, run.seed, run.worlds))
