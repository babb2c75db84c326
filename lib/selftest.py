"""Does the specification reject wrong recordings? Takes right ones, falsifies one event of each kind in each way
there is, and has TLC judge them. For every call that is ever recorded: another result, another content, a panic
turned around, an element too many or too few alive, a call left out."""
import copy
import json
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

import driver

PROFILE = ("ctor=2,deque=3,concat=2,split=2,clone=3,insdel=2,access=2,iter=3,fc=3,fm=3,par=1,conc=1,rev=1,sort=1,dual=1,search=2,"
           "cmp=2,bomb=2,oob=1,maxlen=40,ops=60")

# calls that may copy, or raise a tree, as far as they like
UNBUDGETED = {"reset", "end", "bomb_clone", "conc_open", "conc_close"}
UNBOUNDED = {"end", "bomb_clone", "conc_close"}


def falsified(e, r):
    """Ways to get the event wrong."""
    def but(**k):
        x = copy.deepcopy(e)
        x.update(k)
        return x
    out = []
    flat = json.dumps(e["r"])
    if e["p"] == 0 and e["op"] not in ("cmp", "end"):
        if e["r"] and all(isinstance(v, int) for v in e["r"]):
            v = list(e["r"])
            v[r.randrange(len(v))] += 1
            out.append(("another result", but(r=v)))
        if not e["r"] and e["op"] not in ("all",):
            out.append(("a result where there is none", but(r=[7])))
    if e["op"] in ("cmp",):
        v = list(e["r"])
        v[0] = 1 - v[0] if v[0] in (0, 1) else v[0] + 1
        out.append(("another result", but(r=v)))
    if e["p"] == 0 and e["op"] != "end" and not e["op"].startswith("bomb"):
        out.append(("a panic", but(p=1)))
    if e["p"] == 1 and not e["op"].startswith("bomb"):
        out.append(("no panic", but(p=0)))
    for i, o in enumerate(e["obs"]):
        if o[1] > 0:
            ob = copy.deepcopy(e["obs"])
            ob[i][2][-1][0] += 500000
            out.append(("another content", but(obs=ob)))
            ob = copy.deepcopy(e["obs"])
            ob[i][1] += 1
            out.append(("another length", but(obs=ob)))
            ob = copy.deepcopy(e["obs"])
            del ob[i]
            if not e["op"].startswith("bomb"):
                out.append(("a change that is not there", but(obs=ob)))
            break
    if e["o"] == 1 and e["live"]:
        lv = copy.deepcopy(e["live"])
        lv[r.randrange(len(lv))][2] += 10 ** 6
        out.append(("elements too many alive", but(live=lv)))
    out.append(("a dead element touched", but(f=1)))
    if e["op"] not in UNBUDGETED:
        out.append(("elements copied", but(c=e["c"] + 10 ** 7)))
    if e["p"] == 0 and e["o"] == 1 and e["op"] not in UNBOUNDED and e["a"]:
        tall = [x for x in e["ht"] if x[0] == e["a"][0]]
        rest = [x for x in e["ht"] if x[0] != e["a"][0]]
        if tall or any(o[0] == e["a"][0] and o[1] > 0 for o in e["obs"]):
            out.append(("a tall tree", but(ht=rest + [[e["a"][0], 60]])))
    return out


def falsified_giant(e, r):
    """The same for vectors longer than memory."""
    def but(**k):
        x = copy.deepcopy(e)
        x.update(k)
        return x

    def more(n):
        return [n[0], n[1], n[2] + 1] if n[2] < 2 ** 28 - 1 else [n[0], n[1], n[2] - 1]
    out = []
    if e["rv"]:
        v = list(e["rv"])
        i = 0 if e["op"] == "cmp" else r.randrange(len(v))
        v[i] += 1
        out.append(("another result", but(rv=v)))
    if e["rn"]:
        v = copy.deepcopy(e["rn"])
        i = r.randrange(len(v))
        v[i] = more(v[i])
        out.append(("another number", but(rn=v)))
        v = copy.deepcopy(e["rn"])
        v[i] = [v[i][0] ^ 1, v[i][1], v[i][2]]
        out.append(("a number another by 2^56", but(rn=v)))
    out.append(("a panic", but(p=1)))
    for mine in (True, False):
        whose = "" if mine else " of another vector"
        at = [i for i, x in enumerate(e["len"]) if (x[0] in e["a"]) == mine]
        if at:
            v = copy.deepcopy(e["len"])
            i = r.choice(at)
            v[i][1] = more(v[i][1])
            out.append(("another length" + whose, but(len=v)))
        at = [i for i, x in enumerate(e["pr"]) if (x[0] in e["a"]) == mine]
        if at:
            v = copy.deepcopy(e["pr"])
            v[r.choice(at)][2] += 1
            out.append(("another element" + whose, but(pr=v)))
    if e["len"]:
        v = copy.deepcopy(e["len"])
        del v[r.randrange(len(v))]
        out.append(("a vector missing", but(len=v)))
    if e["c"] >= 0:
        out.append(("elements copied", but(c=e["c"] + 10 ** 7)))
        if not e["len"]:
            out.append(("an element left", but(alive=[0, 0, 1])))
    if e["ht"] and e["ht"][0][0] in e["a"]:
        v = copy.deepcopy(e["ht"])
        v[0][1] += 70
        out.append(("a tall tree", but(ht=v)))
    return out


def main():
    ctx = driver.Ctx("C01")
    try:
        return run(ctx)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def run(ctx):
    driver.build(ctx)
    os.environ["RRBH_HEIGHTS"] = "1"
    r = random.Random(ctx.seed)
    worlds = []
    for kind in ("rct", "arct", "rc"):
        d = os.path.join(ctx.scratch, kind)
        os.makedirs(d)
        driver.run_bin([ctx.bins[4], "run", "--profile", PROFILE, "--worlds", "400", "--secs", "20", "--events", "12000", "--kind", kind,
                        "--out", d, "--seed", str(ctx.seed)], 200)
        for x in driver.read_lines(os.path.join(d, "sample.ndjson")):
            e = json.loads(x)
            if e["op"] == "reset":
                worlds.append([])
            worlds[-1].append(e)
    giants = []
    for b in ("4r", "64r"):
        for kind in ("rc", "rcz"):
            d = os.path.join(ctx.scratch, "giants" + b + kind)
            os.makedirs(d)
            driver.run_bin([ctx.bins[b], "giants", "--worlds", "100", "--secs", "20", "--kind", kind, "--out", d, "--seed", str(ctx.seed),
                            "--watchdog", "20"], 60)
            for x in driver.read_lines(os.path.join(d, "trace.ndjson")):
                e = json.loads(x)
                if e["op"] == "reset":
                    giants.append([])
                giants[-1].append(e)
    plan = {}
    for w in giants:
        for i, e in enumerate(w):
            if i:
                for how, x in falsified_giant(e, r):
                    plan.setdefault(("giant " + e["op"], how), []).append((w, i, x))
    for w in worlds:
        for i, e in enumerate(w):
            if e["op"] == "bomb_clone":
                break  # from here on elements may leak
            if i == 0 or i > 150:
                continue
            for how, x in falsified(e, r):
                plan.setdefault((e["op"], how), []).append((w, i, x))
    cases = [(k, *r.choice(v)) for k, v in sorted(plan.items())]
    bad = []

    def one(n):
        (op, how), w, i, x = cases[n]
        tr = os.path.join(ctx.scratch, "false-%d.ndjson" % n)
        with open(tr, "w") as f:
            for e in w[:i] + [x] + w[i + 1:i + 12]:
                f.write(json.dumps(e) + "\n")
        try:
            if op.startswith("giant"):
                v = driver.verdict(driver.tlc(ctx, "HugeTrace", "HugeTrace.cfg", {"TRACE": tr}), tr)
            else:
                v = driver.judge(ctx, tr)
        except driver.ToolError as e:
            return op, how, "no verdict: %s" % str(e)[-400:]
        return op, how, None if v and v[0] == i + 1 else v or "accepted", json.dumps(x)[:300]

    with ThreadPoolExecutor(driver.CPUS) as ex:
        for res in ex.map(one, range(len(cases))):
            if res[2]:
                bad.append(res)
    for b in bad:
        print("not rejected where it is wrong:", *b)
    print("%d falsified recordings, %d of %d kinds of call; %d not rejected at once" %
          (len(cases), len({c[0][0] for c in cases}), len({e["op"] for w in worlds for e in w} | {"giant " + e["op"] for w in giants for e in w}), len(bad)))
    return 1 if bad else 0
