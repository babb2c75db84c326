"""Histories generated from the models, taken by the library."""
import os
import random

import paths

# what is done at every shape, property by property; nothing: operations at random of its profile
BATTERY = {"C01": "ends", "C02": "join", "C03": "cut", "C04": "insdel", "C05": "access", "C06": "insdel", "C07": "iter",
           "C08": "fc", "C09": "fm", "C10": "sort", "C11": "dual", "C12": "search", "C13": "cut", "C14": "cut", "C15": "cmp",
           "C16": "none", "C17": "rev", "C18": "ctor", "C19": "bomb", "C20": "insdel", "C21": "iter", "C22": "grow"}


def jobs(ctx, Job):
    out = []
    p, q = ctx.p, ctx.quick
    if 4 not in ctx.bins:
        return out
    shapes = []
    for cfg in ("TreeMC.cfg", "TreeMCdeep.cfg", "TreeSim.cfg", "TreeCtor.cfg", "TreeCtordeep.cfg", "TreeGrow.cfg", "TreeGrowSim.cfg"):
        shapes += ctx.paths.get(cfg, [])
    walks = ctx.paths.get("Walks.cfg", [])
    for name, ways, parts in (("shapes", shapes, 4), ("walks", sorted(set(walks)), 2)):
        if not ways:
            continue
        f = os.path.join(ctx.scratch, name + ".scripts")
        with open(f, "w") as o:
            o.write("\n".join(paths.scripts(ways, pairs=ctx.pid in ("C02", "C06", "C13"))) + "\n")
        ctx.cov[name + "_generated"] = len(ways)
        b = BATTERY.get(ctx.pid, "")
        prof = p["profile"] + ",maxlen=400,tail=%d" % (40 if b in ("", "none") else 15) + (",ik=1" if p.get("itermut") else "")
        kinds = ["rct", "rct", "arct", "rct"] if p.get("tracked") else ["rc", "rc", "rct", "arc"]
        parts = parts if q else 2 * parts
        seed = ctx.seed * 1000 + (50 if name == "shapes" else 60)
        for i in range(parts):
            out.append(Job(4, kinds[i % 4], prof, 0, 6 if q else 120, 1000 if q else 8000, seed + i,
                           script=f, battery=b, part=i, parts=parts, bare=i % 2 == 1))
    kind_of = lambda k: [x for x in ctx.inputs if x.startswith(k + " ")]
    r = random.Random(ctx.seed)
    keys, spans, found, pairs = kind_of("KEYS"), kind_of("RANGE"), kind_of("SEARCH"), kind_of("RING")
    lives, pasts, plans = kind_of("ITER"), kind_of("HIST"), kind_of("SCHED")
    for name, n, lines, share, tok in (
            ("sorts", len(keys), paths.sorts(keys, r, ctx.pid) if keys else [], 4, ctx.pid == "C19"),
            ("searches", len(found), paths.searches(found, r) if found else [], 4, False),
            ("ranges", len(set(spans)), paths.ranges(spans, r, ctx.pid) if spans else [], 2, ctx.pid == "C19"),
            ("rings", len(pairs), paths.rings([x[5:] for x in pairs], r, ctx.pid) if pairs else [], 2, p.get("tracked")),
            ("histories", len(pasts), paths.histories(pasts, r, ctx.pid) if pasts else [], 2, p.get("tracked") or ctx.pid in ("C06", "C16")),
            ("schedules", len(plans), paths.schedules(plans, shapes, r, 6000 if q else 60000) if plans else [], 3 if ctx.pid == "C16" else 2, True),
            ("iters", len(lives), paths.iters(lives, shapes, r, 20000 if q else 60000) if lives else [], 4, True)):
        if not lines:
            continue
        f = os.path.join(ctx.scratch, name + ".scripts")
        with open(f, "w") as o:
            o.write("\n".join(lines) + "\n")
        ctx.cov[name + "_generated"] = n
        kinds = ["arct"] if name == "schedules" else ["arct", "arc"] if p.get("threads") else ["rct", "arct"] if tok else ["rc", "rct", "arc", "rc"]
        parts = share if q else 2 * share
        for i in range(parts):
            out.append(Job(4, kinds[i % len(kinds)], "tail=0,maxlen=400" + (",k=7" if name == "schedules" else ""), 0, 6 if q else 120, 500 if q else 4000,
                           ctx.seed * 1000 + 90 + i, script=f, battery="none", part=i, parts=parts, bare=i % 2 == 1))
    if ctx.sessions:
        ss = sorted(ctx.sessions)
        most = 20000 if q else 60000
        if len(ss) > most:
            ss = random.Random(ctx.seed).sample(ss, most)
        ctx.cov["sessions_generated"] = len(ctx.sessions)
        ctx.cov["sessions_taken"] = len(ss)
        f = os.path.join(ctx.scratch, "sessions.scripts")
        with open(f, "w") as o:
            o.write("\n".join(paths.session_scripts(ss, ctx.pid == "C09", ctx.seed)) + "\n")
        kinds = ["rc", "arc", "rct", "rc"]
        parts = 4 if q else 8
        for i in range(parts):
            out.append(Job(4, kinds[i % 4], "tail=0,maxlen=400", 0, 8 if q else 120, 800 if q else 6000, ctx.seed * 1000 + 70 + i,
                           script=f, battery="none", part=i, parts=parts, bare=i % 2 == 1))
    return out
