"""The design models each property rests on, and their bounds in the two tiers."""

ROPES = dict(module="RopesMC", cfg="RopesMC.cfg", workers=1)

# properties decided at every shape of tree the design reaches
SHAPED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
          "C15", "C16", "C17", "C19", "C20", "C21", "C22"}


def tree(quick, seed):
    if quick:
        return [dict(module="TreeMC", cfg="TreeMC.cfg", workers=3),
                dict(module="TreeMC", cfg="TreeSim.cfg", workers=2, simulate=True,
                     extra=("-simulate", "num=20", "-depth", "45", "-seed", str(seed)))]
    return [dict(module="TreeMC", cfg="TreeMCdeep.cfg", workers=6),
            dict(module="TreeMC", cfg="TreeSim.cfg", workers=4, simulate=True,
                 extra=("-simulate", "num=400", "-depth", "45", "-seed", str(seed)))]


def focus(pid, quick):
    """Every state of the read focus (C08), of the mutable one (C09)."""
    m = lambda c, w, t=0: dict(module="FocusMC", cfg=c, workers=w)
    if pid == "C08":
        return [m("FocusRead.cfg", 3)] + ([] if quick else [m("FocusReadDeep.cfg", 6)])
    if pid == "C09":
        return [m("FocusMut.cfg", 2), m("FocusMutWide.cfg", 2)] + ([] if quick else [m("FocusMutTall.cfg", 3), m("FocusMutDeep.cfg", 4)])
    return []


# properties decided at every pair of states of the buffers a node keeps its contents in
RINGS = {"C01", "C02", "C04", "C06", "C07", "C09", "C13", "C20", "C21"}

# properties of operations that take a range: every way to write one
RANGES = {"C03", "C08", "C10", "C11", "C12", "C17", "C19"}


def extra(pid, quick, seed):
    m = lambda mod, c: [dict(module=mod, cfg=c, workers=3)]
    d = "" if quick else "deep"
    if pid in ("C10", "C11", "C19"):
        return m("SortMC", "SortMC%s.cfg" % d)
    if pid == "C12":
        return m("SearchMC", "SearchMC%s.cfg" % d)
    if pid == "C22":
        return [dict(module="TreeMC", cfg="TreeGrow.cfg", workers=2),
                dict(module="TreeMC", cfg="TreeGrowSim.cfg", workers=2, simulate=True,
                     extra=("-simulate", "num=%d" % (30 if quick else 600), "-depth", "60", "-seed", str(seed)))]
    if pid == "C18":
        return m("TreeMC", "TreeCtor%s.cfg" % d)
    return []


# properties of what is shared and of what changes: every short history over vectors that share storage
SHARING = {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C13", "C16", "C17", "C20", "C21"}

# properties that rest on counting references: every step of threads that share storage, and schedules of them
COUNTED = {"C06", "C13", "C16", "C20"}

# properties of iterators: every state one can be in
ITERS = {"C07", "C21"}


# properties of calls made on vectors longer than memory
from giants import GIANT


def of(pid, quick, seed):
    out = [ROPES]
    if pid in GIANT:
        out.append(dict(module="HugeMC", cfg="HugeMC.cfg", workers=1))
    if pid in SHAPED:
        out += tree(quick, seed)
        out.append(dict(module="Walks", cfg="Walks.cfg", workers=1, simulate=True,
                        extra=("-simulate", "num=%d" % (900 if quick else 8000), "-depth", "26", "-seed", str(seed))))
    if pid in RINGS:
        out.append(dict(module="RingMC", cfg="RingMC.cfg", workers=2))
        if not quick:
            out.append(dict(module="RingMC", cfg="RingMCdeep.cfg", workers=3))
    if pid in SHARING:
        out.append(dict(module="Histories", cfg="Histories.cfg", workers=2))
        if not quick:
            out.append(dict(module="Histories", cfg="HistoriesDeep.cfg", workers=4))
        out.append(dict(module="Histories", cfg="HistoriesSim.cfg", workers=2, simulate=True,
                        extra=("-simulate", "num=%d" % (30 if quick else 1500), "-depth", "10", "-seed", str(seed))))
    if pid in COUNTED:
        out.append(dict(module="Cow", cfg="CowRuns.cfg" if quick else "CowRunsdeep.cfg", workers=2))
        out.append(dict(module="Cow", cfg="CowSim.cfg", workers=1, simulate=True,
                        extra=("-simulate", "num=%d" % (3000 if quick else 30000), "-depth", "120", "-seed", str(seed))))
        if pid == "C16" or not quick:
            out.append(dict(module="Cow", cfg="Cow.cfg", workers=3))
        if not quick:
            out.append(dict(module="Cow", cfg="Cowdeep3.cfg", workers=4))
            # faults the model has to expose: it would be worth nothing otherwise
            out += [dict(module="Cow", cfg="Cow.cfg", workers=1, rule=x) for x in ("lax", "leafless", "uncounted", "leaks")]
    if pid in RANGES:
        out.append(dict(module="RangeMC", cfg="RangeMC.cfg" if quick else "RangeMCdeep.cfg", workers=2))
    if pid in ITERS:
        out += [dict(module="IterMC", cfg=c, workers=2) for c in ("IterMC.cfg" if quick else "IterMCdeep.cfg", "IterLaws.cfg")]
    out += focus(pid, quick)
    return out + extra(pid, quick, seed)
