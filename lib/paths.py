"""Renders the operation paths TLC prints (see spec/TreeMC.tla) as the harness's scripts."""


def render(path, h=0, x=1):
    """The operations that take vector h along the path; fresh elements from x on. Uses vector 2 in between."""
    return walk(path, h, x)[:2]


def walk(path, h=0, x=1):
    """The operations of a path, the next fresh element, and the length of the vector it ends in."""
    out = []
    n = 0
    for step in path.split(";"):
        p = step.split()
        k = p[0]
        a = [int(v) for v in p[1:]]
        if k == "from":
            out.append("from_iter %d %d %d" % (h, x, a[0]))
            x += a[0]
            n = a[0]
        elif k == "pf":
            out += ["new %d" % h, "push_front_n %d %d %d" % (h, x, a[0])]
            x += a[0]
            n = a[0]
        elif k == "mid":
            f = a[0] // 2
            out += ["new %d" % h, "push_back_n %d %d %d" % (h, x + f, a[0] - f), "push_front_n %d %d %d" % (h, x, f)]
            x += a[0]
            n = a[0]
        elif k == "const":
            out.append("const %d %d %d" % (h, x, a[0]))
            x += 2
            n = a[0]
        elif k == "PB":
            out.append("push_back %d %d" % (h, x))
            x += 2
            n += 1
        elif k == "PF":
            out.append("push_front %d %d" % (h, x))
            x += 2
            n += 1
        elif k == "QB":
            out.append("pop_back %d" % h)
            n = max(0, n - 1)
        elif k == "QF":
            out.append("pop_front %d" % h)
            n = max(0, n - 1)
        elif k == "L":
            out.append("slice_from_start %d %d" % (h, a[0]))
            n = a[0]
        elif k == "R":
            out.append("slice_to_end %d %d" % (h, a[0]))
            n -= a[0]
        elif k == "T":
            out += ["split_off %d %d 2" % (h, a[0]), "prepend %d 2" % h]
        elif k == "I":
            out.append("insert %d %d %d" % (h, a[0], x))
            x += 2
            n += 1
        elif k == "D":
            out.append("remove %d %d" % (h, a[0]))
            n -= 1
        elif k == "AA":
            out.append("append_clone %d %d" % (h, h))
            n *= 2
        elif k == "X":
            out += ["extract %d 1 %d 2 %d 2" % (h, a[0], a[1]), "drop 2"]
            n -= a[1] - a[0]
        elif k == "AB":
            out += ["from_iter 2 %d %d" % (x, a[0]), "append %d 2" % h]
            x += a[0] + 1
            n += a[0]
        elif k == "BF":
            out += ["new 2", "push_front_n 2 %d %d" % (x, a[0]), "prepend %d 2" % h]
            x += a[0] + 1
            n += a[0]
        else:
            raise ValueError(step)
    return out, x, n


def scripts(paths, pairs=False):
    """One script a path; with pairs, a second path's vector beside it, as vector 3."""
    lines = []
    for i, p in enumerate(paths):
        ops, x = render(p)
        if pairs:
            more, _ = render(paths[(i * 7919 + 13) % len(paths)], 3, x + 1)
            ops += more
        lines.append(" // ".join(ops))
    return lines


def window(cmds, n):
    """The lengths of the focus and of those above it, after the session's commands."""
    up = [n]
    for c in cmds:
        k, a = c[0], [int(v) for v in c[1:]]
        m = up[-1]
        if k == "w":
            up[-1] = max(0, min(a[1], m) - min(a[0], m))
        elif k == "n":
            up[-1] = a[1] - a[0]
        elif k == "l":
            up.append(a[0])
        elif k == "r":
            up.append(m - a[0])
        elif k == "j":
            up.pop()
    return up


def length(path):
    """How long the vector of a path is."""
    return walk(path)[2]


def read_session(cmds, n, pick):
    """A read focus taken through the commands; then every position, each on a copy of it."""
    out, f, top = [], 0, 1
    if not cmds or cmds[0][0] != "w":
        out.append("0 0 %d" % pick(2))
    for c in cmds:
        k, a = c[0], [int(v) for v in c[1:]]
        if k == "w":
            out.append("1 0 %d %d" % (a[0], a[1]))
        elif k == "g":
            out.append("2 %d %d" % (f, a[0]))
        elif k == "n":
            # a range written one of the ways there are
            lo = [(1, a[0])] + ([(0, 0)] if a[0] == 0 else [(2, a[0] - 1)])
            hi = [(2, a[1])] + ([(1, a[1] - 1)] if a[1] > a[0] else [])
            s, e = lo[pick(len(lo))], hi[pick(len(hi))]
            out.append("3 %d %d %d %d %d" % (f, s[0], s[1], e[0], e[1]))
        else:
            out.append("4 %d %d %d %d" % (f, a[0], top, top + 1))
            f = top if k == "l" else top + 1
            top += 2
    m = window(cmds, n)[-1]
    out.append("6 %d" % f)
    for j in range(m + 2):
        out += ["5 %d 15" % f, "2 15 %d" % j]
    return ["fc 0 | " + " ; ".join(out)]


def write_sessions(cmds, n, pick, x):
    """A mutable focus taken through the commands; then one position, written to; then back out. One for every position."""
    ops = []
    m = window(cmds, n)[-1]
    for j in range(m + 1):
        out, ids, top = [], [0], 1
        up = [n]
        side = []
        for c in cmds:
            k, a = c[0], [int(v) for v in c[1:]]
            f = ids[-1]
            if k == "g":
                if pick(3) == 0 and a[0] < up[-1]:
                    out.append("3 %d %d %d" % (f, a[0], x))
                    x += 1
                else:
                    out.append("2 %d %d" % (f, a[0]))
            elif k in "lr":
                out.append("4 %d %d %d %d" % (f, a[0], top, top + 1))
                other = up[-1] - a[0] if k == "l" else a[0]
                up.append(a[0] if k == "l" else up[-1] - a[0])
                ids.append(top if k == "l" else top + 1)
                side.append((top + 1 if k == "l" else top, other))
                top += 2
            else:
                out.append("5")
                ids.pop()
                up.pop()
                side.pop()
        f = ids[-1]
        out.append("3 %d %d %d" % (f, j, x))
        x += 1
        for g, l in side:
            if l:
                i = pick(l)
                out += ["3 %d %d %d" % (g, i, x), "2 %d %d" % (g, l - 1 - i)]
                x += 1
        if m:
            out.append("2 %d %d" % (f, pick(m)))
        while side:
            side.pop()
            ids.pop()
            up.pop()
            out.append("5")
            if up[-1]:
                out.append("3 %d %d %d" % (ids[-1], pick(up[-1]), x))
                x += 1
        ops += ["clone 0 1", "fm 1 | " + " ; ".join(out), "drop 1"]
    return ops, x


def session_scripts(sessions, write, seed, batch=25):
    """Scripts of some sessions each, over the same tree; in an order the seed decides."""
    import random
    r = random.Random(seed)
    by = {}
    for s in sessions:
        tree, cmds = s.split("|")
        by.setdefault(tree, []).append([c.split() for c in cmds.split(";") if c.strip()])
    out = []
    for tree, ss in by.items():
        r.shuffle(ss)
        start, x0 = render(tree)
        n = length(tree)
        for i in range(0, len(ss), batch):
            ops, x = list(start), x0
            for cmds in ss[i:i + batch]:
                if write:
                    more, x = write_sessions(cmds, n, r.randrange, x)
                else:
                    more = read_session(cmds, n, r.randrange)
                ops += more
            out.append(" // ".join(ops))
    r.shuffle(out)
    return out


def sorts(inputs, r, pid, batch=12):
    """Every sequence of keys, sorted whole and inside another; alone, beside another vector, or with a comparison that panics."""
    out = []
    for line in inputs:
        if not line.startswith("KEYS"):
            continue
        keys = [int(k) for k in line.split()[1:]]
        n = len(keys)
        m = 5
        ids = [m * (i + 1) + k for i, k in enumerate(keys)]
        ops = ["new 0"] + ["push_back 0 %d" % x for x in ids]
        pre = r.randrange(3)
        post = r.randrange(3)
        around = ["clone 0 1"] + ["push_front 1 %d" % (m * (50 + i) + r.randrange(m)) for i in range(pre)] \
            + ["push_back 1 %d" % (m * (60 + i) + r.randrange(m)) for i in range(post)]
        b = "1 %d 2 %d" % (pre, pre + n)
        if pid == "C10":
            ops += ["clone 0 1", "sort 1 2 2 %d 0 0 0 0" % m, "drop 1"]
            ops += around + ["sort 1 %d 2 %d %s" % (r.choice([3, 4]), m, b), "drop 1"]
            if n > 1 and r.randrange(3) == 0:
                # of a tree cut and joined
                i = r.randrange(1, n)
                ops += ["split_off 0 %d 1" % i, "append 0 1", "sort 0 2 2 %d 0 0 0 0" % m]
        elif pid == "C11":
            ops += ["from_iter 2 500 %d" % n, "clone 0 1", "dual 1 2 %d 2 %d 1 0 2 %d" % (r.choice([3, 4]), m, n), "drop 1", "drop 2"]
            ops += around + ["from_iter 2 500 %d" % (n + pre + post), "dual 1 2 %d 2 %d %s" % (r.choice([3, 4]), m, b)]
        else:
            # every comparison in turn panics
            for k in range(0, 3 * n + 2, 1 if n < 5 else 3):
                ops += ["clone 0 1", "bomb_sort 1 2 2 %d 0 0 0 0 %d" % (m, k), "push_back 1 900", "drop 1"]
            ops += ["clone 0 1", "from_iter 2 500 %d" % n, "bomb_dual 1 2 3 2 %d 1 0 2 %d %d" % (m, n, r.randrange(3 * n + 1))]
        out.append(" // ".join(ops))
    r.shuffle(out)
    return out


def searches(inputs, r):
    """Every window the search model was given, in every form of search."""
    out = []
    for line in sorted(set(inputs)):
        pre, l, e, g, post = [int(v) for v in line.split()[1:]]
        n = pre + l + e + g + post
        for same in (0, 1):
            ids = [r.randrange(1, 90) for _ in range(pre)] + sorted(r.randrange(11, 20) for _ in range(l)) \
                + [20] * e * same + ([20 + i for i in range(e)] if not same else []) \
                + sorted(r.randrange(40, 50) for _ in range(g)) + [r.randrange(1, 90) for _ in range(post)]
            # key 3 with m = 20: the equal ones are those with id \div 20 = 1
            ops = ["new 0"]
            cut = r.randrange(n + 1)
            ops += ["push_front 0 %d" % x for x in reversed(ids[:cut])] + ["push_back 0 %d" % x for x in ids[cut:]]
            lo, hi = pre, pre + l + e + g
            los = [(1, lo)] + ([(0, 0)] if lo == 0 else [(2, lo - 1)])
            his = [(2, hi)] + ([(1, hi - 1)] if hi > lo else []) + ([(0, 0)] if hi == n else [])

            def q(mode, t, idx=0, k1=0, v1=1, k2=0, v2=1):
                a, b = r.choice(los), r.choice(his)
                ops.append("erange 0 %d 3 20 %d %d %d %d %d %d %d %d %d %d" % (mode, t, a[0], a[1], b[0], b[1], idx, k1, v1, k2, v2))
            q(3, 1)
            q(7, 0, 0, 1, 20, r.choice([1, 2]), 39)
            q(7, 0, 0, 2, 19, 2, 40)
            q(7, 0, 0, 0, 1, 2, 20)
            q(7, 0, 0, 1, 20, 0, 1)
            for i in range(n + 1):
                if i < n or True:
                    q(5, 1, i)
            if same:
                q(1, 20)
            if not pre and not post:
                q(2, 1)
                q(6, 0, 0, 1, 20, 1, 39)
                q(6, 0, 0, 2, 19, 2, 40)
                for i in range(n):
                    q(4, 1, i)
                if same:
                    q(0, 20)
            out.append(" // ".join(ops))
    r.shuffle(out)
    return out


def rings(pairs, r, pid):
    """Two vectors of one leaf each, in every pair of states of their buffers, met in every way; every state of one, used up in every way."""
    out = []
    alone = set()
    for line in pairs:
        a, b = line.split("|")
        alone.add(a)
        alone.add(b)
        na, nb = length(a), length(b)
        ra, x = render(a, 0, 1)
        rb, x = render(b, 1, x + 1)
        n = na + nb
        use = ["%s 0" % r.choice(["pop_back", "pop_front"]) for _ in range(n + 1)]
        for op in ("append 0 1", "prepend 0 1"):
            out.append(ra + rb + [op] + use)
            i = r.randrange(n + 1)
            out.append(ra + rb + [op, "split_off 0 %d 2" % i, "push_front 2 %d" % (x + 9), "append 2 0"] + [u[:-1] + "2" for u in use])
        # shared: both are copied where they change
        out.append(ra + rb + ["clone 0 2", "clone 1 3", r.choice(["append", "prepend"]) + " 0 1", "push_back 0 %d" % (x + 5), "pop_front 2", "pop_back 3",
                              "append 3 2", "all 0", "all 3"])
    for a in sorted(alone):
        n = length(a)
        ra, x = render(a, 0, 1)
        copy = ["clone 0 1"]
        for i in range(n + 1):
            x += 3
            for shared in (0, 1):
                pre = ra + copy * shared
                out.append(pre + ["insert 0 %d %d" % (i, x), "all 0"])
                out.append(pre + ["split_off 0 %d 2" % i, "all 2", "push_front 0 %d" % x])
                if i < n:
                    out.append(pre + ["remove 0 %d" % i, "push_front 0 %d" % x])
                    out.append(pre + ["set 0 %d %d %d" % (i, x, r.randrange(3))])
                # taken by value from both ends, and the rest dropped
                for j in range(n + 1 - i):
                    out.append(pre + ["iter 0 2 | " + " ; ".join(r.sample(["0"] * i + ["1"] * j, i + j) + ["2"])])
                k = r.randrange(n + 1 - i)
                out.append(pre + ["iter 0 1 | " + " ; ".join(r.sample(["3 %d" % (x + q) for q in range(i)] + ["4 %d" % (x + 40 + q) for q in range(k)], i + k) + ["2"])])
            for j in range(i, n + 1):
                # a leaf split in three, every place read and written
                cmds = ["4 0 %d 1 2" % i, "4 2 %d 3 4" % (j - i)]
                for f, m in ((1, i), (3, j - i), (4, n - j)):
                    for q in range(m):
                        cmds += ["3 %d %d %d" % (f, q, x), "2 %d %d" % (f, m - 1 - q)]
                        x += 1
                    cmds.append("2 %d %d" % (f, m))
                if i and j > i:
                    cmds.append("8 1 %d 3 %d" % (r.randrange(i), r.randrange(j - i)))
                out.append(ra + copy * r.randrange(2) + ["fm 0 | " + " ; ".join(cmds + ["5", "5"] + ["2 0 %d" % q for q in range(n)])])
                out.append(ra + ["reverse_range 0 1 %d 2 %d" % (i, j), "extract 0 1 %d 2 %d 2" % (i, j)])
    r.shuffle(out)
    return [" // ".join(x) for x in out]


FAR = 2000000000


def ranges(lines, r, pid, batch=24):
    """Every way to write a range (spec/RangeMC.tla), given to what takes one."""
    by = {}
    for line in sorted(set(lines)):
        v = [int(x) for x in line.split()[1:]]
        by.setdefault(v[0], []).append(v[1:])
    out = []
    for n, bs in by.items():
        r.shuffle(bs)
        for at in range(0, len(bs), batch):
            # a tree with a seam
            lo = 2 if pid == "C08" else 0
            size = n + lo + lo // 2
            ops = ["from_iter 0 100 %d" % size]
            if size > 1:
                ops += ["split_off 0 %d 2" % r.randrange(1, size), "append 0 2" if pid == "C12" else "prepend 0 2"]
            for k1, x1, k2, x2 in bs[at:at + batch]:
                b = "%d %d %d %d" % (k1, x1, k2, x2)
                s = 0 if k1 == 0 else x1 if k1 == 1 else x1 + 1
                e = n if k2 == 0 else x2 + 1 if k2 == 1 else x2
                one = ["clone 0 1"]
                y = r.randrange(1000, 9000)
                after = ["push_back 1 %d" % y, "pop_front 1", "drop 1"]
                if pid in ("C03", "C19"):
                    ops += one + ["extract 1 %s 2" % b, "append 2 1", "pop_front 2", "drop 2"]
                if pid in ("C17", "C19"):
                    ops += one + ["reverse_range 1 %s" % b] + after
                if pid in ("C10", "C19"):
                    for mode in (1, 3, 4) if pid == "C10" else (r.choice([1, 3, 4]),):
                        ops += one + ["sort 1 %d %d %d %s" % (mode, r.choice([0, 2, 5]), r.randrange(2, 9), b)] + after
                if pid in ("C11", "C19"):
                    for m in (n, max(0, n - 1), n + 2):
                        ops += one + ["from_iter 2 500 %d" % m, "dual 1 2 %d %d %d %s" % (r.choice([1, 3, 4]), r.choice([0, 2, 5]), r.randrange(2, 9), b),
                                      "push_front 2 %d" % y, "drop 2"] + after
                if pid == "C08" and s <= e:
                    # of the whole, and of a window of it
                    if e <= n:
                        reads = ["2 0 %d" % j for j in r.sample(range(e - s + 2), e - s + 2)] + ["2 0 %d" % FAR, "6 0"]
                        ops.append("fc 0 | 1 0 %d %d ; 3 0 %s ; " % (lo, lo + n, b) + " ; ".join(reads))
                        ops.append("fc 0 | 1 3 %d %d ; 4 3 %d 1 0 ; 3 0 %s ; " % (1, lo + n, lo - 1, b) + " ; ".join(reads) if n else "all 0")
                    else:
                        ops.append("fc 0 | 1 0 %d %d ; 3 0 %s !" % (lo, lo + n, b))
                if pid == "C12" and s <= e <= n:
                    t = r.randrange(99, 102 + n)
                    ops += ["erange 0 %d 0 1 %d %s 0 0 1 0 1" % (mode, t, b) for mode in (1, 3)]
                    i = r.choice([t - 100, r.randrange(n + 1), FAR])
                    ops.append("erange 0 5 0 1 %d %s %d 0 1 0 1" % (100 + i if i < n else t, b, max(i, 0)))
                    ops.append("erange 0 7 0 1 0 %s 0 1 %d %d %d" % (b, t, r.choice([1, 2]), t + r.randrange(4)))
            out.append(" // ".join(ops))
    r.shuffle(out)
    return out


ITERS = {"n": "0", "b": "1", "L": "2", "r": "7", "c": "11", "l": "12", "f": "13", "g": "14"}


def iters(lines, shapes, r, most, batch=12):
    """Every transition of an iterator's life (spec/IterMC.tla), over trees of that many elements."""
    lines = sorted(set(lines))
    # a way that goes on from another takes it along
    lines = [a for a, b in zip(lines, lines[1:] + [""]) if not b.startswith(a + ";")]
    by = {}
    for line in r.sample(lines, min(most, len(lines))):
        head, cmds = line.split("|")
        n, kind = [int(x) for x in head.split()[1:]]
        by.setdefault(n, []).append((kind, cmds))
    trees = {}
    for p in shapes:
        n = length(p)
        if n in by:
            trees.setdefault(n, []).append(p)
    out = []
    for n, ws in by.items():
        r.shuffle(ws)
        ts = trees.get(n) or ["from %d" % n]
        for i, at in enumerate(range(0, len(ws), batch)):
            ops, x = render(ts[i % len(ts)] if at else "from %d" % n, 0, 1)
            for kind, cmds in ws[at:at + batch]:
                todo = []
                for c in cmds.split(";"):
                    q = c.split()
                    if kind == 1 and q[0] in "nb":
                        todo.append("%d %d" % (3 if q[0] == "n" else 4, x))
                        x += 2
                    elif kind == 1 and q[0] in "rfg" and (q[0] == "r" or r.randrange(2)):
                        todo.append("%s %d" % (ITERS[q[0]], x))
                        x += n + 1
                    elif q[0] in ITERS:
                        todo.append(ITERS[q[0]])
                    else:
                        todo.append("%d %s" % ({"N": 5, "B": 6, "F": 10}[q[0]], q[1]))
                if q[0] in "nbNBF":
                    todo += r.choice([["2", "7"], ["0", "1", "2"], ["1", "2", "0"]]) if kind != 1 else ["2", r.choice(["0", "1", "7 %d" % x])]
                    x += n + 1
                elif q[0] in "rL":
                    todo += r.sample(["0", "1", "2"], 3)
                ops += ["clone 0 1", "iter 1 %d | " % kind + " ; ".join(todo)] + (["push_back 1 %d" % x] if kind == 1 else []) + ["drop 1"] * (kind != 2)
                x += 2
            out.append(" // ".join(ops + ["all 0"]))
    r.shuffle(out)
    return out


def histories(lines, r, pid):
    """Whole histories (spec/Histories.tla); for threads, every vector then goes to one of its own."""
    out = sorted({x.split(" ", 1)[1] for x in lines})
    if pid == "C16":
        out = ["%s // conc %d %d -1" % (x, i + 1, r.choice([6, 12, 25])) for i, x in enumerate(out)]
    r.shuffle(out)
    return out


CALLS = ["set", "push_back", "push_front", "pop_back", "pop_front", "insert", "remove", "reverse", "slice_from_start", "slice_to_end",
         "drop", "all", "clone", "append_clone", "get"]


def schedules(lines, shapes, r, most):
    """Schedules of threads that share storage (spec/Cow.tla), over vectors of several shapes. What
    the model writes is written in one of the ways the library has."""
    seen = sorted({x.split(" ", 1)[1] for x in lines})
    r.shuffle(seen)
    out = []
    for line in seen[:most]:
        parts = line.split("|")
        threads = 3
        kept = 2 * threads
        own = parts[0] == "own"
        if own:
            n = r.choice([2, 4, 5, 7, 8])
            ops, n = ["from_iter %d 1 %d" % (kept, n)], n
        elif shapes and r.random() < 0.6:
            ops, _, n = walk(r.choice(shapes), kept, 1)
        else:
            n = r.choice([9, 13, 20, 22, 45, 70])
            ops = ["%s %d 1 %d" % ("from_iter", kept, n)]
        if not n:
            continue
        ops += ["clone %d %d" % (kept, 2 * t) for t in range(threads)]
        size = {2 * t: n for t in range(threads)}
        x = 100000
        cmds = []
        for p in parts[1:]:
            w = p.split()
            t = int(w[0]) - 1
            c = w[1]
            if c[0] == "t":
                cmds.append("2 %d %d" % (t, int(c[1:])))
                continue
            h = 2 * t + (c[1:2] == "b")
            x += 100
            if c[0] == "w":
                m = size.get(h, n)
                at = {"1": [0, 0, m // 4, m // 3], "2": [m - 1, m - 1, m // 2, 2 * m // 3]}[c[2]]
                i = max(0, min(m - 1, r.choice(at)))
                last = c[2] == "2"
                k = r.randrange(10)
                if k < 5 or m < 2:
                    call = "set %d %d %d %d" % (h, i, x, r.randrange(3))
                elif k < 6:
                    call = "push_%s %d %d" % ("back" if last else "front", h, x)
                    m += 1
                elif k < 7:
                    call = "pop_%s %d" % ("back" if last else "front", h)
                    m -= 1
                elif k < 8:
                    call = "insert %d %d %d" % (h, i, x)
                    m += 1
                elif k < 9:
                    call = "remove %d %d" % (h, i)
                    m -= 1
                else:
                    call = "reverse %d" % h
                size[h] = m
            elif c[0] == "p":
                m = size.get(h, n)
                k = r.choice([m // 2, max(1, m - 3), m - 1])
                k = max(1, min(m, k))
                call = "slice_from_start %d %d" % (h, k)
                size[h] = k
            elif c[0] == "d":
                call = "drop %d" % h
                size.pop(h, None)
            elif c[0] == "r":
                call = "all %d" % r.choice([h, h, kept])
            elif c[0] == "c":
                call = "clone %d %d" % (2 * t, 2 * t + 1)
                size[2 * t + 1] = size.get(2 * t, n)
            else:
                call = "clone %d %d" % (kept, h)
                size[h] = n
            name, rest = call.split(" ", 1)
            cmds.append("1 %d %d %s" % (t, CALLS.index(name), rest))
        ops.append("sched %d %d | %s" % (kept, r.choice([1, 1, 2, 2, 3, 4]), " ; ".join(cmds)))
        out.append(" // ".join(ops))
    return out

