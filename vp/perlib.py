"""Event-log workloads and reference semantics for periodic patterns."""
import re

import numpy as np
import pandas as pd

UNITS = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "min": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "day": 86400 * 10 ** 9}


def events(rng, shape=None, max_ev=4, big=False):
    """[(integer time, event name)] without repeated pairs; planted periodic structure plus noise."""
    names = rng.choice([["a", "b", "c", "d", "e"], ["wake up", "coffee", "bus", "work", "gym"], ["10", "9", "100", "1", "7"],
                        ["é", "B", "a", "Z", "_x"], ["e1", "e10", "e2", "e3", "e11"]])
    if shape is None and max_ev >= 4 and rng.random() < .12:
        shape = "rich"
    if shape in ("rich", "many"):
        names = ["%s%d" % (rng.choice("abxyE"), k) for k in range(rng.randint(5, 11) if shape == "rich" else rng.randint(22, 32))]
    else:
        names = names[:rng.randint(1, max_ev)]
    shape = shape or rng.choice(["cycles", "cycles", "jitter", "concat", "concat", "nested", "nestcat", "random", "tiny", "sametime", "regular", "deep", "late"])
    occ = set()

    def cyc(e, t0, p, r, j=0):
        return [(t0 + i * p + (rng.randint(-j, j) if j else 0), e) for i in range(r)]

    if shape in ("cycles", "jitter"):
        for _ in range(rng.randint(1, 5)):
            occ.update(cyc(rng.choice(names), rng.randint(0, 300), rng.randint(1, 60), rng.randint(3, 14), 0 if shape == "cycles" else rng.randint(1, 4)))
    elif shape == "regular":
        p = rng.randint(1, 40)
        for k, e in enumerate(names):
            occ.update(cyc(e, k * rng.randint(0, 3), p, rng.randint(3, 25)))
    elif shape == "concat":
        p, r, t0 = rng.randint(12, 80), rng.randint(3, 12), rng.randint(0, 200)
        off = 0
        for e in names:
            occ.update(cyc(e, t0 + off, p, r, rng.choice([0, 0, 0, 1])))
            off += rng.randint(0, 5)
    elif shape == "nested":
        for _ in range(rng.randint(1, 2)):
            P, p, R, r, t0 = rng.randint(60, 200), rng.randint(2, 12), rng.randint(3, 6), rng.randint(3, 5), rng.randint(0, 100)
            e = rng.choice(names)
            for i in range(R):
                occ.update(cyc(e, t0 + i * P + rng.choice([0, 0, 0, 1]), p, r))
    elif shape == "nestcat":
        P, p, R, r, t0 = rng.randint(80, 200), rng.randint(4, 12), rng.randint(3, 6), rng.randint(3, 5), rng.randint(0, 100)
        d = rng.randint(1, 3)
        for i in range(R):
            for k, e in enumerate(names):
                occ.update(cyc(e, t0 + i * P + k * d, p, r, 0 if rng.random() < 0.9 else 1))
    elif shape == "deep":  # cycles of cycles of cycles, and long chains of blocks
        if rng.random() < .5:
            n = rng.choice([3, 3, 3, 4])
            lv = [(rng.choice([3, 3, 4]) if n == 3 else 3, p) for p in (rng.randint(1, 4), rng.randint(16, 30), rng.randint(130, 200), rng.randint(900, 1300))[:n]]
        else:
            lv = [(rng.randint(3, 5), rng.randint(2, 7)), (rng.randint(6, 11), rng.randint(40, 90))]
        err = rng.choice([0, 0, .02, .08])

        def block(k, t):
            if k < 0:
                for q, e in enumerate(names[:2 if len(lv) == 2 else 1]):
                    occ.add((t + (q + 1) // 2 + (rng.choice([-1, 1]) if rng.random() < err else 0), e))
                return
            for i in range(lv[k][0]):
                block(k - 1, t + i * lv[k][1] + (1 if k and rng.random() < err else 0))
        block(len(lv) - 1, rng.randint(0, 50))
    elif shape == "late":  # blocks that meet with others only after some repetitions
        P, R = rng.randint(60, 160), rng.randint(6, 10)
        for k, e in enumerate(names[:3]):
            first, off = rng.choice([0, 0, 1, 2, 3, 4]), rng.randint(0, 25)
            r, p, err = rng.choice([1, 3, 3, 4]), rng.randint(3, 8), rng.choice([0, .1, .3])
            for i in range(first, R):
                t0 = i * P + off + (rng.choice([-1, 1]) if rng.random() < err else 0)
                occ.update((t0 + j * p + (rng.choice([-1, 1]) if j and rng.random() < err else 0), e) for j in range(r))
    elif shape == "rich":  # several independent structures side by side
        for _ in range(rng.randint(4, 8)):
            t0, what = rng.randint(0, 900), rng.choice(["cycle", "concat", "nested", "nestcat", "burst"])
            ev = rng.sample(names, rng.randint(2, 4))
            p, r = rng.randint(6, 90), rng.randint(3, 12)
            if what == "cycle":
                occ.update(cyc(ev[0], t0, p, r, rng.choice([0, 0, 1, 2])))
            elif what == "concat":
                for k, e in enumerate(ev):
                    occ.update(cyc(e, t0 + k * rng.randint(0, 3), p, r, rng.choice([0, 0, 1])))
            elif what == "burst":
                occ.update((t0 + rng.randint(0, 60), rng.choice(ev)) for _ in range(rng.randint(2, 12)))
            else:
                P = rng.randint(60, 250)
                for i in range(rng.randint(3, 6)):
                    for k, e in enumerate(ev[:1 if what == "nested" else 3]):
                        occ.update(cyc(e, t0 + i * P + 2 * k + rng.choice([0, 0, 0, 1]), rng.randint(3, 9) if rng.random() < .1 else 5, 3))
    elif shape == "many":  # hundreds of candidates
        for e in names:
            x = rng.randint(0, 60)
            for _ in range(rng.randint(22, 40)):
                x += rng.choice([9, 10, 10, 10, 11, 12, 17, 3])
                occ.add((x, e))
    elif shape == "random":
        occ.update((rng.randint(0, rng.choice([30, 300, 3000])), rng.choice(names)) for _ in range(rng.randint(2, 40)))
    elif shape == "tiny":
        occ.update((rng.randint(0, 12), rng.choice(names)) for _ in range(rng.randint(2, 8)))
    elif shape == "sametime":
        p = rng.randint(1, 25)
        for e in names:
            occ.update(cyc(e, 0, p, rng.randint(3, 12)))
    if rng.random() < 0.6 and shape not in ("tiny", "many"):
        hi = max(t for t, _ in occ) + 20
        occ.update((rng.randint(0, hi), rng.choice(names)) for _ in range(rng.randint(1, 12)))
    if big:
        hi = max(t for t, _ in occ) + 20
        e = rng.choice(names)
        occ.update(cyc(e, hi, rng.randint(1, 9), rng.randint(205, 330), rng.choice([0, 0, 1])))
    occ = sorted(occ)
    while len(occ) < 2:
        occ.append((occ[-1][0] + rng.randint(1, 9), occ[-1][1]))
    return occ, names, shape


def as_log(rng, occ, kind=None, offgrid=True):
    """-> (pd.Series, kind): the same events as a log; times affinely mapped."""
    kind = kind or rng.choice(["int", "int", "int10", "neg", "range", "ns", "ms", "s", "min", "h", "day", "old", "bigint"])
    t = [x for x, _ in occ]
    ev = [e for _, e in occ]
    if kind == "range" and t != list(range(len(t))):
        kind = "int"
    if kind == "int":
        idx = pd.Index(t)
    elif kind == "range":
        idx = pd.RangeIndex(len(t))
    elif kind == "int10":
        f = rng.choice([10, 10, 100, 5000, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9])
        o = rng.choice([0, 0, 0, 1, f // 2, f // 10])
        idx = pd.Index([x * f + o for x in t])
    elif kind == "neg":
        idx = pd.Index([x - 150 for x in t])
    elif kind == "bigint":
        idx = pd.Index([x + 10 ** 12 for x in t])
    elif kind == "old":  # before 1970
        idx = pd.DatetimeIndex([pd.Timestamp("1969-12-31 20:00") + pd.Timedelta(minutes=x) for x in t])
    else:
        base = pd.Timestamp("2020-02-28")
        if rng.random() < .5:  # every record at the same hour, minute, second ... of its unit
            base += pd.Timedelta(rng.choice({"day": [8 * 3600, 8 * 3600 + 900, 30], "h": [900, 59, 1800], "min": [3600, 61, 30],
                                             "s": [3600, .5, .001]}.get(kind, [3600, 61])), unit="s")
        idx = [base + pd.Timedelta(x * UNITS[kind]) for x in t]
        if offgrid and rng.random() < .15:  # one record off the grid
            k = rng.randrange(len(t))
            idx[k] += pd.Timedelta(rng.choice([12 * 3600 * 10 ** 9, 1800 * 10 ** 9, 30 * 10 ** 9, 1, 10 ** 6, 10 ** 9]))
            kind = "ns"
        idx = pd.DatetimeIndex(idx)
    if isinstance(idx, pd.DatetimeIndex) and kind != "ns" and rng.random() < .25:  # dates of another resolution
        idx = idx.as_unit(rng.choice(["s", "ms", "us"] if kind != "ms" else ["ms", "us"]))
    elif kind == "int" and rng.random() < .15:
        dt = rng.choice(["int16", "uint16", "int32", "uint32", "uint64"])
        if all(np.iinfo(dt).min <= x <= np.iinfo(dt).max for x in t):
            idx = idx.astype(dt)
    return pd.Series(ev, index=idx), kind


def pairs(df):
    """(time, event) pairs of a frame or a series, times as integers."""
    if isinstance(df, pd.Series):
        t, e = df.index, df.values
    else:
        t, e = df["time"], df["event"]
    t = pd.Index(t)
    if isinstance(t, pd.DatetimeIndex):
        t = t.astype("datetime64[ns]").astype("int64")
    return [(int(x), y) for x, y in zip(t, e)]


# --- reference semantics of a pattern -----------------------------------------

def expand(node, t0, E):
    """Occurrences of a pattern tree ('leaf', ev) | ('rep', r, p, [(d, node), ...]) starting at t0 with corrections E."""
    E = iter([0] + list(E))
    out = []

    def go(n, base):
        if n[0] == "leaf":
            t = base + next(E)
            out.append((t, n[1]))
            return t
        _, r, p, ch = n
        first = prev_rep = prev = None
        for i in range(r):
            for k, (d, c) in enumerate(ch):
                if k == 0:
                    prev = go(c, base if i == 0 else prev_rep + p)
                    prev_rep = prev
                    if i == 0:
                        first = prev
                else:
                    prev = go(c, prev + d)
        return first
    go(node, t0)
    return out


def leaves(node):
    if node[0] == "leaf":
        return 1
    return node[1] * sum(leaves(c) for _, c in node[3])


_DUR = re.compile(r"^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d+))?$")


def duration_ns(s):
    m = _DUR.match(s)
    if not m:
        return int(s)
    d, h, mi, se, fr = m.groups()
    return ((int(d or 0) * 24 + int(h)) * 3600 + int(mi) * 60 + int(se)) * 10 ** 9 + int((fr or "0").ljust(9, "0")[:9])


def parse(s, names):
    """Parse the pattern column of the transform table (leaves first)."""
    pos = 0
    names = sorted(names, key=lambda n: -len(n))

    def node():
        nonlocal pos
        if s[pos] == "(":
            pos += 1
            ch = [(0, node())]
            while s.startswith(" [d=", pos):
                e = s.index("] ", pos)
                d = duration_ns(s[pos + 4:e])
                pos = e + 2
                ch.append((d, node()))
            assert s[pos] == ")", (s, pos)
            pos += 1
            m = re.compile(r"\[r=(\d+) p=([^\]]*)\]").match(s, pos)
            assert m, (s, pos)
            pos = m.end()
            return ("rep", int(m.group(1)), duration_ns(m.group(2)), ch)
        for n in names:
            if s.startswith(n, pos) and s[pos + len(n):pos + len(n) + 1] in (")", " "):
                pos += len(n)
                return ("leaf", n)
        raise AssertionError((s, pos))
    t = node()
    assert pos == len(s), (s, pos)
    return t


def from_nodes(nodes, nid=0):
    n = nodes[nid]
    if "children" not in n:
        return ("leaf", n["event"])
    return ("rep", int(n["r"]), int(n["p"]), [(int(d) if k else 0, from_nodes(nodes, ch)) for k, (ch, d) in enumerate(n["children"])])


def ref_code_length(tree, t0, E, counts, dT, t_end):
    """L(P) = L(A) + L(R) + L(p0) + L(t0) + L(D, nested p) + L(E), from the definition in the paper (blocks may interleave)."""
    from math import floor, log2
    N = sum(counts.values())

    def la(n):
        if n[0] == "leaf":
            return -log2(counts[n[1]] / (3 * N))
        return 2 * log2(3) + sum(la(ch) for _, ch in n[3])

    def lr(n):
        """(least frequent event in the block, code length of the repetitions in it)"""
        if n[0] == "leaf":
            return counts[n[1]], 0.
        sub = [lr(ch) for _, ch in n[3]]
        m = min(x for x, _ in sub)
        return m, log2(m) + sum(y for _, y in sub)
    _, r, p, ch = tree
    zeros = [0] * (leaves(tree) - 1)
    star = [t for t, _ in expand(tree, 0, zeros)]
    real = [t - t0 for t, _ in expand(tree, t0, E)]
    corr = [a - b for a, b in zip(real, star)]  # cumulated correction of each occurrence
    blk = len(star) // r
    za = (r - 1) * blk  # first occurrence of the last repetition
    ec = corr[za]
    cl = la(tree) + lr(tree)[1] + log2(floor((dT - ec) / (r - 1))) + log2(dT - ec - p * (r - 1) + 1) + sum(2 + abs(e) for e in E)
    if len(ch) > 1 or ch[0][1][0] == "rep":
        # last occurrence of each block whose last child is a leaf (all repetitions at their last)
        idx, ends = [], []

        def go(n, pre, last, lastrep):
            if n[0] == "leaf":
                if last and lastrep:
                    ends.append(len(idx))
                idx.append(pre)
                return
            for i in range(n[1]):
                for k, (d, c2) in enumerate(n[3]):
                    go(c2, pre + [(k, i)], k == len(n[3]) - 1, lastrep and i == n[1] - 1)
        go(tree, [], True, True)
        tmax_rep = t_end - t0 - p * (r - 1) - min(corr[k] for k in ends)
        val = max(star) - star[za]

        def pds(n, tmax, root):
            if n[0] == "leaf":
                return 0.
            _, r2, p2, ch2 = n
            if root:
                rep = tmax
            else:
                rep = tmax - r2 + 1
            out = 0. if root else log2(floor(tmax / (r2 - 1)))
            if len(ch2) > 1:
                out += (len(ch2) - 1) * log2(rep + 1)
            cum = 0
            for k, (d, c2) in enumerate(ch2):
                if k:
                    cum += d
                out += pds(c2, rep - cum, False)
            return out
        cl += pds(tree, val, True) + log2(tmax_rep + 1)
    return cl
