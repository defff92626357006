"""C11: the table of periodic patterns is a faithful description, in the log's own time unit, of what the patterns cover."""
import datetime
import re

import pandas as pd

from vp import perlib as L
from vp.props import c09

ID = "C11"
RULE = ("the logs of C09; every row of the table is expanded by an independent interpreter of the pattern notation and compared with the "
        "occurrences reconstructed for that pattern identifier; non-trivial = a row with non-zero corrections or combined structure, "
        "distinct by (log, parameters)")
ASSUMPTIONS = ["sub-microsecond periods of dated logs are shown with microsecond resolution in the pattern text, so only the "
               "numeric columns are compared there", "without time scaling the table of a dated log gives nanoseconds"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 120, "thorough": 2000}


def num(x):
    if isinstance(x, pd.Timestamp):
        return x.value
    if isinstance(x, pd.Timedelta):
        return x.value
    return int(x)


def verify(c, m, S, names, rng, what):
    isdt = isinstance(S.index, pd.DatetimeIndex)
    n = len(m.miners_.getPatterns())
    full = c.call(m.transform, S, dE_sum=False)
    summ = c.call(m.transform, S)
    raw = c.call(m.transform, S, dE_sum=False, chronological_order=False)
    if n == 0:
        c.eq(len(full) + len(summ), 0, f"{what}: table without patterns", key="rows")
        return False
    c.eq(sorted(full.index), list(range(n)), f"{what}: one row per pattern identifier", key="rows")
    c.eq(list(raw.index), list(range(n)), f"{what}: unsorted table", key="rows")
    c.eq(list(summ.columns), ["t0", "pattern", "repetition_major", "period_major", "sum_E"], f"{what}: columns", key="rows")
    t = [num(x) for x in full["t0"]]
    c.check(t == sorted(t), f"{what}: the table is not in chronological order", key="order")
    if isdt and m.auto_time_scale:
        c.eq(str(summ["t0"].dtype), "datetime64[ns]", f"{what}: type of t0", key="unit")
        c.eq(str(summ["period_major"].dtype), "timedelta64[ns]", f"{what}: type of the period", key="unit")
        c.eq(str(summ["sum_E"].dtype), "timedelta64[ns]", f"{what}: type of sum_E", key="unit")
    nontrivial = False
    for i in range(n):
        row, srow, urow = full.loc[i], summ.loc[i], raw.loc[i]
        for col in ("t0", "pattern", "repetition_major", "period_major"):
            c.eq(row[col], srow[col], f"{what}: {col} of pattern {i} in both tables", key="rows")
            c.eq(row[col], urow[col], f"{what}: {col} of pattern {i} in the unsorted table", key="rows")
        E = [num(e) for e in row["E"]]
        c.eq([num(e) for e in urow["E"]], E, f"{what}: corrections of pattern {i}", key="rows")
        c.eq(num(srow["sum_E"]), sum(abs(e) for e in E), f"{what}: sum_E of pattern {i}", key="sum_E")
        got = L.pairs(c.call(m.reconstruct, [i], sort="construction_order", drop_duplicates=False))
        tree = L.parse(row["pattern"], names)
        c.eq(tree[1], int(row["repetition_major"]), f"{what}: repetitions of pattern {i}", key="text")
        if isdt and any(x % 1000 for x in [v for v, _ in L.pairs(S)]):
            simple = tree[3][0][1][0] == "leaf" and len(tree[3]) == 1
            if not simple:
                continue  # distances below the resolution of the text
            tree = ("rep", tree[1], num(row["period_major"]), tree[3])
        else:
            c.eq(tree[2], num(row["period_major"]), f"{what}: period of pattern {i} in its text and its column", key="text")
        want = L.expand(tree, num(row["t0"]), E)
        c.eq(got, want, f"{what}: occurrences of pattern {i} {row['pattern']} from {row['t0']} with corrections {E}", key="expand")
        c.count("rows")
        if any(E) or len(tree[3]) > 1 or tree[3][0][1][0] == "rep":
            nontrivial = True
    return nontrivial


_NODE = re.compile(r'^\s*(\d+) \[label=("(?:[^"\\]|\\.)*"|[^\s\]]+)', re.M)
_DIST = re.compile(r'^\s*\d+ -> \d+ \[label=("(?:[^"\\]|\\.)*"|[^\s\]]+).*dotted', re.M)


def unquote(x):
    return x[1:-1].replace('\\"', '"') if x.startswith('"') else x


def drawing(c, m, S, names, what):
    """the drawing of a pattern shows the tree of its row"""
    isdt = isinstance(S.index, pd.DatetimeIndex)
    if isdt and (not m.auto_time_scale or any(v % 10 ** 9 for v, _ in L.pairs(S))):
        return
    tab = c.call(m.transform, S)
    for i in tab.index:
        row = tab.loc[i]
        g = c.call(m.draw_pattern, i)
        src = g.source
        tree = L.parse(row["pattern"], names)
        want, dist = [], []

        def dur(x):
            return str(datetime.timedelta(microseconds=x / 1000)) if isdt else str(x)

        def go(n, root):
            if n[0] == "leaf":
                want.append(n[1])
                return
            t = (f"\U0001d70f={row['t0']}\n" if root else "") + f"p={dur(n[2])}\nr={n[1]}"
            want.append(t)
            for k, (d, ch) in enumerate(n[3]):
                if k and d:
                    dist.append(dur(d))
                go(ch, False)
        go(tree, True)
        labels = [unquote(x) for _, x in _NODE.findall(src)]
        c.eq(sorted(labels), sorted(want), f"{what}: labels in the drawing of pattern {i}", key="drawing")
        got = [unquote(x) for x in _DIST.findall(src)]
        c.eq(sorted(x for x in got if x not in ("0", "0:00:00")), sorted(dist), f"{what}: distances in the drawing of pattern {i}", key="drawing")
        c.count("drawings")


def trees(c, m):
    """what can be read from the patterns themselves"""
    out = []
    for p, t0, E in m.miners_.getPatterns():
        q = c.call(p.copy)
        nodes, nxt, ids = c.call(q.getTranslatedNodes, 7)
        c.call(q.mapEvents, ["<%d>" % k for k in range(40)])
        out.append((repr(sorted(nodes.items())), nxt, sorted(ids.items()), str(q), int(t0), [int(e) for e in E]))
    return out


def small(c):
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng)
    S, kind = L.as_log(rng, occ)
    if rng.random() < 0.2:
        S = S.sample(frac=1, random_state=3)
    kw = {"complex": rng.random() < 0.75, "auto_time_scale": rng.random() < 0.8}
    c.given(log=L.pairs(S), kind=kind, shape=shape, params=kw)
    m = c09.fit(c, PeriodicPatternMiner(**kw), S)
    before = trees(c, m)
    if verify(c, m, S, names, rng, f"{kind} {kw}"):
        c.interesting(L.pairs(S), kw)
    draw = rng.random() < 0.4
    if draw:
        drawing(c, m, S, names, f"{kind} {kw}")
    c.eq(trees(c, m), before, f"{kind} {kw}: the patterns after reading their table", key="changed")
    if draw:
        if rng.random() < 0.4:  # drawn after another fit: its own pattern, or refused
            occ2, names2, _ = L.events(rng)
            S2, _ = L.as_log(rng, occ2)
            c09.fit(c, m, S2)
            fresh = c09.fit(c, PeriodicPatternMiner(**kw), S2)
            tab = c.call(fresh.transform, S2, chronological_order=False)
            for i in range(len(m.miners_.getPatterns()) + 1):
                try:
                    src = m.draw_pattern(i).source
                except Exception:  # noqa: not drawn
                    continue
                c.check(i in tab.index, f"{kind} {kw}: after a refit pattern {i} is drawn, which does not exist", key="drawing-refit")
                c.eq(src, c.call(fresh.draw_pattern, i).source, f"{kind} {kw}: drawing of pattern {i} after a refit", key="drawing-refit")
                c.count("drawings_after_refit")
    c.count("kind_" + kind)


def scaling(c):
    """the unit of the log changes the units of the result, nothing else"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng)
    cx = rng.random() < 0.6
    t00 = occ[0][0]
    if rng.random() < .35:  # times before zero
        t00 += rng.randint(1, 400)
    occ = [(t - t00, e) for t, e in occ]
    # times with a common unit: the same log in coarser units must give the same patterns, scaled
    if any(t % 10 for t, _ in occ) is False:
        occ.append((occ[-1][0] + 7, occ[-1][1]))
    S = pd.Series([e for _, e in occ], index=pd.Index([t for t, _ in occ]))
    m = c09.fit(c, PeriodicPatternMiner(complex=cx), S)
    base = c.call(m.transform, S, dE_sum=False, chronological_order=False)
    mult, kind = rng.choice([(10, "int"), (1000, "int"), (10 ** 6, "int"), (10 ** 9, "dt"), (60 * 10 ** 9, "dt"), (10 ** 6, "dt")])
    idx = [t * mult for t, _ in occ]
    S2 = pd.Series([e for _, e in occ], index=pd.to_datetime(idx) if kind == "dt" else pd.Index(idx))
    c.given(log=occ, mult=mult, kind=kind, complex=cx)
    if mult == 60 * 10 ** 9 and not any(t % 60 for t, _ in occ):
        c.skip("would be an hour scale")
    if mult == 10 ** 9 and not any(t % 60 for t, _ in occ):
        c.skip("would be a minute scale")
    m2 = c09.fit(c, PeriodicPatternMiner(complex=cx), S2)
    tab = c.call(m2.transform, S2, dE_sum=False, chronological_order=False)
    c.eq(len(tab), len(base), "number of patterns in another unit", key="scale")
    for i in range(len(base)):
        a, b = base.loc[i], tab.loc[i]
        c.eq(num(b["t0"]), num(a["t0"]) * mult, f"t0 of pattern {i} in units of {mult}", key="scale")
        c.eq(num(b["period_major"]), num(a["period_major"]) * mult, f"period of pattern {i} in units of {mult}", key="scale")
        c.eq([num(e) for e in b["E"]], [num(e) * mult for e in a["E"]], f"corrections of pattern {i} in units of {mult}", key="scale")
        c.eq(int(b["repetition_major"]), int(a["repetition_major"]), f"repetitions of pattern {i}", key="scale")
    if len(base):
        c.interesting(occ, mult, kind, cx)


def families(tier):
    q = tier == "quick"
    return [("small", 350 if q else 5000, small), ("scaling", 120 if q else 1500, scaling)]
