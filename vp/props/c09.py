"""C09: periodic pattern mining is lossless: pattern occurrences and residuals partition the log."""
from collections import Counter

import numpy as np
import pandas as pd

from vp import perlib as L

ID = "C09"
RULE = ("logs with planted cycles, jittered, concatenated, nested and combined structure, noise, same-time events, integer "
        "(negative, huge, multiples of ten, range) and datetime indexes from nanoseconds to days, before and after 1970, in and out "
        "of chronological order, with repeated records; with and without combined patterns and time scaling; non-trivial = at least "
        "one pattern and at least one pattern subset queried, distinct by (log, parameters)")
ASSUMPTIONS = ["naive datetimes; events of one log are mutually comparable; at least two records"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 2000}


def check_sorted(c, df, sort, what):
    if sort == "time":
        c.check(bool(pd.Index(df["time"]).is_monotonic_increasing), f"{what}: not in chronological order", key="sort")
    elif sort == "event":
        ev = list(df["event"])
        c.check(ev == sorted(ev), f"{what}: not sorted by event", key="sort")


def verify(c, m, S, rng, what):
    """m is fitted on S"""
    want = set(L.pairs(S))
    isdt = isinstance(S.index, pd.DatetimeIndex)
    n = len(m.miners_.getPatterns())
    sort = rng.choice(["time", "event", "construction_order"])
    rec = c.call(m.reconstruct, sort=sort)
    check_sorted(c, rec, sort, f"{what}: reconstruct")
    res = c.call(m.get_residuals, sort=sort)
    check_sorted(c, res, sort, f"{what}: get_residuals")
    for df, w in ((rec, "reconstruct"), (res, "get_residuals")):
        c.eq(list(df.columns), ["time", "event"], f"{what}: columns of {w}", key="columns")
        c.check(str(df["time"].dtype) == ("datetime64[ns]" if isdt else "int64"), f"{what}: {w} gives times as {df['time'].dtype}", key="unit")
    R, Q = Counter(L.pairs(c.call(m.reconstruct))), Counter(L.pairs(res))
    c.check(all(v == 1 for v in R.values()), f"{what}: reconstruction repeats an occurrence", key="duplicate")
    c.check(all(v == 1 for v in Q.values()), f"{what}: residuals repeat an occurrence", key="duplicate")
    c.check(set(R) <= want, f"{what}: reconstruction invents {sorted(set(R) - want)[:3]}", key="invented")
    c.check(not (set(R) & set(Q)), f"{what}: {sorted(set(R) & set(Q))[:3]} both in a pattern and in the residuals", key="overlap")
    c.eq(sorted(set(R) | set(Q)), sorted(want), f"{what}: patterns and residuals together", key="lossless")
    c.eq(Counter(L.pairs(rec)).keys(), R.keys(), f"{what}: reconstruction depends on the sort option", key="sort")
    # subsets of patterns
    cover = Counter()
    for i in range(n):
        full = L.pairs(c.call(m.reconstruct, [i], sort="construction_order"))
        one = L.pairs(c.call(m.reconstruct, [i]))
        c.eq(sorted(set(full)), sorted(one), f"{what}: occurrences of pattern {i}", key="subset")
        c.check(set(one) <= set(R), f"{what}: pattern {i} has occurrences missing from the whole", key="subset")
        cover.update(set(one))
    c.eq(set(cover), set(R), f"{what}: union of the patterns", key="subset")
    for _ in range(2 if n else 0):
        ids = rng.sample(range(n), rng.randint(1, n))
        so = rng.choice(["time", "event", "construction_order"])
        a = c.call(m.reconstruct, ids, sort=so)
        check_sorted(c, a, so, f"{what}: reconstruct({ids})")
        b = c.call(m.get_residuals, ids, sort=so)
        check_sorted(c, b, so, f"{what}: get_residuals({ids})")
        A, B = set(L.pairs(a)), Counter(L.pairs(b))
        c.eq(sorted(B.elements()), sorted(want - A), f"{what}: residuals of patterns {ids}", key="complement")
        if so != "construction_order":
            c.eq(len(a), len(A), f"{what}: repeated rows in reconstruct({ids})", key="duplicate")
        keep = c.call(m.reconstruct, ids, drop_duplicates=False)
        tot = Counter()
        for i in ids:
            tot.update(L.pairs(c.call(m.reconstruct, [i], drop_duplicates=False)))
        c.eq(Counter(L.pairs(keep)), tot, f"{what}: keeping duplicates of {ids}", key="subset")
    none = c.call(m.reconstruct, [])
    c.eq(len(none), 0, f"{what}: no pattern selected", key="subset")
    c.count("occurrences", len(want))
    c.count("patterns", n)
    c.count("residuals", len(Q))
    return n


def fit(c, m, S):
    before = S.copy(deep=True)
    r = c.call(m.fit, S, limit=120)
    c.check(r is m, "fit must return the miner")
    c.check(S.equals(before) and list(S.index) == list(before.index), "fit changed the log", key="mutation")
    return m


def small(c):
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng, shape=c.family if c.family in ("rich", "many") else None)
    S, kind = L.as_log(rng, occ)
    if rng.random() < 0.25:
        S = S.sample(frac=1, random_state=rng.randint(0, 999))
    if rng.random() < 0.2:
        S = pd.concat([S, S.sample(n=rng.randint(1, 3), random_state=1)])
        if rng.random() < 0.5:
            S = S.sort_index()
    kw = {"complex": rng.random() < 0.7 or c.family == "many", "auto_time_scale": rng.random() < 0.75}
    c.given(log=L.pairs(S), kind=kind, shape=shape, params=kw)
    m = fit(c, PeriodicPatternMiner(**kw), S)
    n = verify(c, m, S, rng, f"{kw}")
    if n:
        c.interesting(L.pairs(S), kind, kw)


def history(c):
    """one miner refitted on several logs, with reads in between"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    kw = {"complex": rng.random() < 0.6, "auto_time_scale": rng.random() < 0.75}
    m = PeriodicPatternMiner(**kw)
    hist = []
    tot = 0
    for _ in range(rng.randint(2, 4)):
        occ, names, shape = L.events(rng, max_ev=3)
        S, kind = L.as_log(rng, occ)
        hist.append((kind, L.pairs(S)))
        c.given(history=hist, params=kw)
        fit(c, m, S)
        for _ in range(rng.randint(0, 3)):
            op = rng.choice(["transform", "export", "residuals", "reconstruct"])
            hist.append(op)
            if op == "transform":
                c.call(m.transform, S, dE_sum=rng.random() < .5, chronological_order=rng.random() < .5)
            elif op == "export":
                c.call(m.export_patterns, "p.json")
            elif op == "residuals":
                c.call(m.get_residuals)
            else:
                c.call(m.reconstruct)
        tot += verify(c, m, S, rng, f"history {kw}")
    if tot:
        c.interesting(hist, kw)


def big(c):
    """more occurrences of one event than the block size of the extraction"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng, max_ev=2, big=True, shape=rng.choice(["cycles", "random", "jitter"]))
    S, kind = L.as_log(rng, occ, rng.choice(["int", "min", "neg"]))
    kw = {"complex": rng.random() < 0.3}
    c.given(log=L.pairs(S), kind=kind, params=kw)
    m = fit(c, PeriodicPatternMiner(**kw), S)
    n = verify(c, m, S, rng, f"long log {kw}")
    if n:
        c.interesting(L.pairs(S), kw)


def units(c):
    """mostly coarse times, some records finer; enough records to spread them"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    n = rng.choice([rng.randint(3, 20), rng.randint(40, 160)])
    u = rng.choice([10, 100, 1000, 10 ** 6, 10 ** 9, 60 * 10 ** 9])
    p = rng.randint(1, 30)
    t = {i * p * u if rng.random() < .9 else rng.randint(0, n * p) * u for i in range(n)}
    for _ in range(rng.choice([1, 1, 2, 3])):
        fine = rng.choice([1, 3, u // 10, u // 2, u // 10 + 1])
        where = rng.choice(["first", "last", "in", "in"])
        t.add(min(t) - fine if where == "first" else max(t) + fine if where == "last" else rng.choice(sorted(t)) + fine)
    dates = rng.random() < .5
    t = sorted(t)
    if rng.random() < .2:
        rng.shuffle(t)
    S = pd.Series([rng.choice("ab") if rng.random() < .1 else "a" for _ in t], index=pd.DatetimeIndex(pd.Timestamp("2021-03-04").value + np.array(t)) if dates else t)
    kw = {"complex": rng.random() < .3, "auto_time_scale": rng.random() < .85}
    c.given(log=L.pairs(S), dates=dates, unit=u, params=kw)
    m = fit(c, PeriodicPatternMiner(**kw), S)
    if verify(c, m, S, rng, f"mixed units {kw}"):
        c.interesting(L.pairs(S), kw)


def invalid(c):
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, _ = L.events(rng)
    S, _ = L.as_log(rng, occ, "int")
    m = PeriodicPatternMiner()
    bad = [S.to_frame(), list(S), S.values, pd.Series(list(S), index=[float(i) + .5 for i in range(len(S))]),
           pd.Series(list(S), index=[f"t{i}" for i in range(len(S))])]
    for b in bad:
        c.raises((TypeError, ValueError), m.fit, b, what=f"fit of a {type(b).__name__} with index {type(getattr(b, 'index', None)).__name__}", key="invalid")
    c.interesting(c.index)


def families(tier):
    q = tier == "quick"
    return [("small", 420 if q else 5000, small), ("history", 60 if q else 700, history), ("rich", 60 if q else 700, small), ("many", 8 if q else 40, small), ("big", 8 if q else 60, big), ("units", 80 if q else 800, units), ("invalid", 4, invalid)]
