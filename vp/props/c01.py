"""C01: the closed-itemset miner returns exactly the closed frequent itemsets."""
import os

import numpy as np
import pandas as pd

from vp import gens, oracles as O

ID = "C01"
RULE = ("random, planted, duplicated, nested, dense, sparse and block-structured transaction databases over "
        "int/str/float/negative items, in every accepted container, mined with absolute and relative thresholds and every "
        "output option; non-trivial = at least two closed frequent itemsets expected, at least one of them not a single "
        "item, distinct by (database, threshold, options)")
ASSUMPTIONS = ["items are hashable and mutually comparable, minimum support > 0",
               "the order of the rows of the result is not part of the property"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}


def pick_min_supp(rng, n):
    r = rng.random()
    if r < 0.5:
        return rng.randint(1, max(1, n // 2) if rng.random() < 0.7 else n)
    if r < 0.6:
        return rng.choice([1, n, n + 1])
    if r < 0.75:
        # threshold reached exactly, nearly reached or just passed by a support value
        return min(1.0, max(1e-9, (rng.randint(1, n) + rng.choice([0, 0, 0, 1e-2, 1e-3, 1e-5, -1e-2, -1e-3, -1e-5])) / n))
    return rng.choice([0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.75, 0.9, 1.0, 0.07, 0.14, 0.29, 0.55, 0.57, 0.58])


def threshold(min_supp, n):
    """-> (certain, possible): itemsets with support >= certain must be there, < possible must not."""
    if isinstance(min_supp, int):
        return min_supp, min_supp
    t = min_supp * n
    k = round(t)
    if abs(t - k) < 1e-6:  # the relative threshold is a whole number of transactions
        return k, k
    import math
    return math.ceil(t), math.ceil(t)


def check_df(c, df, expected, D, return_tids, lexi, what):
    cols = ["itemset", "support"] + (["tids"] if return_tids else [])
    c.check(isinstance(df, pd.DataFrame), f"{what}: not a DataFrame")
    c.eq(list(df.columns), cols, f"{what}: columns")
    got = {}
    for i, row in enumerate(df.itertuples(index=False)):
        iset = row.itemset
        fs = frozenset(iset)
        c.check(len(fs) == len(list(iset)), f"{what}: repeated item in {list(iset)}")
        c.check(fs not in got, f"{what}: {sorted(fs)} reported twice", key="duplicate")
        if lexi:
            c.check(list(iset) == sorted(iset), f"{what}: {iset} is not in lexicographic order", key="order")
        got[fs] = row
    missing = [sorted(s) for s in expected if s not in got]
    extra = [sorted(s) for s in got if s not in expected]
    c.check(not missing, f"{what}: missing itemsets {missing[:5]} ({len(missing)})", key="missing")
    c.check(not extra, f"{what}: unexpected itemsets {extra[:5]} ({len(extra)})", key="extra")
    for s, row in got.items():
        c.eq(int(row.support), len(expected[s]), f"{what}: support of {sorted(s)}", key="support")
        if return_tids:
            c.eq(sorted(int(x) for x in row.tids), sorted(expected[s]), f"{what}: tids of {sorted(s)}", key="tids")
    c.count("itemsets", len(got))


def parse_file(path, with_tids):
    lines = open(path).read().split("\n")
    assert lines[-1] == ""
    lines = lines[:-1]
    out = []
    i = 0
    while i < len(lines):
        head, _, rest = lines[i].partition(") ")
        sup = int(head.lstrip("("))
        tids = None
        if with_tids:
            i += 1
            tids = [int(x) for x in lines[i].split()]
        out.append((frozenset(rest.split(" ")), rest.split(" "), sup, tids))
        i += 1
    return out


def check_file(c, path, expected, with_tids, what):
    rows = parse_file(path, with_tids)
    want = {frozenset(map(str, s)): t for s, t in expected.items()}
    c.eq(len(rows), len(want), f"{what}: number of itemsets in the file", key="file")
    for fs, raw, sup, tids in rows:
        c.check(fs in want, f"{what}: unexpected itemset {raw} in the file", key="file")
        c.check(len(raw) == len(fs), f"{what}: repeated item {raw}", key="file")
        c.eq(sup, len(want[fs]), f"{what}: support in file of {raw}", key="file")
        if with_tids:
            c.eq(sorted(tids), sorted(want[fs]), f"{what}: tids in file of {raw}", key="file")
    c.eq(len({r[0] for r in rows}), len(rows), f"{what}: duplicate lines in the file", key="file")


def containers_for(D, rng):
    ways = list(gens.CONTAINERS)
    if D and len({len(t) for t in D}) == 1 and len(D[0]) > 0:
        ways.append("ndarray2d")
    return rng.choice(ways)


def build(D, how):
    if how == "ndarray2d":
        return np.array([list(t) for t in D])
    return gens.as_container(D, how)


MINER = "LCM"


def expected_for(D, thr):
    return O.closed_frequent(D, thr)


def miner():
    import skmine.itemsets.lcm as m
    return getattr(m, MINER)


def small(c, expected_fn=expected_for):
    rng = c.rng
    D, A, meta = gens.pick(c)
    if rng.random() < 0.12 and not hasattr(c, "scale"):  # relative thresholds that name a whole number of transactions
        D, A, meta = gens.transactions(rng, n_tx=rng.choice([25, 50, 100, 100, 200]), max_items=5)
        ms = rng.choice([0.07, 0.14, 0.28, 0.29, 0.55, 0.56, 0.57, 0.58, rng.randint(1, 99) / 100])
        k = round(ms * len(D))
        if k >= 1 and rng.random() < 0.7:  # an item whose support is exactly the threshold
            a = rng.choice(A)
            D = [[x for x in t if x != a] for t in D]
            for i in rng.sample(range(len(D)), k):
                D[i].append(a)
    else:
        ms = pick_min_supp(rng, len(D))
    how = containers_for(D, rng)
    X = build(D, how)
    c.given(D=D, min_supp=ms, container=how, **meta)
    thr, _ = threshold(ms, len(D))
    exp = expected_fn(D, thr)
    M = miner()
    est = M(min_supp=ms)
    # a first plain run, then further runs on the same fitted miner with other options
    c.call(est.fit, X)
    first = True
    for _ in range(rng.randint(1, 3)):
        rt, lx = rng.random() < 0.5, rng.random() < 0.6
        ml = -1 if rng.random() < 0.5 else rng.randint(rng.random() > .1, max(1, len(A)))
        e = {s: t for s, t in exp.items() if ml == -1 or len(s) <= ml}
        kw = dict(return_tids=rt, lexicographic_order=lx)
        if ml != -1 or rng.random() < 0.3:
            kw["max_length"] = ml
        plain_str = all(isinstance(a, int) or (isinstance(a, str) and " " not in a) for a in A)
        if plain_str and rng.random() < 0.3:
            path = rng.choice(["out.dat", os.path.join(os.getcwd(), "sub_out.dat")])
            if rng.random() < 0.3:
                open(path, "w").write("(99) stale line\n" * 50)
            r = c.call(est.transform, X, out=path, **kw)
            c.check(r is None, "result returned although it was written to a file")
            check_file(c, path, e, rt, f"transform(out, {kw})")
            c.eq(sorted(os.listdir(".")), [os.path.basename(path)], "files left behind by a file export", key="leftover")
            os.remove(path)
            c.count("file_exports")
        else:
            df = c.call(est.transform, X, **kw) if not first or rng.random() < 0.7 else c.call(M(min_supp=ms).fit_transform, X, **kw)
            check_df(c, df, e, D, rt, lx, f"transform({kw})")
        first = False
    if len(exp) >= 2 and any(len(s) > 1 for s in exp):
        c.interesting(D, ms, how)


def refit(c, expected_fn=expected_for):
    """one miner object, a history of fits on different databases and thresholds"""
    rng = c.rng
    M = miner()
    est = M(min_supp=2)
    n = rng.randint(2, 4)
    hist = []
    for _ in range(n):
        D, A, meta = gens.transactions(rng, max_tx=15, max_items=6)
        ms = pick_min_supp(rng, len(D))
        hist.append((D, ms))
        c.given(history=hist)
        est.set_params(min_supp=ms)
        thr, _ = threshold(ms, len(D))
        exp = expected_fn(D, thr)
        kw = dict(return_tids=rng.random() < 0.5, lexicographic_order=rng.random() < 0.5)
        X = gens.as_container(D, rng.choice(["list", "series"]))
        df = c.call(est.fit_transform, X, **kw)
        check_df(c, df, exp, D, kw["return_tids"], kw["lexicographic_order"], "refit")
        c.eq(est.get_params()["min_supp"], ms, "min_supp parameter after fit")
    c.interesting(hist)


def large(c, expected_fn=None):
    """databases beyond exhaustive enumeration: soundness of every row, completeness by sampled closures"""
    rng = c.rng
    kind = rng.choice(["many_tx", "many_items", "mixed"])
    if kind == "many_tx":
        n_tx, n_items, ms = rng.randint(300, 3000), rng.randint(4, 12), None
    elif kind == "many_items":
        n_tx, n_items, ms = rng.randint(20, 60), rng.randint(70, 400), None
    else:
        n_tx, n_items, ms = rng.randint(100, 400), rng.randint(15, 40), None
    A, k = gens.items_alphabet(rng, n_items, rng.choice(["int", "str", "bigint", "neg"]))
    pats = [rng.sample(A, min(len(A), rng.randint(2, 7))) for _ in range(rng.randint(3, 8))]
    D = []
    for _ in range(n_tx):
        t = set()
        for p in pats:
            if rng.random() < 0.3:
                t |= {x for x in p if rng.random() < 0.95}
        for _ in range(rng.randint(0, 3)):
            t.add(rng.choice(A))
        D.append(list(t))
    ms = rng.choice([max(2, n_tx // 10), max(2, n_tx // 5), 0.1, 0.15, 0.3])
    thr, _ = threshold(ms, n_tx)
    c.given(kind=kind, n_tx=n_tx, n_items=n_items, min_supp=ms, head=D[:5])
    M = miner()
    rt = rng.random() < 0.5
    df = c.call(M(min_supp=ms).fit_transform, D, return_tids=rt)
    T = [frozenset(t) for t in D]
    vert = {a: set() for a in A}
    for i, t in enumerate(T):
        for a in t:
            vert[a].add(i)

    def ext(s):
        return set.intersection(*(vert[a] for a in s))

    got = {}
    for row in df.itertuples(index=False):
        s = frozenset(row.itemset)
        c.check(s not in got, f"{sorted(s)} reported twice", key="duplicate")
        got[s] = row
        e = ext(s)
        c.eq(int(row.support), len(e), f"support of {sorted(s)}", key="support")
        c.check(len(e) >= thr, f"{sorted(s)} is not frequent", key="extra")
        if rt:
            c.eq(sorted(map(int, row.tids)), sorted(e), f"tids of {sorted(s)}", key="tids")
        if MINER == "LCM":
            cl = frozenset.intersection(*(T[i] for i in e))
            c.check(cl == s, f"{sorted(s)} is not closed (closure {sorted(cl)})", key="extra")
        else:
            for a in A:
                if a not in s:
                    c.check(len(e & vert[a]) < thr, f"{sorted(s)} is not maximal: {a} can be added", key="extra")
    c.count("itemsets", len(got))
    # completeness, sampled: closures (greedy maximal extensions) of random itemsets
    found = 0
    for _ in range(400):
        if rng.random() < 0.5:
            t = rng.choice(T)
            if not t:
                continue
            s = set(rng.sample(sorted(t), rng.randint(1, min(4, len(t)))))
        else:
            i, j = rng.sample(range(n_tx), 2)
            s = set(T[i] & T[j])
        if not s:
            continue
        e = ext(s)
        if len(e) < thr:
            continue
        if MINER == "LCM":
            cl = frozenset.intersection(*(T[i] for i in e))
        else:
            cand = sorted(A)
            rng.shuffle(cand)
            for a in cand:
                if a not in s and len(e & vert[a]) >= thr:
                    s.add(a)
                    e &= vert[a]
            cl = frozenset(s)
        found += 1
        c.check(cl in got, f"missing itemset {sorted(cl)} support {len(e)}", key="missing")
    c.count("sampled_closures", found)
    if len(got) > 3 and found:
        c.interesting(kind, n_tx, n_items, ms, c.index)


def jobs(c, expected_fn=expected_for):
    rng = c.rng
    D, A, meta = gens.transactions(rng, n_tx=rng.randint(8, 25), n_items=rng.randint(4, 8), shape=rng.choice(["random", "planted"]),
                                   kind=rng.choice(["int", "str"]))
    ms = rng.randint(1, 4)
    nj = rng.choice([2, 3, -1])
    c.given(D=D, min_supp=ms, n_jobs=nj)
    exp = expected_fn(D, ms)
    M = miner()
    df = c.call(M(min_supp=ms, n_jobs=nj).fit_transform, D, return_tids=True)
    check_df(c, df, exp, D, True, True, f"n_jobs={nj}")
    if all(isinstance(a, int) or " " not in a for a in A):
        for d in ("elsewhere", "TEMP_dir", "tmp"):   # directories of the user; the workers of the first call keep the old working directory
            os.mkdir(d)
            with open(os.path.join(d, "mine.dat"), "w") as f:
                f.write("mine")
        if rng.random() < .5:
            os.chdir("elsewhere")
            os.mkdir("TEMP_dir")
        c.call(M(min_supp=ms, n_jobs=nj).fit_transform, D, out="o.dat")
        check_file(c, "o.dat", exp, False, f"n_jobs={nj} out")
        c.check(os.path.isdir("TEMP_dir"), "a directory of the user was removed", key="side-effects")
        if os.path.basename(os.getcwd()) == "elsewhere":
            os.chdir("..")
        for d in ("elsewhere", "TEMP_dir", "tmp"):
            c.check(os.path.exists(os.path.join(d, "mine.dat")), f"a file of the user in {d} was removed", key="side-effects")
        c.check(set(os.listdir(".")) <= {"elsewhere", "TEMP_dir", "tmp", "o.dat"}, f"files left: {os.listdir('.')}", key="side-effects")
    if len(exp) >= 2:
        c.interesting(D, ms, nj)


def invalid(c):
    rng = c.rng
    D, A, _ = gens.transactions(rng, max_tx=8, max_items=4)
    M = miner()
    bad = [-1, 0, -100, 1.5, 2.33, -0.1, "3", None, [2]]
    for b in rng.sample(bad, 4):
        c.given(D=D, min_supp=b)
        c.raises((ValueError, TypeError), M(min_supp=b).fit, D, what=f"fit with min_supp={b!r}", key="invalid")
    c.interesting(D)


def families(tier):
    q = tier == "quick"
    return [("small", 2000 if q else 20000, small),
            ("refit", 300 if q else 3000, refit),
            ("large", 60 if q else 500, large),
            ("scale", 40 if q else 300, gens.scale(small)),
            ("huge", 4 if q else 24, gens.scale(small, "huge")),
            ("jobs", 12 if q else 60, jobs),
            ("invalid", 8 if q else 40, invalid)]
