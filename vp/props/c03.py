"""C03: SLIM's code table is a lossless, exact, disjoint cover of the data it was fitted on."""
import os

import pandas as pd

from vp import gens, slimlib as S

ID = "C03"
RULE = ("random/planted/duplicated/nested/block databases (with empty transactions and repeated items) in every accepted "
        "representation, SLIM with and without pruning, item universe and time limit; non-trivial = the code table has at least "
        "one multi-item itemset in use, distinct by (database, parameters)")
ASSUMPTIONS = ["items are hashable and mutually comparable; the data holds at least one item"]
QUICK_SCALE = 3
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1500}


def make(rng, A):
    from skmine.itemsets import SLIM
    kw = {"pruning": rng.random() < 0.6}
    if rng.random() < 0.2:
        kw["max_time"] = rng.choice([0, 0.001, 1000])
    if rng.random() < 0.3:
        kw["items"] = set(A) | set(A[:0])
    return SLIM(**kw), kw


def verify_fit(c, slim, Din, A, full_items, what):
    tab = S.table(c, slim)
    S.check_partition(c, tab, Din, what)
    # every known item keeps a code
    single = {next(iter(s)) for s, _ in tab if len(s) == 1}
    c.check(set(full_items) <= single, f"{what}: items without a singleton code: {set(full_items) - single}", key="singletons")
    rec = c.call(slim.reconstruct)
    c.eq(len(rec), len(Din), f"{what}: number of reconstructed transactions", key="reconstruct")
    for i, (r, t) in enumerate(zip(rec, Din)):
        c.check(list(r) == sorted(set(t)), f"{what}: transaction {i}: reconstructed {list(r)} original {sorted(set(t))}", key="reconstruct")
    return tab


def verify_views(c, slim, tab, what):
    """every rendering of the table tells the same story"""
    rng = c.rng
    tids = {s: t for s, t in tab}
    for _ in range(3):
        sg, rt, lx, dn = (rng.random() < 0.5 for _ in range(4))
        kw = dict(singletons=sg, return_tids=rt, lexicographic_order=lx, drop_null_usage=dn)
        want = {s: t for s, t in tab if (sg or len(s) > 1) and (t or not dn)}
        simple = all(isinstance(a, int) or (isinstance(a, str) and " " not in a) for s in tids for a in s)
        if simple and rng.random() < 0.4:
            r = c.call(slim.transform, None, out="o.dat", **kw)
            c.check(r is None, "result returned although it was written to a file")
            lines = open("o.dat").read().split("\n")[:-1]
            step = 2 if rt else 1
            c.eq(len(lines), step * len(want), f"{what}: number of lines in the file for {kw}", key="file")
            w = {frozenset(map(str, s)): t for s, t in want.items()}
            for j in range(0, len(lines), step):
                u, _, rest = lines[j].partition(") ")
                fs = frozenset(rest.split(" "))
                c.check(fs in w, f"{what}: unexpected line {lines[j]!r}", key="file")
                c.eq(int(u[1:]), len(w[fs]), f"{what}: usage in file of {rest}", key="file")
                if rt:
                    c.eq(sorted(map(int, lines[j + 1].split())), w[fs], f"{what}: tids in file", key="file")
            os.remove("o.dat")
            c.count("file_exports")
            continue
        df = c.call(slim.transform, None, **kw)
        c.eq(list(df.columns), ["itemset", "tids" if rt else "usage"], f"{what}: columns", key="view")
        got = {}
        for iset, v in zip(df["itemset"], df.iloc[:, 1]):
            if lx:
                c.check(list(iset) == sorted(iset), f"{what}: {iset} not in lexicographic order", key="view")
            c.check(len(set(iset)) == len(iset), f"{what}: repeated item in {iset}", key="view")
            got[frozenset(iset)] = sorted(map(int, v)) if rt else int(v)
        c.eq(got, {s: (t if rt else len(t)) for s, t in want.items()}, f"{what}: transform({kw})", key="view")
        c.eq(len(df), len(want), f"{what}: rows", key="view")


def small(c):
    rng = c.rng
    D, A, meta = gens.pick(c, max_tx=30, max_items=8)
    X, Din, how = S.slim_input(rng, D, A)
    slim, kw = make(rng, A if how != "ndarray" else list(range(len(A))))
    c.given(D=D, how=how, params=kw, **meta)
    c.call(slim.fit, X)
    full = kw.get("items") or set(a for t in Din for a in t)
    tab = verify_fit(c, slim, Din, A, full, f"SLIM({kw}) on {how}")
    verify_views(c, slim, tab, f"SLIM({kw}) on {how}")
    # looking at the model does not change it
    c.eq(S.table(c, slim), tab, "code table after reading it", key="view")
    if any(len(s) > 1 and t for s, t in tab):
        c.interesting(D, how, kw)


def larger(c):
    rng = c.rng
    n_items = rng.randint(10, 30)
    n_tx = rng.choice([rng.randint(60, 150), rng.randint(150, 500)])
    A, k = gens.items_alphabet(rng, n_items, rng.choice(["int", "str", "neg", "bigint", "digits"]))
    pats = [rng.sample(A, rng.randint(2, 6)) for _ in range(rng.randint(2, 4))]
    D = []
    for _ in range(n_tx):
        t = set()
        for p in pats:
            if rng.random() < 0.35:
                t |= set(p)
        if rng.random() < 0.5:
            t.add(rng.choice(A))
        D.append(sorted(t))
    X, Din, how = S.slim_input(rng, D, A, rng.choice(["list", "series", "tab_int", "tab_bool"]))
    from skmine.itemsets import SLIM
    kw = {"pruning": rng.random() < 0.6, "max_time": rng.choice([-1, 2])}
    kw["max_time"] = 3
    slim = SLIM(**kw)
    c.given(n_tx=n_tx, n_items=n_items, pats=pats, how=how, params=kw, head=D[:5])
    if not any(D):
        c.skip()
    c.call(slim.fit, X, limit=120)
    tab = verify_fit(c, slim, Din, A, set(a for t in Din for a in t), f"SLIM({kw}) on {how}")
    verify_views(c, slim, tab, f"SLIM({kw}) on {how}")
    if any(len(s) > 1 and t for s, t in tab):
        c.interesting(n_tx, n_items, pats, how, kw)


def supervised(c):
    """tabular data with a binary target: the model describes the rows of the positive class"""
    import numpy as np
    from skmine.itemsets import SLIM
    rng = c.rng
    D, A, meta = gens.transactions(rng, n_tx=rng.randint(4, 20), max_items=6)
    y = np.array([rng.random() < 0.6 for _ in D]).astype(int)
    if not any(D[i] for i in range(len(D)) if y[i]):
        c.skip("no item in the positive class")
    df = gens.tabular(D, A, int)
    pos = [t for t, b in zip(D, y) if b]
    c.given(D=D, y=y.tolist())
    slim = SLIM(pruning=rng.random() < 0.5)
    c.call(slim.fit, df, y)
    tab = S.table(c, slim)
    S.check_partition(c, tab, pos, "supervised fit")
    rec = c.call(slim.reconstruct)
    c.eq([list(r) for r in rec], [sorted(set(t)) for t in pos], "reconstruct after a supervised fit", key="reconstruct")
    if len(pos) > 1:
        c.interesting(D, y.tolist())


def families(tier):
    q = tier == "quick"
    return [("small", 1600 if q else 16000, small), ("larger", 60 if q else 500, larger), ("supervised", 200 if q else 2000, supervised),
            ("scale", 40 if q else 300, gens.scale(small)), ("huge", 4 if q else 24, gens.scale(small, "huge"))]
