"""C05: covering and scoring new data with a fitted SLIM model."""
import math

import numpy as np
import pandas as pd

from vp import gens, slimlib as S

ID = "C05"
RULE = ("a SLIM model fitted on one database encodes another one (subsets, unions, unseen items, empty rows, duplicates, the "
        "training data itself) given as transactions or as a table; non-trivial = some row is covered by a multi-item itemset or "
        "by at least two itemsets, distinct by (training data, new data, parameters)")
ASSUMPTIONS = ["code lengths compared with relative tolerance 1e-4 (single precision)"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}


def new_data(rng, D, A, unseen):
    out = []
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        if r < 0.3:
            t = list(rng.choice(D))
        elif r < 0.5:
            t = [a for a in rng.choice(D) if rng.random() < 0.6]
        elif r < 0.65:
            t = list(set(rng.choice(D)) | set(rng.choice(D)))
        elif r < 0.75:
            t = list(A)
        elif r < 0.8:
            t = []
        else:
            t = [a for a in A if rng.random() < 0.5]
        if unseen and rng.random() < 0.3:
            t = t + rng.sample(unseen, rng.randint(1, len(unseen)))
        rng.shuffle(t)
        out.append(t)
    return out


def order_ok(c, tab, Din, what):
    supp = {}
    T = [frozenset(t) for t in Din]
    key = []
    for s, _ in tab:
        supp[s] = sum(s <= t for t in T)
        key.append((-len(s), -supp[s], sorted(s)))
    c.check(key == sorted(key), lambda: f"{what}: code table not in standard cover order: {[sorted(s) for s, _ in tab]}", key="order")


def verify(c, slim, tab, new, X, what, ref=None):
    order = [s for s, _ in tab]
    known = frozenset().union(*order)
    cover = c.call(slim.cover, X)
    c.check(isinstance(cover, pd.DataFrame), f"{what}: cover is not a DataFrame")
    c.eq(len(cover), len(new), f"{what}: rows of the cover", key="cover")
    cols = [frozenset(x) for x in cover.columns]
    c.eq(len(set(cols)), len(cols), f"{what}: repeated column", key="cover")
    c.check(set(cols) <= set(order), f"{what}: columns that are not in the code table", key="cover")
    M = np.asarray(cover.values, dtype=bool) if len(cols) else np.zeros((len(new), 0), dtype=bool)
    codes = S.laplace_codes([(s, len(t)) for s, t in tab])
    want_len = []
    nontrivial = False
    for i, t in enumerate(new):
        used = {cols[j] for j in np.where(M[i])[0]}
        g = S.greedy(order, frozenset(t) & known)
        c.check(used == set(g), lambda: f"{what}: row {i} {t} covered by {[sorted(s) for s in used]}, greedy cover is {[sorted(s) for s in g]}", key="cover")
        nontrivial |= len(g) > 1 or any(len(s) > 1 for s in g)
        want_len.append(sum(codes[s] for s in g) if g else math.inf)
    cl = c.call(slim.get_code_length, X)
    c.eq(len(cl), len(new), f"{what}: number of code lengths", key="codelen")
    c.check(str(cl.dtype) == "float32", f"{what}: dtype {cl.dtype}", key="codelen")
    dec = c.call(slim.decision_function, X)
    c.eq(len(dec), len(new), f"{what}: number of scores", key="score")
    for i, (x, w, d) in enumerate(zip(cl.values, want_len, dec.values)):
        c.check((math.isinf(x) and math.isinf(w)) or abs(x - w) <= 1e-3 + 1e-4 * abs(w),
                f"{what}: code length of row {i} {new[i]}: got {x} expected {w}", key="codelen")
        c.check(0 <= d <= 1, f"{what}: score {d} out of [0, 1]", key="score")
        e = 0.0 if math.isinf(w) else math.exp(-0.2 * float(x))
        c.check(abs(d - e) <= 1e-36 + 1e-3 * e, f"{what}: score of row {i}: got {d}, code length {w}", key="score")
    # a shorter code never scores lower
    pairs = sorted((float(x), float(d)) for x, d in zip(cl.values, dec.values))
    for (x1, d1), (x2, d2) in zip(pairs, pairs[1:]):
        c.check(d2 <= d1 + 1e-7, f"{what}: score not decreasing in the code length", key="score")
    c.count("rows_encoded", len(new))
    return nontrivial, cl


def small(c):
    from skmine.itemsets import SLIM
    rng = c.rng
    D, A, meta = gens.pick(c, max_tx=25, max_items=8)
    tabular = rng.random() < 0.4
    kw = {"pruning": rng.random() < 0.5}
    extra, _ = gens.items_alphabet(rng, len(A) + 3, meta["kind"])
    unseen = [a for a in extra if a not in set(A)]
    if rng.random() < 0.3:
        kw["items"] = set(A) | set(unseen[:1])
    slim = SLIM(**kw)
    new = new_data(rng, D, A, unseen)
    if hasattr(c, "scale") and rng.random() < 0.5:
        new = [list(t) for t in D] + new
    c.given(D=D, new=new, params=kw, tabular=tabular, **meta)
    seen = sorted({a for t in D for a in t})
    if tabular:
        c.call(slim.fit, gens.tabular(D, seen, rng.choice([int, bool])))
        allc = sorted({a for t in new for a in t} | set(seen)) if rng.random() < 0.6 else sorted({a for t in new for a in t})
        if not allc:
            c.skip()
        rng.shuffle(allc)
        X = gens.tabular(new, allc, rng.choice([int, bool]))
        if rng.random() < 0.4:
            X.index = [3 * i + 11 for i in range(len(X))]
    else:
        c.call(slim.fit, gens.as_container(D, rng.choice(["list", "series", "list_tuple"])))
        X = gens.as_container(new, rng.choice(["list", "list", "series", "list_tuple", "list_set", "series_perm_index", "series_dup_index", "series_offset_index"]))
    tab = S.table(c, slim)
    order_ok(c, tab, D, "fitted model")
    nt, cl = verify(c, slim, tab, new, X, f"SLIM({kw}) tabular={tabular}")
    c.eq(S.table(c, slim), tab, "encoding new data changed the model", key="readonly")
    # each row is encoded for itself: alone it gets the same code length
    i = rng.randrange(len(new))
    one = X.iloc[[i]] if hasattr(X, "iloc") else [X[i]]
    if new[i] or tabular:
        alone = c.call(slim.get_code_length, one).values[0]
        c.check((math.isinf(alone) and math.isinf(cl.values[i])) or abs(alone - cl.values[i]) < 1e-3,
                f"row {i} alone has code length {alone}, in a batch {cl.values[i]}", key="batch")
    # the same object, its contents changed by the caller
    if len(new) > 1 and rng.random() < 0.4:
        if isinstance(X, list):
            X.reverse()
            new = new[::-1]
        elif isinstance(X, pd.DataFrame):
            X.iloc[:, 0] = 1 - X.iloc[:, 0].astype(int) if X.dtypes.iloc[0] != bool else ~X.iloc[:, 0]
            new = [[a for a, v in zip(X.columns, r) if v] for r in X.values]
        else:
            k = rng.randrange(len(new))
            X.iloc[0], X.iloc[k] = X.iloc[k], X.iloc[0]
            new[0], new[k] = new[k], new[0]
        verify(c, slim, tab, new, X, f"SLIM({kw}) tabular={tabular}, data changed in place")
        c.count("changed_in_place")
    if nt:
        c.interesting(D, new, kw, tabular)


def wide(c):
    """many items, long rows, many rows"""
    from skmine.itemsets import SLIM
    rng = c.rng
    n = rng.randint(20, 60) if rng.random() < .7 else rng.randint(90, 150)
    A, k = gens.items_alphabet(rng, n, rng.choice(["int", "str", "digits"]))
    pats = [rng.sample(A, rng.randint(2, 5)) for _ in range(4)]
    D = [sorted(set(sum((p for p in pats if rng.random() < 0.4), [])) | set(rng.sample(A, 2))) for _ in range(rng.randint(20, 60))]
    kw = {"pruning": rng.random() < 0.5, "max_time": 3}
    slim = SLIM(**kw)
    new = new_data(rng, D, A, []) + [rng.sample(A, rng.randint(1, n)) for _ in range(rng.randint(20, 80))]
    c.given(D=D, new=new[:5], params=kw)
    c.call(slim.fit, D, limit=120)
    tab = S.table(c, slim)
    order_ok(c, tab, D, "fitted model")
    nt, _ = verify(c, slim, tab, new, new, f"wide SLIM({kw})")
    if nt:
        c.interesting(D, len(new), kw)


def families(tier):
    q = tier == "quick"
    return [("small", 1800 if q else 18000, small), ("wide", 60 if q else 500, wide), ("scale", 40 if q else 300, gens.scale(small)),
            ("huge", 4 if q else 24, gens.scale(small, "huge"))]
