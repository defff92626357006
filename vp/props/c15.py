"""C15: MDLP discretisation: accepted cut points, nothing else, applied to the right values."""
import math
from collections import Counter

import numpy as np
import pandas as pd

ID = "C15"
RULE = ("random numeric tables with integer labels (1-8 columns, 1-150 rows, 1-60 classes, planted intervals, noise, ties, integer and float types, negative labels): "
        "the cut points of every column without conflicting ties must be derivable by the recursive minimum-entropy / description-length rule; "
        "in all cases they are increasing midpoints of neighbouring values and transform counts the cut points below each value; "
        "non-trivial = at least one column with two or more cut points, distinct by data")
ASSUMPTIONS = ["finite values", "integer labels", "columns in which equal values carry different labels are checked for the structural clauses only "
               "(the documentation leaves their cut points open)"]
QUICK_SCALE = 5
MIN_NONTRIVIAL = {"quick": 100, "thorough": 2000}
EPS = 1e-9


def ent(cnt):
    n = sum(cnt.values())
    return -sum(v / n * math.log2(v / n) for v in cnt.values() if v)


class Ref:
    """which sets of cut positions does the rule allow on the sorted labels?"""

    def __init__(self, y):
        self.y = list(y)

    def splits(self, s, e):
        """-> [(k, acceptable: True/False/None=borderline)] for all positions of (nearly) minimal weighted entropy"""
        y, N = self.y, e - s
        if N < 2:
            return []
        left, right = Counter(), Counter(y[s:e])
        h0, k0 = ent(right), len(right)
        out = []
        for k in range(s + 1, e):
            left[y[k - 1]] += 1
            right[y[k - 1]] -= 1
            if y[k] == y[k - 1]:
                continue
            h1, h2 = ent(left), ent(right)
            w = ((k - s) * h1 + (e - k) * h2) / N
            out.append((w, k, h1, h2, len(left), sum(v > 0 for v in right.values())))
        if not out:
            return []
        m = min(o[0] for o in out)
        res = []
        for w, k, h1, h2, k1, k2 in out:
            if w <= m + EPS:
                delta = math.log2(3 ** k0 - 2) - (k0 * h0 - k1 * h1 - k2 * h2)
                d = (h0 - w) - (math.log2(N - 1) + delta) / N
                res.append((k, None if abs(d) < EPS else d > 0))
        return res

    def valid(self, s, e, cuts):
        """cuts: sorted positions strictly inside (s, e)"""
        sp = self.splits(s, e)
        if not cuts:
            return not sp or any(a is not True for _, a in sp)
        for k, a in sp:
            if a is not False and k in cuts:
                if self.valid(s, k, [c for c in cuts if c < k]) and self.valid(k, e, [c for c in cuts if c > k]):
                    return True
        return False


def column(rng, n, y):
    kind = rng.choice(["planted", "planted", "planted", "random", "ints", "ties", "const", "uint8", "int8", "tiny", "huge", "offset", "offset"])
    if kind == "planted":
        off = {l: rng.uniform(-10, 10) * rng.choice([1, 1, .2]) for l in sorted(set(y))}
        x = np.array([off[l] + rng.gauss(0, 1) for l in y])
    elif kind == "random":
        x = np.array([rng.random() for _ in y])
    elif kind == "ints":
        x = np.array([3 * l + rng.randint(0, 4) for l in y])
    elif kind == "ties":  # equal values, equal labels
        x = np.array([float(l) * 2 for l in y]) * rng.choice([1, -1])
    elif kind == "const":
        x = np.full(n, 4.0)
    elif kind == "uint8":
        x = np.array([min(255, max(0, 100 + 30 * l + rng.randint(0, 29))) for l in y], dtype="uint8")
    elif kind == "int8":
        x = np.array([min(127, max(-128, 60 + 10 * l + rng.randint(0, 9))) for l in y], dtype="int8")
    elif kind == "tiny":
        x = np.array([1e-12 * (l + rng.random() * .6) for l in y])
    elif kind == "offset":  # close values far from zero: need the full precision
        o = rng.choice([1e9, -1e9, 2.0 ** 40, 1e15])
        x = np.array([o + 8 * l + rng.randint(0, 20 if rng.random() < .05 else 7) for l in y])
    else:
        x = np.array([1e12 * (l + rng.random() * .6) for l in y])
    return x, kind


def labels(rng, n):
    k = rng.choice([1, 2, 2, 2, 3, 3, 4, 6])
    base = sorted(rng.sample(range(-3, 40), k)) if rng.random() < .4 else list(range(k))
    if rng.random() < .5:
        y = [base[min(k - 1, i * k // n)] for i in range(n)]
        for i in range(n):
            if rng.random() < .1:
                y[i] = rng.choice(base)
    else:
        y = [rng.choice(base) for _ in range(n)]
    return y


def check_column(c, x, y, cuts, name):
    """-> number of cuts; x, y plain sequences"""
    cuts = [float(v) for v in cuts]
    c.check(all(a < b for a, b in zip(cuts, cuts[1:])), f"cut points of column {name} are not increasing: {cuts[:20]}", key="order")
    order = sorted(range(len(x)), key=lambda i: float(x[i]))
    xs = [float(x[i]) for i in order]
    ys = [y[i] for i in order]
    mids = {}
    for i in range(1, len(xs)):
        mids.setdefault(xs[i - 1] / 2 + xs[i] / 2, []).append(i)

    def positions(v):
        for m, ii in mids.items():
            if abs(m - v) <= 1e-6 * max(1e-300, abs(m)) and min(xs[i - 1] for i in ii) <= v <= max(xs[i] for i in ii):
                yield from ii
    at = []
    for v in cuts:
        p = mids.get(v) or list(positions(v))
        c.check(bool(p), f"cut point {v} of column {name} is not halfway between two neighbouring values", key="midpoint")
        at.append(p)
    groups = {}
    for a, b in zip(xs, ys):
        groups.setdefault(a, set()).add(b)
    if any(len(g) > 1 for g in groups.values()):
        c.count("columns with conflicting ties")
        return len(cuts)
    # positions are unambiguous where the labels differ
    pos = [next((i for i in p if ys[i] != ys[i - 1]), None) for p in at]
    c.check(None not in pos, f"column {name}: a cut point separates two equal labels", key="rule")
    c.check(Ref(ys).valid(0, len(ys), pos),
            lambda: f"column {name}: cut points {cuts} do not follow from the entropy and description length rule", key="rule")
    c.count("columns decided")
    return len(cuts)


def snap(X):
    return X.copy(), (list(X.columns), list(X.index)) if isinstance(X, pd.DataFrame) else None


def table(c):
    from skmine.preprocessing import MDLPDiscretizer
    rng = c.rng
    n = rng.choice([1, 2, 3, rng.randint(4, 20), rng.randint(20, 80), rng.randint(40, 150) if rng.random() < .8 else rng.randint(200, 700)])
    y = labels(rng, n)
    cols = [column(rng, n, y) for _ in range(rng.randint(1, 5))]
    same = rng.random() < .25  # one narrow type for the whole matrix
    if same:
        t = rng.choice(["uint8", "int8", "int64", "float32"])
        cols = [(np.array([100 + 12 * (l % 10) + rng.randint(0, 9) if t == "uint8" else 9 * (l % 10) + rng.randint(0, 8) for l in y], dtype=t), t) for _ in cols]
    names = [rng.choice(["c%d", "%d", "zz%d"]) % i for i in range(len(cols))]
    rng.shuffle(names)
    M = np.column_stack([x for x, _ in cols])
    yt = rng.choice(["int64", "int32", "int8", "int16"])
    if rng.random() < .1:  # labels at the ends of their type, or far apart: only their identity matters
        yt, ends = rng.choice([("int8", [-128, 127, -100, 90]), ("int16", [-32768, 32767]), ("uint8", [0, 255, 128]), ("int64", [-10 ** 15, 10 ** 15, 0, 7])])
        names_ = dict(zip(sorted(set(y)), ends + [v for v in range(1, 90) if v not in ends]))
        y = [names_[l] for l in y]
    ya = np.array(y, dtype=yt)
    frame = rng.random() < .5
    idx = rng.choice([None, [7 * i + 3 for i in range(n)], ["r%d" % i for i in range(n)]])
    X = pd.DataFrame(M, columns=names, index=idx) if frame else M
    Y = pd.Series(ya, index=[5 * i for i in range(n)]) if rng.random() < .5 else ya
    seed = rng.randint(0, 99)
    c.given(n=n, kinds=[k for _, k in cols], X=M.tolist(), y=y, frame=frame, seed=seed)
    keepX, keepY = X.copy(), Y.copy()
    d = MDLPDiscretizer(random_state=seed)
    if rng.random() < .3:  # an earlier fit must not matter
        c.call(d.fit, np.array([[rng.random()] for _ in range(30)]), np.array([rng.randint(0, 1) for _ in range(30)]))
    r = c.call(d.fit, X, Y)
    c.check(r is d, "fit returns the discretizer", key="api")
    keys = list(names) if frame else list(range(len(cols)))
    c.eq(list(d.cut_points_), keys, "columns with cut points", key="api")
    cuts = {k: np.asarray(d.cut_points_[k]).copy() for k in keys}
    best = 0
    for j, k in enumerate(keys):
        best = max(best, check_column(c, M[:, j], y, cuts[k], k))
    disc = c.call(d.discover)
    c.eq({k: list(disc[k]) for k in keys}, {k: list(cuts[k]) for k in keys}, "discovered cut points", key="api")

    # transform: training data, then unseen values, in any order of columns
    def expected(T, ks):
        return [[sum(1 for v in cuts[k] if v < T[i, j]) for j, k in enumerate(ks)] for i in range(len(T))]
    T = np.array([[rng.choice([float(rng.choice(M[:, j])), rng.gauss(0, 20), -1e18, 1e18] + [float(v) for v in cuts[k]]) for j, k in enumerate(keys)]
                  for _ in range(rng.randint(1, 12))])
    for Z in (M, T):
        got = c.call(d.transform, Z)
        c.eq(np.asarray(got).tolist(), expected(Z, keys), "bins", key="bins")
        if frame:
            perm = list(range(len(keys)))
            rng.shuffle(perm)
            ks = [keys[i] for i in perm]
            ix = ["q%d" % i for i in range(len(Z))]
            F = pd.DataFrame(Z[:, perm], columns=ks, index=ix)
            got = c.call(d.transform, F)
            c.check(isinstance(got, pd.DataFrame), "a DataFrame is transformed to a DataFrame", key="api")
            c.eq(list(got.columns), ks, "columns of the transformed DataFrame", key="bins")
            c.eq(list(got.index), ix, "index of the transformed DataFrame", key="bins")
            c.eq(got.values.tolist(), expected(Z[:, perm], ks), "bins of reordered columns", key="bins")
    if frame:
        c.raises(ValueError, d.transform, pd.DataFrame(M, columns=["other%d" % i for i in range(len(keys))]), what="transform with unknown columns", key="api")
    c.check(X.equals(keepX) if frame else np.array_equal(X, keepX), "fit or transform changed the data", key="mutated")
    c.check(np.array_equal(np.asarray(Y), np.asarray(keepY)), "fit changed the labels", key="mutated")
    # same parameters, same data: same cut points; conflict-free columns also whatever the seed and the order of the rows
    d2 = MDLPDiscretizer(random_state=seed)
    got = c.call(d2.fit_transform, X, Y)
    c.eq({k: list(v) for k, v in d2.cut_points_.items()}, {k: list(v) for k, v in cuts.items()}, "cut points of a second fit with the same seed", key="deterministic")
    c.eq(np.asarray(got).tolist(), expected(M, keys), "fit_transform", key="bins")
    c.eq({k: list(v) for k, v in d.cut_points_.items()}, {k: list(v) for k, v in cuts.items()}, "cut points after transforming", key="mutated")
    p = list(range(n))
    rng.shuffle(p)
    d3 = MDLPDiscretizer(random_state=rng.randint(0, 99))
    c.call(d3.fit, M[p], ya[p])
    for j, k in enumerate(keys):
        check_column(c, M[:, j], y, d3.cut_points_[j], k)
    if best >= 2:
        c.interesting(M.tobytes(), tuple(y))


def vector(c):
    """the single-column discretizer, many classes, and its building blocks"""
    from skmine.preprocessing.mdlp_discretizer import MDLPVectDiscretizer, generate_cut_point, get_entropy_nb_ones
    rng = c.rng
    if rng.random() < .4:
        k = rng.choice([20, 39, 40, 41, 45, 60])
        m = rng.randint(6, 12) if k < 30 else rng.randint(4, 8)
        y = [l for l in range(k) for _ in range(m)]
    else:
        y = labels(rng, rng.randint(1, 120) if rng.random() < .95 else rng.randint(200, 1200))
    n = len(y)
    x, kind = (np.array([i + rng.random() * .5 for i in range(n)]), "sorted") if rng.random() < .6 else column(rng, n, y)
    p = list(range(n))
    rng.shuffle(p)
    x, ya = x[p], np.array(y)[p]
    c.given(kind=kind, x=x.tolist(), y=ya.tolist())
    d = MDLPVectDiscretizer()
    c.call(d.fit, x, ya)
    k = check_column(c, x, ya.tolist(), d.cut_points_, "vector")
    # building blocks on a slice
    z = np.array([rng.randint(0, rng.choice([1, 2, 5])) for _ in range(rng.randint(2, 30))])
    s = rng.randint(0, len(z) - 1)
    e = rng.randint(s + 1, len(z))
    got = c.call(generate_cut_point, z, s, e)
    ks = [q for q, _ in Ref(z.tolist()).splits(s, e)]
    c.check(int(got) in ks if ks else int(got) == -1, f"cut position {got} of {z.tolist()}[{s}:{e}] is not one of minimal entropy {ks}", key="cutpoint")
    h, m = c.call(get_entropy_nb_ones, z[s:e])
    cn = Counter(z[s:e].tolist())
    c.close(float(h), ent(cn), "entropy", rel=1e-9, abs_=1e-9, key="cutpoint")
    c.eq(int(m), len(cn), "number of distinct labels", key="cutpoint")
    if k >= 2:
        c.interesting(tuple(x.tolist()), tuple(ya.tolist()))


def many(c):
    """hundreds of classes, or a long chain of nested splits: deep recursion and large numbers in the threshold"""
    from skmine.preprocessing import MDLPDiscretizer
    rng = c.rng
    if rng.random() < .5:
        k, m = rng.choice([(100, 5), (300, 3), (660, 2), (700, 2)])
        y = [l for l in range(k) for _ in range(m)]
    else:  # halves of halves: the split at the right is always the best
        k, y = rng.randint(8, 12), []
        n = rng.choice([600, 900])
        for l in range(k):
            take = max(3, (n - len(y)) // 2)
            y += [l] * take
        if rng.random() < .5:
            y = y[::-1]
    x = np.array([i + .25 * rng.random() for i in range(len(y))])
    p = list(range(len(y)))
    rng.shuffle(p)
    x, ya = x[p], np.array(y)[p]
    c.given(k=k, n=len(y))
    d = c.call(MDLPDiscretizer(random_state=0).fit, x.reshape(-1, 1), ya, limit=240)
    got = check_column(c, x, ya.tolist(), d.cut_points_[0], "many")
    b = c.call(d.transform, x.reshape(-1, 1))[:, 0]
    c.eq(b.tolist(), [sum(1 for v in d.cut_points_[0] if v < q) for q in x] if got < 50 else np.searchsorted(np.sort(d.cut_points_[0]), x).tolist(), "bins", key="bins")
    if got >= 2:
        c.interesting(tuple(y), got)


def jobs(c):
    from skmine.preprocessing import MDLPDiscretizer
    rng = c.rng
    n = rng.randint(20, 60)
    y = labels(rng, n)
    M = np.column_stack([np.array([3 * l + rng.gauss(0, 1) for l in y]) for _ in range(3)])
    ya = np.array(y)
    c.given(X=M.tolist(), y=y)
    a = c.call(MDLPDiscretizer(random_state=3).fit, M, ya)
    b = c.call(MDLPDiscretizer(random_state=3, n_jobs=2).fit, M, ya)
    c.eq({k: list(v) for k, v in b.cut_points_.items()}, {k: list(v) for k, v in a.cut_points_.items()}, "cut points with two jobs", key="jobs")
    c.eq(c.call(b.transform, M).tolist(), c.call(a.transform, M).tolist(), "bins with two jobs", key="jobs")
    c.raises((AssertionError, TypeError, ValueError), MDLPDiscretizer().fit, M, ya.astype(float) + .5, what="fit with fractional labels", key="refuse")
    if len(set(y)) > 1:
        c.interesting(M.tobytes())


def families(tier):
    q = tier == "quick"
    return [("table", 250 if q else 4000, table), ("vector", 250 if q else 4000, vector), ("many", 3 if q else 40, many), ("jobs", 4 if q else 24, jobs)]
