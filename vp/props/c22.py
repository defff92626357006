"""C22: set, array and clique helpers compute what they say, and validation refuses exactly the invalid."""
from itertools import combinations

import numpy as np
import pandas as pd

ID = "C22"
RULE = ("random families of sets (duplicates, empty sets, chains, antichains), random integer/float/string row arrays with repeated rows and shared prefixes, random undirected graphs (sparse, dense, "
        "complete multipartite) and random arrays with window shapes are given to the helpers and compared with definitions evaluated by brute force; validators are given values on both sides of "
        "every bound; non-trivial = a non-empty strict reduction, intersection, clique or window; distinct by input")
ASSUMPTIONS = ["itemsets are sets or frozensets", "graphs are undirected without self-loops, cliques of fewer than three nodes are not reported"]
QUICK_SCALE = 8
MIN_NONTRIVIAL = {"quick": 400, "thorough": 6000}


def maximal_minimal(c):
    from skmine.utils import filter_maximal, filter_minimal
    rng = c.rng
    large = rng.random() < .04
    k = rng.randint(8, 14) if large else rng.randint(1, 7)
    A = rng.choice([list(range(k)), list("abcdefghijklmn"[:k])])
    how = rng.choice([frozenset, set])
    F = [how(rng.sample(A, rng.randint(0, k))) for _ in range(rng.choice([0, 1, rng.randint(2, 8), rng.randint(8, 60)]) if not large else rng.randint(100, 300))]
    if large and rng.random() < .7:  # many incomparable sets of about one size, and a few of all sizes
        F = [how(rng.sample(A, k // 2 + rng.choice([0, 0, 0, 1, -1]))) for _ in F] + F[:rng.randint(0, 4)]
    if rng.random() < .2:
        F += [how(A[:i]) for i in range(k + 1)]
    rng.shuffle(F)
    c.given(F=F)
    keep = [set(s) for s in F]
    form = rng.choice([lambda F: F, lambda F: iter(F), lambda F: pd.Series(F, dtype=object), tuple])
    for fn, worse, name in ((filter_maximal, lambda e, s: e > s, "maximal"), (filter_minimal, lambda e, s: e < s, "minimal")):
        got = [frozenset(s) for s in c.call(fn, form(F))]
        want = {frozenset(s) for s in F if not any(worse(e, s) for e in F)}
        c.eq(sorted(map(sorted, set(got))), sorted(map(sorted, want)), f"{name} sets", key=name)
        c.check(len(got) <= sum(1 for s in F if frozenset(s) in want), f"{name}: sets were invented", key=name)
        c.eq([len(s) for s in got], sorted(len(s) for s in got), f"{name}: sorted by size", key="order")
        if 0 < len(want) < len(set(map(frozenset, F))):
            c.interesting(name, F)
    c.eq([set(s) for s in F], keep, "the input was changed", key="mutated")


def rows(c):
    from skmine.utils import intersect2d
    rng = c.rng
    large = rng.random() < .05
    w = rng.randint(1, 4) if not large else rng.randint(1, 9)
    vals = rng.choice([[0, 1], [0, 1, 2, 3], [-1, 5, 10 ** 9], [.5, 1., -2.], ["a", "b", "cc"]])
    a, b = [[[rng.choice(vals) for _ in range(w)] for _ in range(rng.choice([1, rng.randint(1, 5), rng.randint(5, 40)]) if not large else rng.randint(100, 500))] for _ in range(2)]
    c.given(a=a, b=b)
    form = rng.choice([lambda x: x, np.array])
    x, y = form(a), form(b)
    got, ia, ib = c.call(intersect2d, x, y)
    want = sorted(set(map(tuple, a)) & set(map(tuple, b)))
    c.eq([tuple(r) for r in np.asarray(got).tolist()], want, "common rows", key="rows")
    c.eq([int(i) for i in ia], [a.index(list(r)) for r in want], "first indices in the first array", key="indices")
    c.eq([int(i) for i in ib], [b.index(list(r)) for r in want], "first indices in the second array", key="indices")
    alone = c.call(intersect2d, x, y, return_indices=False)
    c.eq(np.asarray(alone).tolist(), [list(r) for r in want], "common rows without indices", key="rows")
    c.eq((np.asarray(x).tolist(), np.asarray(y).tolist()), (a, b), "the input was changed", key="mutated")
    if want:
        c.interesting(a, b)


def windows(c):
    from skmine.utils import sliding_window_view
    rng = c.rng
    nd = rng.randint(1, 3)
    shape = tuple(rng.randint(1, 5) for _ in range(nd))
    if rng.random() < .1:
        nd, shape = rng.choice([(1, (rng.randint(20, 120),)), (2, (rng.randint(5, 14), rng.randint(5, 14))), (4, tuple(rng.randint(1, 3) for _ in range(4)))])
    X = np.arange(int(np.prod(shape))).reshape(shape) * rng.choice([1, 3]) - rng.choice([0, 5])
    how = rng.choice(["plain", "T", "step", "float", "list"])
    if how == "T":
        X = X.T
    elif how == "step":
        X = np.repeat(X, 2, axis=0)[::2]
    elif how == "float":
        X = X.astype(float)
    keep = X.copy()
    arg = X.tolist() if how == "list" else X
    axes = None if rng.random() < .5 else tuple(rng.choice(range(-nd, nd)) for _ in range(rng.randint(1, 2)))
    if axes is None:
        win = tuple(rng.randint(1, s) for s in X.shape)
        ax = tuple(range(nd))
    else:
        ax = tuple(a % nd for a in axes)
        win = tuple(rng.randint(1, max(1, X.shape[a] // (2 if len(ax) > 1 else 1))) for a in ax)
    c.given(X=X.tolist(), win=win, axes=axes)
    kw = {} if axes is None else {"axis": axes if len(axes) > 1 or rng.random() < .5 else axes[0]}
    V = c.call(sliding_window_view, arg, win if len(win) > 1 or rng.random() < .5 else win[0], **kw)
    sh = list(X.shape)
    for a, s in zip(ax, win):
        sh[a] -= s - 1
    c.eq(V.shape, tuple(sh) + win, "shape", key="shape")
    for pos in np.ndindex(*V.shape):
        i = list(pos[:nd])
        for a, o in zip(ax, pos[nd:]):
            i[a] += o
        if V[pos] != X[tuple(i)]:
            c.fail(f"window element {pos} is {V[pos]}, expected {X[tuple(i)]}", key="content")
    c.count("window elements", int(V.size))
    c.check(not V.flags.writeable, "the view is writeable", key="writeable")
    big = list(win)
    big[0] = X.shape[ax[0]] + 1
    c.raises(ValueError, sliding_window_view, X, tuple(big), axis=ax, key="refused")
    big[0] = -1
    c.raises(ValueError, sliding_window_view, X, tuple(big), axis=ax, key="refused")
    c.raises(ValueError, sliding_window_view, X, (1,) * (nd + 1), key="refused")
    c.raises(ValueError, sliding_window_view, X, (1,) * (nd + 1), axis=tuple(range(nd)), key="refused")
    c.check((X == keep).all(), "the input was changed", key="mutated")
    c.interesting(X.shape, how, win, axes)


def cliques(c):
    from skmine.utils import bron_kerbosch
    rng = c.rng
    n = rng.randint(0, 11) if rng.random() < .93 else rng.randint(12, 16)
    V = rng.choice([list(range(n)), [chr(97 + i) for i in range(n)], [("v", i) for i in range(n)]])
    p = rng.choice([.2, .5, .5, .8, .95])
    E = {frozenset(e) for e in combinations(V, 2) if rng.random() < p}
    if rng.random() < .15 and n >= 3:     # complete multipartite
        part = {v: rng.randrange(3) for v in V}
        E = {frozenset((u, v)) for u, v in combinations(V, 2) if part[u] != part[v]}
    if rng.random() < .05:                # one big clique: deep recursion
        n = rng.randint(21, 26)
        V = list(range(n + 3))
        E = {frozenset(e) for e in combinations(V[:n], 2)} | {frozenset((V[n - 1], V[n])), frozenset((V[n], V[n + 1]))}
        if rng.random() < .5:
            E |= {frozenset((V[n - 2], V[n]))}
    kind = rng.choice([list, set, frozenset, tuple, dict.fromkeys])
    order = V[:]
    rng.shuffle(order)
    G = {v: kind([u for u in order if frozenset((u, v)) in E]) for v in order}
    keep = {v: list(x) for v, x in G.items()}
    c.given(G=G)
    nb = {v: {u for u in V if frozenset((u, v)) in E} for v in V}
    big = len(V) > 12
    got = [list(q) for q in c.call(lambda: list(bron_kerbosch(G)), what="bron_kerbosch")] if not big or len(V) <= 16 else None
    if got is None:                       # a clique of n nodes: 2^n calls; the generator reports it first
        it = bron_kerbosch(G)
        first = c.call(lambda: next(it), what="bron_kerbosch", limit=20)
        it.close()
        s = set(first)
        c.check(len(s) == len(first) > 2 and all(u in nb[v] for u, v in combinations(s, 2)), "not a clique", key="clique")
        c.check(not any(s <= nb[v] for v in V if v not in s), "not maximal", key="maximal")
    else:
        want = set()

        def grow(cl, cand):
            if not cand and len(cl) > 2 and not any(cl <= nb[v] for v in V if v not in cl):
                want.add(frozenset(cl))
            for i, v in enumerate(cand):
                grow(cl | {v}, [u for u in cand[i + 1:] if u in nb[v]])
        grow(frozenset(), V)
        c.check(all(len(set(q)) == len(q) for q in got), "a node is repeated", key="clique")
        c.eq(len(got), len(set(map(frozenset, got))), "a clique is reported twice", key="clique")
        c.eq({frozenset(q) for q in got}, want, "maximal cliques", key="maximal")
        if want:
            c.interesting(sorted(map(sorted, want)), p)
    c.eq({v: list(x) for v, x in G.items()}, keep, "the graph was changed", key="mutated")
    again = c.call(lambda: list(bron_kerbosch(G)), what="bron_kerbosch") if got is not None else None
    c.eq(again, got, "second call", key="again")


def validators(c):
    import skmine.utils as U
    from skmine.itemsets import LCM
    from skmine.itemsets.lcm import LCMMax
    from skmine.emerging import MBDLLBorder
    from skmine.utils import supervised_to_unsupervised
    rng = c.rng

    def private(name):          # internal helpers: judged where they exist under this name, and through the public classes in any case
        f = getattr(U, name, None)
        return f if callable(f) else None

    _check_min_supp, _check_growth_rate, _check_random_state = private("_check_min_supp"), private("_check_growth_rate"), private("_check_random_state")
    _check_D, _check_D_y = private("_check_D"), private("_check_D_y")
    if None in (_check_min_supp, _check_growth_rate, _check_random_state, _check_D, _check_D_y):
        c.skip("internal helpers were renamed")
    D = [[1, 2], [1, 3], [1, 2, 3]]
    # supports
    bad = rng.choice([0, -1, -rng.randint(1, 1000), -rng.random() - 1e-9, 1 + 1e-9 + rng.random(), float("nan"), float("inf"), -float("inf"), 150.5])
    c.raises(ValueError, _check_min_supp, bad, what=f"minimum support {bad}", key="supp")
    c.raises(ValueError, lambda: LCM(min_supp=bad).fit(D), what=f"LCM with minimum support {bad}", key="supp")
    c.raises(ValueError, lambda: LCMMax(min_supp=bad).fit(D), what=f"LCMMax with minimum support {bad}", key="supp")
    for bad in rng.sample(["2", None, [.2], (1,), {}], 2):
        c.raises(TypeError, _check_min_supp, bad, key="supp")
        c.raises(TypeError, lambda: LCM(min_supp=bad).fit(D), key="supp")
    good = rng.choice([1, rng.randint(1, 1000), rng.random(), 0.0, 1.0, 1e-300, 5e-324, np.float64(.3)])
    c.call(_check_min_supp, good)
    bad = rng.choice([rng.randint(1, 9), -.1, 1.1, float("nan")])
    c.raises(ValueError, _check_min_supp, bad, accept_absolute=False, key="supp")
    c.raises(ValueError, MBDLLBorder, min_supp=bad, key="supp")
    # growth rates
    bad = rng.choice([1, 1.0, 0, -3, rng.random(), float("nan"), -float("inf")])
    c.raises(ValueError, _check_growth_rate, bad, key="growth")
    c.raises(ValueError, MBDLLBorder, min_growth_rate=bad, key="growth")
    good = rng.choice([1 + 1e-12, 1 + rng.random(), 2, rng.uniform(2, 1e9), float("inf")])
    c.eq(c.call(_check_growth_rate, good), good, "growth rate", key="growth")
    # random states
    s = rng.choice([0, rng.randint(0, 2 ** 32 - 1), np.int64(5)])
    r = c.call(_check_random_state, s)
    c.eq(r.randint(0, 10 ** 9, 5).tolist(), np.random.RandomState(s).randint(0, 10 ** 9, 5).tolist(), "generator of a seed", key="seed")
    R = np.random.RandomState(3)
    c.check(c.call(_check_random_state, R) is R, "generator objects are used as they are", key="seed")
    c.raises(ValueError, _check_random_state, rng.choice(["a", .5, [1], object()]), key="seed")
    # tabular data
    n, k = rng.randint(1, 6), rng.randint(1, 5)
    X = np.array([[rng.randint(0, 1) for _ in range(k)] for _ in range(n)])
    before = pd.get_option("mode.use_inf_as_na")
    df = pd.DataFrame(X, index=rng.sample(range(100), n), columns=rng.sample("abcdefgh", k))
    kept = df.copy()
    T = c.call(_check_D, df)
    c.eq((T.values.tolist(), list(T.index), list(T.columns)), (X.tolist(), list(range(n)), list(df.columns)), "checked table", key="table")
    c.check(df.equals(kept), "the table was changed", key="mutated")
    T = c.call(_check_D, X)
    c.eq(T.values.tolist(), X.tolist(), "checked array", key="table")
    import scipy.sparse
    T = c.call(_check_D, scipy.sparse.csr_matrix(X))
    c.eq(np.asarray(T).tolist(), X.tolist(), "checked sparse matrix", key="table")
    Y = X.astype(float)
    Y[rng.randrange(n), rng.randrange(k)] = rng.choice([np.nan, np.inf, -np.inf])
    c.raises(ValueError, _check_D, rng.choice([pd.DataFrame(Y), Y]), what="data with missing or infinite values", key="table")
    c.eq(pd.get_option("mode.use_inf_as_na"), before, "option of pandas after a refusal", key="options")
    c.raises(TypeError, _check_D, D, key="table")
    c.raises(TypeError, _check_D, X.astype(str).astype(object), key="table")
    c.raises(ValueError, _check_D, np.empty((3, 0)), key="table")
    c.raises(TypeError, _check_D_y, X, [1] * n, key="table")
    wide = np.ones((n, k + rng.randint(1, 3)), dtype=int)
    m = c.call(LCM(min_supp=1).fit, X)
    c.call(m.transform, X)
    c.raises(ValueError, m.transform, wide, what="a table wider than the one mined", key="table")
    # positive examples
    y = np.array([rng.randint(0, 1) for _ in range(n)])
    P = c.call(supervised_to_unsupervised, df, rng.choice([y, y.reshape(-1, 1), y.astype(bool)]))
    c.eq((P.values.tolist(), list(P.index)), (X[y == 1].tolist(), [i for i, v in zip(df.index, y) if v]), "positive rows", key="positive")
    c.interesting(bad, good, s, X.tolist())


def families(tier):
    q = tier == "quick"
    return [("maximal_minimal", 200 if q else 3000, maximal_minimal), ("rows", 200 if q else 3000, rows), ("windows", 150 if q else 2500, windows), ("cliques", 200 if q else 3000, cliques),
            ("validators", 80 if q else 800, validators)]
