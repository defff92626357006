"""C16: emerging patterns: borders describe exactly the itemsets frequent in one collection and not in the other."""
from itertools import chain, combinations

import numpy as np
import pandas as pd

from vp import gens

ID = "C16"
RULE = ("random two-class transaction databases (up to 8 items, brute-force lattice of all itemsets as oracle), thresholds around exact supports, empty and "
        "identical classes, and random families of sets for the border operations; non-trivial = some itemset is emerging and some frequent itemset is not, "
        "distinct by data and thresholds")
ASSUMPTIONS = ["each class holds at least one item", "minimum growth rate times minimum support at most 1"]
QUICK_SCALE = 5
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1500}


def powerset(s):
    s = sorted(s, key=repr)
    return [frozenset(x) for x in chain.from_iterable(combinations(s, k) for k in range(len(s) + 1))]


def minimal(fam):
    return {x for x in fam if not any(z < x for z in fam)}


def between(L, R):
    return {x for x in powerset(R) if any(set(l) <= x for l in L)}


def strictly(L, R, size):
    return {x for x in powerset(R) if len(x) >= size and x != frozenset(R) and any(set(l) < x for l in L)}


def mining(c):
    from skmine.emerging import MBDLLBorder
    rng = c.rng
    D, A, info = gens.transactions(rng, max_tx=30, max_items=8, n_items=rng.randint(1, 8), **({"n_tx": rng.randint(60, 400)} if rng.random() < .06 else {}))
    n = len(D)
    if n < 2:
        c.skip("one transaction")
    y = [rng.random() < .5 for _ in range(n)]
    if rng.random() < .3:  # identical or nested classes
        D = D + [list(t) for t in D[: rng.randint(1, n)]]
        y = [False] * n + [True] * (len(D) - n)
        n = len(D)
    if rng.random() < .3:  # an item that tells the classes apart
        for t, l in zip(D, y):
            if l and rng.random() < .9 and A[0] not in t:
                t.append(A[0])
            elif not l and A[0] in t and rng.random() < .9:
                t[:] = [i for i in t if i != A[0]]
    names = rng.choice([(0, 1), ("a", "b"), (-1, 1), ("no", "yes"), (3, 10), (1.5, 2.5)])
    D1 = [set(t) for t, l in zip(D, y) if not l]
    D2 = [set(t) for t, l in zip(D, y) if l]
    if not any(D1) or not any(D2):
        c.skip("a class without item")
    n1, n2 = len(D1), len(D2)
    if rng.random() < .5:
        ms = rng.choice([.125, .25, .5, .0625])
        gr = rng.choice([2, 4, 1.5, 1.25])
    else:
        gr = rng.choice([2, 3, 1.2, 1.7, 5])
        ms = rng.uniform(.02, .6)
    if gr * ms > 1:
        c.skip("nothing can be that frequent")
    if gr * ms not in (.125, .25, .5, 1, .375, .75, .625, .1875, .3125, .15625, .09375, .078125) and any(abs(k - gr * ms * n2) < 1e-6 for k in range(n2 + 1)):
        c.skip("support on the edge of an inexact threshold")
    if any(abs(k - ms * n1) < 1e-6 for k in range(n1 + 1)) and ms not in (.125, .25, .5, .0625):
        c.skip("support on the edge of an inexact threshold")
    how = rng.choice(["array", "series", "list", "category"])
    lab = [names[int(l)] for l in y]
    idx = list(range(n)) if rng.random() < .7 else [10 * i + 1 for i in range(n)]
    S = pd.Series([list(t) for t in D], index=idx)
    Y = {"array": np.array(lab), "series": pd.Series(lab, index=idx), "list": list(lab), "category": pd.Series(lab, index=idx, dtype="category")}[how]
    size = rng.choice([1, 1, 2, 2, 3])
    c.given(D=D, y=lab, min_supp=ms, min_growth_rate=gr, min_size=size, labels=how)
    keep = [list(t) for t in S]
    m = MBDLLBorder(min_growth_rate=gr, min_supp=ms)
    if rng.random() < .3:
        c.call(m.fit, pd.Series([[1, 2, 3], [1, 2, 4], [2, 3], [4, 5, 6]] * 2), np.array([0, 0, 1, 1] * 2))
    out = c.call(m.fit_discover, S, Y, min_size=size)
    c.eq([list(t) for t in S], keep, "the data was changed", key="mutated")
    lat = powerset(A)
    f1 = {x for x in lat if x and sum(x <= t for t in D1) >= ms * n1 - 1e-9}
    f2 = {x for x in lat if x and sum(x <= t for t in D2) >= gr * ms * n2 - 1e-9}
    em = f2 - f1
    got = set()
    for L, R in m.borders_:
        got |= between(L, R)
        c.check(len({frozenset(l) for l in L}) == len(minimal({frozenset(l) for l in L})), f"left border {L} has comparable sets", key="border")
    got.discard(frozenset())
    c.eq(sorted(map(sorted_, got)), sorted(map(sorted_, em)), "itemsets between the borders", key="border")
    mine = minimal(em)
    maxi = {x for x in f2 if not any(x < z for z in f2)}
    want = {x for x in em - mine - maxi if len(x) >= size}
    c.check(isinstance(out, pd.Series), "discover returns a Series", key="api")
    gotp = {frozenset(p) for p in out}
    if not f1:  # whether single items are minimal then is a matter of convention
        gotp, want = ({x for x in F if len(x) > 1} for F in (gotp, want))
    c.check(all(len(set(p)) == len(p) for p in out), "an item is repeated in a pattern", key="patterns")
    bad = gotp - em
    c.check(not bad, lambda: f"{sorted_(next(iter(bad)))} is reported but is not emerging", key="patterns")
    c.eq(sorted(map(sorted_, gotp)), sorted(map(sorted_, want)), "reported emerging patterns", key="patterns")
    again = {frozenset(p) for p in c.call(m.discover, min_size=1)}
    c.eq(sorted(map(sorted_, {x for x in again if len(x) >= max(size, 1 if f1 else 2)})), sorted(map(sorted_, want)), "patterns discovered again", key="patterns")
    c.count("emerging itemsets", len(em))
    c.count("reported", len(gotp))
    if em and f2 & f1:
        c.interesting(D, lab, ms, gr)


def sorted_(x):
    return sorted(x, key=repr)


def borders(c):
    from skmine.emerging.mbdldorber import border_diff, borders_to_patterns, mbdllborder
    rng = c.rng
    A, _ = gens.items_alphabet(rng, rng.randint(1, 8))

    def some(k=None):
        return set(rng.sample(A, rng.randint(0, len(A)) if k is None else k))
    U = some(rng.randint(1, len(A)))
    S = [some() & U if rng.random() < .7 else some() for _ in range(rng.randint(1, 5))]
    c.given(U=U, S=S)
    keep = (set(U), [set(s) for s in S])
    L, R = c.call(border_diff, set(U), [set(s) for s in S])
    c.eq(set(R), U, "right border of the difference", key="diff")
    want = {x for x in powerset(U) if not any(x <= s for s in S)}
    c.eq(sorted(map(sorted_, between(L, R))), sorted(map(sorted_, want)), "border difference", key="diff")
    c.eq(sorted(map(sorted_, {frozenset(l) for l in L})), sorted(map(sorted_, minimal(want))), "left border of the difference", key="diff")
    # several right borders
    fam = lambda: [set(x) for x in sorted({frozenset(some(rng.randint(1, len(A)))) for _ in range(rng.randint(1, 5))}, key=repr)]
    mx = lambda F: [x for x in F if not any(x < z for z in F)]
    I1, I2 = mx(fam()), mx(fam())
    if rng.random() < .1:
        I1 = []
    c.given(isets1=I1, isets2=I2)
    k1, k2 = [set(x) for x in I1], [set(x) for x in I2]
    B = c.call(mbdllborder, I1, I2)
    c.eq((I1, I2), (k1, k2), "the itemsets passed in were changed", key="mutated")
    got = set()
    for L, R in B:
        got |= between(L, R)
    want = {x for r in I2 for x in powerset(r) if not any(x <= s for s in I1)}
    c.eq(sorted(map(sorted_, got)), sorted(map(sorted_, want)), "union of the borders", key="diff")
    for L, R in B:
        if not L:
            continue
        size = rng.choice([None, 1, 2, 3])
        pats = list(c.call(borders_to_patterns, L, R, min_size=size))
        w = strictly(L, R, size or min(map(len, L)))
        c.eq(sorted(sorted_(p) for p in pats), sorted(map(sorted_, w)), "patterns between two borders", key="patterns")
        c.eq([len(p) for p in pats], sorted((len(p) for p in pats), reverse=True), "bigger patterns come first", key="patterns")
    if want and len(I1) > 1:
        c.interesting(keep, k1, k2)


def wide(c):
    """right borders of 10-13 items and left borders of dozens to hundreds of sets"""
    from skmine.emerging.mbdldorber import border_diff, borders_to_patterns, mbdllborder
    rng = c.rng
    n = rng.randint(9, 12)
    A, _ = gens.items_alphabet(rng, n)
    U = set(A)
    S = [set(rng.sample(A, rng.randint(n // 2, n - 2))) for _ in range(rng.randint(4, 14))]
    S = [s for i, s in enumerate(S) if not any(s < z for z in S) and s not in S[:i]]
    c.given(U=U, S=S)
    L, R = c.call(border_diff, set(U), [set(s) for s in S])
    P = powerset(U)
    want = {x for x in P if not any(x <= s for s in S)}
    mini = {x for x in want if all(x - {a} not in want for a in x)}
    c.eq(sorted(map(sorted_, {frozenset(l) for l in L})), sorted(map(sorted_, mini)), "left border of the difference", key="diff")
    c.check(all(not any(set(a) < set(b) for a in L) for b in L), "left border has comparable sets", key="diff")
    B = c.call(mbdllborder, [set(s) for s in S], [set(U)])
    c.eq(len(B), 1, "number of borders", key="diff")
    c.eq(sorted(map(sorted_, {frozenset(l) for l in B[0][0]})), sorted(map(sorted_, mini)), "left border", key="diff")
    size = rng.choice([1, 2, 4])
    pats = [frozenset(p) for p in c.call(borders_to_patterns, [set(l) for l in mini], set(U), min_size=size)]
    w = {x for x in want - mini if len(x) >= size and len(x) < n}
    c.check(set(pats) == w and len(pats) == len(w), lambda: f"{len(pats)} patterns, {len(w)} expected; e.g. {[sorted_(x) for x in list(w ^ set(pats))[:2]]}", key="patterns")
    c.count("left border sets", len(mini))
    if len(mini) > 10:
        c.interesting(sorted(map(sorted_, S)))


def refusals(c):
    from skmine.emerging import MBDLLBorder
    rng = c.rng
    bad = (AssertionError, ValueError, TypeError)
    c.raises(ValueError, MBDLLBorder, min_growth_rate=rng.choice([1, .5, 0, -2]), what="growth rate of at most 1", key="refuse")
    c.raises(ValueError, MBDLLBorder, min_supp=rng.choice([1.5, -.1, 3, 1]), what="minimum support outside 0..1", key="refuse")
    D = pd.Series([[1, 2], [2], [1, 3], [3]])
    c.raises(bad, MBDLLBorder().fit, D, np.array([0, 1, 2, 1]), what="three classes", key="refuse")
    c.raises(bad, MBDLLBorder().fit, D, np.array([1, 1, 1, 1]), what="one class", key="refuse")
    m = MBDLLBorder(n_jobs=2, min_supp=.25, min_growth_rate=1.5)
    T, A, _ = gens.transactions(rng, n_tx=24, n_items=6, kind="int", shape="planted", allow_empty=False)
    y = np.array([i % 2 for i in range(24)])
    c.given(D=T, y=y.tolist())
    S = pd.Series([list(t) for t in T])
    a = c.call(m.fit_discover, S, y, min_size=1)
    b = c.call(MBDLLBorder(min_supp=.25, min_growth_rate=1.5).fit_discover, S, y, min_size=1)
    c.eq(sorted(sorted_(p) for p in a), sorted(sorted_(p) for p in b), "patterns with two jobs", key="jobs")
    c.interesting(T)


def families(tier):
    q = tier == "quick"
    return [("mining", 800 if q else 6000, mining), ("borders", 600 if q else 6000, borders), ("wide", 40 if q else 600, wide), ("refusals", 4 if q else 16, refusals)]
