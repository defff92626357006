"""C06: the SLIM classifier assigns each transaction to the class whose own model encodes it shortest."""
import math

import numpy as np
import pandas as pd

from vp import gens, slimlib as S

ID = "C06"
RULE = ("labelled databases with 1-5 classes (int, str, bool, negative labels; unsorted, unbalanced), with and without item "
        "universe and pruning, predicted on training rows, mixtures, unseen items, very long rows; the code length of every row under "
        "every class model is recomputed; non-trivial = at least two classes and a row with a unique best class, distinct by case data")
ASSUMPTIONS = ["when two classes give (nearly) the same length, within 1e-3 bits, either is accepted",
               "a row without any item known to a class has infinite length there; if so for all classes any class is accepted"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1200}


def labels(rng, k):
    return rng.choice([list(range(k)), [f"c{i}" for i in range(k)], [10 - 3 * i for i in range(k)], ["b", "a", "z", "m", "B", "c", "A", "y", "C", "n", "d", "Z", "k", "D"][:k]])


def lengths(c, model, X):
    tab = S.table(c, model)
    codes = S.laplace_codes([(s, len(t)) for s, t in tab])
    order = [s for s, _ in tab]
    known = frozenset().union(*order) if order else frozenset()
    out = []
    for t in X:
        g = S.greedy(order, frozenset(t) & known)
        out.append(sum(codes[s] for s in g) if g else math.inf)
    return out, tab


def run(c, D, y, kw, X, container, what):
    from skmine.itemsets.slim_classifier import SlimClassifier
    clf = SlimClassifier(**kw)
    Xf = gens.as_container(D, container)
    yf = pd.Series(y) if container.startswith("series") else (np.array(y) if c.rng.random() < 0.5 else list(y))
    if container in ("series_offset_index", "series_perm_index", "series_dup_index"):
        yf.index = Xf.index
    r = c.call(clf.fit, Xf, yf)
    c.check(r is clf, "fit must return the estimator")
    classes = sorted(set(y))
    c.eq(list(clf.classes_), classes, f"{what}: classes", key="classes")
    c.eq(len(clf.models_), len(classes), f"{what}: one model per class", key="classes")
    per = {k: [t for t, l in zip(D, y) if l == k] for k in classes}
    L = []
    for k, model, cx in zip(classes, clf.models_, clf.classes_X_):
        c.eq([frozenset(t) for t in cx], [frozenset(t) for t in per[k]], f"{what}: training rows of class {k}", key="classes")
        l, tab = lengths(c, model, X)
        S.check_partition(c, tab, per[k], f"{what}: model of class {k}")
        c.eq(bool(model.get_params()["pruning"]), bool(kw.get("pruning", False)), f"{what}: pruning of class {k}", key="pruning")
        if kw.get("items"):
            c.check(set(kw["items"]) <= {next(iter(s)) for s, _ in tab if len(s) == 1}, f"{what}: class {k} has no code for some item of the universe", key="items")
        L.append(l)
    pred = c.call(clf.predict, gens.as_container(X, c.rng.choice(["list", "series", "list_tuple", "series_offset_index", "series_perm_index", "series_dup_index"])))
    c.eq(np.shape(pred), (len(X),), f"{what}: shape of the prediction", key="predict")
    uniq = 0
    for i in range(len(X)):
        ls = [l[i] for l in L]
        p = classes.index(pred[i]) if pred[i] in classes else None
        c.check(p is not None, f"{what}: predicted {pred[i]!r} is not a class", key="predict")
        best = min(ls)
        if math.isinf(best):
            continue
        c.check(ls[p] <= best + 1e-3 + 1e-4 * best, f"{what}: row {i} {X[i]} assigned to {pred[i]!r} with {ls[p]} bits although "
                f"{classes[ls.index(best)]!r} needs {best}", key="predict")
        if sorted(ls)[1:2] and sorted(ls)[1] > best + 0.01:
            uniq += 1
    # predicting in smaller batches, or again, gives the same answers
    i = c.rng.randrange(len(X))
    if X[i]:
        one = c.call(clf.predict, [list(X[i])])
        c.check(one[0] == pred[i] or _near([l[i] for l in L]), f"{what}: row {i} alone is {one[0]!r}, in the batch {pred[i]!r}", key="batch")
    again = c.call(clf.predict, [list(t) for t in X])
    c.check(all(a == b for a, b in zip(again, pred)), f"{what}: predicting twice differs", key="batch")
    c.count("predictions", len(X))
    return clf, uniq


def _near(ls):
    s = sorted(ls)
    return len(s) > 1 and (s[1] - s[0] < 1e-2 or math.isinf(s[0]))


def small(c):
    rng = c.rng
    k = rng.choice([1, 2, 2, 2, 3, 4, 5]) if rng.random() < .95 else rng.randint(6, 14)
    lab = labels(rng, k)
    D, y = [], []
    A, kind = gens.items_alphabet(rng, rng.randint(3, 9))
    for j in range(k):
        own = rng.sample(A, rng.randint(1, len(A)))
        for _ in range(rng.randint(1, 10)):
            t = [a for a in A if rng.random() < (0.7 if a in own else 0.15)]
            D.append(t or [rng.choice(own)])
            y.append(lab[j])
    idx = list(range(len(D)))
    rng.shuffle(idx)
    D, y = [D[i] for i in idx], [y[i] for i in idx]
    kw = {}
    if rng.random() < 0.6:
        kw["items"] = set(A)
    if rng.random() < 0.6:
        kw["pruning"] = rng.random() < 0.5
    X = [list(rng.choice(D)) for _ in range(rng.randint(1, 8))] + [[a for a in A if rng.random() < 0.5] or [A[0]] for _ in range(4)]
    extra, _ = gens.items_alphabet(rng, len(A) + 2, kind)
    extra = [a for a in extra if a not in A]
    if extra and rng.random() < 0.4:
        X.append([extra[0], A[0]])
        X.append([extra[0]])
    c.given(D=D, y=y, params=kw, X=X)
    _, u = run(c, D, y, kw, X, rng.choice(["list", "series", "series_offset_index", "series_perm_index", "series_dup_index", "list_tuple"]), f"SlimClassifier({kw})")
    if u:
        c.interesting(D, y, kw)


def scale(c):
    """classes of very different, large sizes"""
    rng = c.rng
    D, y = [], []
    A = "abcdef"
    for j in range(rng.randint(2, 4)):
        E, _, _ = gens.scaled(rng)
        names = dict(zip(sorted({a for t in E for a in t}), rng.sample(A, len(A))))
        E = [[names[a] for a in t] for t in E]
        D += E
        y += [j] * len(E)
    kw = {"pruning": rng.random() < 0.5}
    if rng.random() < 0.7:
        kw["items"] = set(A)
    X = [[a for a in A if rng.random() < 0.5] or ["a"] for _ in range(12)]
    c.given(sizes={j: y.count(j) for j in set(y)}, X=X, params=kw)
    _, u = run(c, D, y, kw, X, "list", "large classes")
    if u:
        c.interesting(len(D), X, kw)


def long_rows(c):
    """long transactions: hundreds of bits per row"""
    rng = c.rng
    n = rng.randint(60, 130)
    A, kind = gens.items_alphabet(rng, n, rng.choice(["int", "str"]))
    half = n // 2
    D, y = [], []
    for j in range(2):
        for _ in range(rng.randint(3, 5)):
            own = A[:half] if j == 0 else A[half:]
            D.append(rng.sample(own, rng.randint(2, 6)))
            y.append(j)
    kw = {"items": set(A)}
    X = []
    for _ in range(6):
        X.append(sorted(rng.sample(A, rng.randint(n - 20, n))))
    X += [list(t) for t in D[:3]]
    c.given(D=D, y=y, X=X, params="items=all")
    _, u = run(c, D, y, kw, X, "list", "long rows")
    if u:
        c.interesting(D, X)


def refit(c):
    rng = c.rng
    from skmine.itemsets.slim_classifier import SlimClassifier
    clf = SlimClassifier(pruning=rng.random() < 0.5)
    hist = []
    for _ in range(2):
        k = rng.randint(2, 3)
        D = [[rng.choice("abcdef") for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(k + 2, 12))]
        y = [rng.randrange(k) for _ in D]
        y[:k] = range(k)
        hist.append((D, y))
        c.given(history=hist)
        c.call(clf.fit, D, y)
        p1 = list(c.call(clf.predict, D))
        fresh = SlimClassifier(pruning=clf.pruning)
        c.call(fresh.fit, D, y)
        p2 = list(c.call(fresh.predict, D))
        c.eq(p1, p2, "a refitted classifier predicts like a fresh one", key="refit")
        c.eq(list(clf.classes_), sorted(set(y)), "classes after refit", key="refit")
        c.eq(len(clf.models_), len(set(y)), "models after refit", key="refit")
    c.interesting(hist)


def families(tier):
    q = tier == "quick"
    return [("small", 800 if q else 8000, small), ("scale", 24 if q else 200, scale), ("long_rows", 32 if q else 240, long_rows), ("refit", 80 if q else 800, refit)]
