"""C20: synthetic data has the requested shape and is reproducible; descriptions are exact."""
import math
from itertools import chain

import numpy as np
import pandas as pd

from vp import gens

ID = "C20"
RULE = ("random parameters of the generators (sizes 0-400, densities over the whole open interval, item offsets, 1-6 classes, unbalanced and zero weights, separations, seeds as ints or "
        "generator objects) checked for shape, alphabet, distinctness, size statistics (6 sigma), reproducibility and global random state; random databases and logs described "
        "independently; non-trivial = at least 20 generated transactions, or a described data set of at least 3 rows; distinct by parameters")
ASSUMPTIONS = ["statistics of sizes are checked tightly for densities up to one half, within a tenth of the alphabet above"]
QUICK_SCALE = 5
MIN_NONTRIVIAL = {"quick": 200, "thorough": 3000}


def dens(rng):
    return rng.choice([rng.uniform(.01, .5), rng.uniform(.01, .99), .5, .25, .1, .9, .99])


def as_lists(D):
    return [sorted(int(i) for i in t) for t in D]


def tx_ok(c, D, lo, n_items, d, what):
    for t in D:
        t = [int(i) for i in t]
        c.check(len(set(t)) == len(t), f"{what}: repeated item in {t}", key="distinct")
        c.check(all(lo <= i < lo + n_items for i in t), f"{what}: {t} leaves the alphabet {lo}..{lo + n_items - 1}", key="alphabet")
    n = len(D)
    if n >= 20:
        mean = sum(len(t) for t in D) / n
        avg = d * n_items
        tol = 6 * math.sqrt(avg / 2) / math.sqrt(n) + .5 + 1e-9
        if d > .5:
            tol += .1 * n_items + .5
        c.check(abs(mean - avg) <= tol, f"{what}: average size {mean:.3f}, expected about {avg:.3f} (tolerance {tol:.3f})", key="density")
        c.count("size statistics")
    if n * math.floor(2 * d * n_items + 1e-9) / 2 / n_items >= 60:
        c.check(len(set(chain(*as_lists(D)))) == n_items, f"{what}: items of the alphabet are never used", key="alphabet")


def transactions(c):
    from skmine.datasets import make_transactions
    rng = c.rng
    n = rng.choice([0, 1, 2, rng.randint(3, 40), rng.randint(100, 400)])
    k = rng.choice([1, 2, rng.randint(3, 30), rng.randint(30, 200)])
    d = dens(rng)
    start = rng.choice([0, 0, 1, 7, 1000, -5])
    seed = rng.randint(0, 2 ** 31)
    kw = dict(n_transactions=n, n_items=k, density=d, item_start=start)
    c.given(seed=seed, **kw)
    np.random.seed(rng.randint(0, 10 ** 6))
    st = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    D = c.call(make_transactions, random_state=seed, **kw)
    c.check((np.random.get_state()[1].tobytes(), np.random.get_state()[2]) == st, "the global random state changed", key="global")
    c.check(isinstance(D, pd.Series), "a Series is returned", key="api")
    c.eq(len(D), n, "number of transactions", key="shape")
    c.eq(list(D.index), list(range(n)), "index", key="shape")
    tx_ok(c, D, start, k, d, "make_transactions")
    E = c.call(make_transactions, random_state=seed, **kw)
    c.eq(as_lists(E), as_lists(D), "second call with the same seed", key="reproducible")
    r = np.random.RandomState(seed)
    F = c.call(make_transactions, random_state=r, **kw)
    c.eq(as_lists(F), as_lists(D), "same seed as a generator object", key="reproducible")
    if n >= 20 and k >= 8 and 2 <= d * k and d <= .5:
        G = c.call(make_transactions, random_state=r, **kw)
        c.check(as_lists(G) != as_lists(D), "the generator object does not advance", key="reproducible")
        H = c.call(make_transactions, random_state=seed + 1, **kw)
        c.check(as_lists(H) != as_lists(D), "the seed is ignored", key="reproducible")
        I, J = c.call(make_transactions, **kw), c.call(make_transactions, **kw)
        c.check(as_lists(I) != as_lists(J), "data without seed is not random", key="random")
        tx_ok(c, I, start, k, d, "make_transactions without seed")
    if rng.random() < .3:
        full = dict(n_transactions=1000, n_items=100, density=.5, item_start=0)
        some = {a: kw[a] for a in full if rng.random() < .5}
        c.eq(as_lists(c.call(make_transactions, random_state=seed, **some)), as_lists(c.call(make_transactions, random_state=seed, **{**full, **some})),
             f"documented defaults, given {some}", key="defaults")
    for bad in (0, 1, 0.0, 1.0, -.2, 42):
        c.raises(ValueError, make_transactions, 5, 5, bad)
    if n >= 20:
        c.interesting(n, k, d, start, seed)


def classification(c):
    from skmine.datasets import make_classification
    rng = c.rng
    n = rng.choice([1, rng.randint(2, 40), 100, rng.randint(100, 400)])
    k = rng.choice([rng.randint(1, 10), rng.randint(10, 60)])
    q = rng.choice([1, 2, 2, 3, 3, rng.randint(4, 6)])
    sep = rng.choice([0, 0.0, .2, .5, 1.0, 1, rng.random()])
    w = None
    if rng.random() < .6:
        x = [rng.choice([0, rng.random(), 1]) for _ in range(q)]
        if sum(x) == 0:
            x[0] = 1
        w = [v / sum(x) for v in x]
    ds = None if rng.random() < .5 else [dens(rng) for _ in range(q)]
    seed = rng.choice([rng.randint(0, 2 ** 31), 0])
    sh = rng.random() < .6
    kw = dict(n_samples=n, n_items_per_class=k, n_classes=q, weights=w, class_sep=sep, densities=ds)
    c.given(seed=seed, shuffle=sh, **kw)
    keep = (None if w is None else list(w), None if ds is None else list(ds))
    st = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    D, y = c.call(make_classification, random_state=seed, shuffle=sh, **kw)
    c.check((np.random.get_state()[1].tobytes(), np.random.get_state()[2]) == st, "the global random state changed", key="global")
    c.check(isinstance(D, pd.Series) and isinstance(y, pd.Series), "two Series are returned", key="api")
    c.eq((len(D), len(y)), (n, n), "number of samples", key="shape")
    c.eq(list(D.index), list(y.index), "samples and labels are aligned", key="shape")
    c.eq((w, ds), keep, "parameters were changed", key="mutated")
    ys = [int(v) for v in y]
    c.check(set(ys) <= set(range(q)), f"labels {sorted(set(ys))}", key="labels")
    ww = w or [1 / q] * q
    for j in range(q):
        cnt = ys.count(j)
        c.check(abs(cnt - ww[j] * n) <= 1 + 1e-6, f"class {j} has {cnt} samples of {n} for weight {ww[j]:.4f}", key="weights")
        if ww[j] == 0:
            c.eq(cnt, 0, f"samples of class {j} of weight zero", key="weights")
        T = [t for t, l in zip(D, ys) if l == j]
        shift = (k * sep)
        items = set(chain(*as_lists(T)))
        if items:
            lo, hi = min(items), max(items)
            c.check(lo >= math.floor(j * shift) - j - 1e-9 and hi < math.ceil(j * shift + 1e-9) + k, f"class {j}: items {lo}..{hi} with separation {sep} and {k} items", key="separation")
            if sep == 0:
                c.check(0 <= lo and hi < k, "classes without separation use different alphabets", key="separation")
            if sep == 1:
                c.check(j * k <= lo and hi < (j + 1) * k, "strictly separated classes share items", key="separation")
            c.check(hi - lo < k, f"class {j} uses more than {k} items", key="separation")
        tx_ok(c, T, lo if items and (len(T) < 20) else 0 if not items else min(items), max(k, 1), (ds or [.5] * q)[j], f"class {j}")
    if not sh:
        c.eq(ys, sorted(ys), "labels without shuffling", key="shuffle")
    D2, y2 = c.call(make_classification, random_state=seed, shuffle=sh, **kw)
    c.eq((as_lists(D2), list(y2)), (as_lists(D), list(y)), "second call with the same seed", key="reproducible")
    Du, yu = c.call(make_classification, random_state=seed, shuffle=not sh, **kw)
    c.eq(sorted(zip(as_lists(Du), map(int, yu))), sorted(zip(as_lists(D), ys)), "shuffling only reorders", key="shuffle")
    a = c.call(make_classification, random_state=np.random.RandomState(seed), shuffle=sh, **kw)
    b = c.call(make_classification, random_state=np.random.RandomState(seed), shuffle=sh, **kw)
    c.eq((as_lists(a[0]), list(a[1])), (as_lists(b[0]), list(b[1])), "equal generator objects", key="reproducible")
    if sh and n >= 40 and q > 1 and min(ww) > .1:
        c.check(ys != sorted(ys), "samples are not shuffled", key="shuffle")
    if rng.random() < .4:
        full = dict(n_samples=100, n_items_per_class=100, n_classes=2, weights=None, class_sep=.2, densities=None, shuffle=True)
        keep_q = w is not None or ds is not None
        some = {a: kw[a] for a in kw if rng.random() < .5 or (keep_q and a in ("n_classes",))}
        a, b = c.call(make_classification, random_state=seed, **some), c.call(make_classification, random_state=seed, **{**full, **some})
        c.eq((as_lists(a[0]), list(a[1])), (as_lists(b[0]), list(b[1])), f"documented defaults, given {some}", key="defaults")
    c.raises((AssertionError, ValueError), make_classification, 10, 5, n_classes=2, class_sep=rng.choice([-.1, 1.1]))
    c.raises((AssertionError, ValueError), make_classification, 10, 5, n_classes=2, weights=rng.choice([[.5], [.2, .3], [.4, .3, .3], [.9, .9]]))
    c.raises((AssertionError, ValueError), make_classification, 10, 5, n_classes=2, densities=rng.choice([[.5], [.5, 1.5], [0, .5]]))
    if n >= 20:
        c.interesting(n, k, q, sep, seed, sh)


def described(c):
    from skmine.datasets.utils import describe, describe_logs
    rng = c.rng
    D, A, _ = gens.transactions(rng, max_tx=40, max_items=10, **({"n_tx": rng.randint(100, 1500)} if rng.random() < .04 else {}))
    D = [t if rng.random() < .95 else [] for t in D]
    if not any(D):
        c.skip("empty")
    if rng.random() < .1:  # items of several types that are spelt alike
        D = [[rng.choice([i, str(i)]) for i in dict.fromkeys(t)] for t in D]
    idx = None if rng.random() < .6 else rng.sample(range(1000 + len(D)), len(D))
    how = rng.choice([list, list, set, tuple])
    S = pd.Series([how(t) for t in D], index=idx)
    c.given(D=D)
    got = c.call(describe, S)
    m = sum(len(how(t)) for t in D) / len(D)
    k = len({i for t in D for i in t})
    c.eq(sorted(got), ["avg_transaction_size", "density", "n_items", "n_transactions"], "keys", key="describe")
    c.eq((got["n_items"], got["n_transactions"]), (k, len(D)), "items and transactions", key="describe")
    c.close(got["avg_transaction_size"], m, "average size", rel=1e-9, abs_=1e-9, key="describe")
    c.close(got["density"], m / k, "density", rel=1e-9, abs_=1e-9, key="describe")
    # logs
    n = rng.randint(1, 60) if rng.random() < .95 else rng.randint(200, 3000)
    evs = [rng.choice("abcdef"[:rng.randint(1, 6)]) for _ in range(n)]
    ts = sorted(rng.randint(0, 10 ** rng.randint(1, 7)) for _ in range(n))
    if rng.random() < .3:
        rng.shuffle(ts)
    dates = rng.random() < .5
    base = pd.Timestamp("2020-01-01")
    index = pd.DatetimeIndex([base + pd.Timedelta(seconds=t) for t in ts]) if dates else pd.Index(ts)
    L = pd.Series(evs, index=index, dtype=rng.choice([object, "string"]))
    c.given(log=list(zip(ts, evs)), dates=dates)
    got = c.call(describe_logs, L)
    by = {}
    for t, e in zip(ts, evs):
        by.setdefault(e, []).append(t)
    c.eq(got["n_events"], len(by), "number of events", key="logs")
    c.close(got["avg_nb_points_per_event"], n / len(by), "points per event", rel=1e-9, abs_=1e-9, key="logs")
    delta = sum(max(v) - min(v) for v in by.values()) / len(by)
    g = got["avg_delta_per_event"]
    c.close(pd.Timedelta(g).total_seconds() if dates else g, delta, "average delta", rel=1e-9, abs_=1e-5, key="logs")
    if len(D) > 2 and n > 2:
        c.interesting(D, evs, ts)


def families(tier):
    q = tier == "quick"
    return [("transactions", 300 if q else 4000, transactions), ("classification", 200 if q else 3000, classification), ("described", 200 if q else 2500, described)]
