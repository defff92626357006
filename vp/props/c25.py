"""C25: results depend on the data, not on its presentation or on the run."""
import contextlib
import io
import json
import os
import random
import subprocess
import sys
import warnings

import pandas as pd

from vp import estlib as E
from vp import gens, perlib

ID = "C25"
RULE = ("each random database or log is mined twice, as drawn and presented differently: rows permuted, items of a row permuted or repeated, items renamed in the same order, another container or a "
        "binary table with permuted columns, timestamps permuted, repeated, shifted, rescaled or written as dates, events renamed in the same order; and in fresh interpreters with different string-hash seeds; "
        "the results must correspond exactly; non-trivial = a pattern beyond single items or events; distinct by data and change of presentation")
ASSUMPTIONS = ["graph compression is excluded: the order in which it tries equally promising candidates may depend on the run", "collections of rows given as sets have no order of their own and are left out of the "
               "comparison between runs"]
QUICK_SCALE = 3
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2500}


def table(c, s, D, perm=None, ren=None):
    t = c.call(s.transform, D, return_tids=True, drop_null_usage=False)
    return sorted((sorted((ren[i] if ren else i) for i in a), sorted(int(perm[x]) if perm else int(x) for x in b)) for a, b in zip(t["itemset"], t["tids"]))


def slim(c):
    from skmine.itemsets import SLIM
    rng = c.rng
    big = rng.random() < .15
    D, A, info = gens.transactions(rng, max_tx=60 if big else 25, max_items=12 if big else 8)
    kw = {"pruning": rng.random() < .5}
    c.given(D=D, kw=kw)
    m = c.call(SLIM(**kw).fit, gens.as_container(D, rng.choice(["list", "series"])))
    want = table(c, m, D)
    how = rng.choice(["rows", "items", "rename", "container", "table", "all"])
    perm, ren, X = list(range(len(D))), None, [list(t) for t in D]
    if how in ("rows", "all"):
        rng.shuffle(perm)
        X = [X[j] for j in perm]
    if how in ("items", "all"):
        X = [rng.sample(t, len(t)) + ([rng.choice(t)] if t and rng.random() < .3 else []) for t in X]
    if how in ("rename", "all"):
        srt = sorted(A)
        new = rng.choice([list(range(len(srt))), [f"i{k:03d}" for k in range(len(srt))], sorted(rng.sample(range(-500, 5000), len(srt)))])
        to = dict(zip(srt, new))
        ren = dict(zip(new, srt))
        X = [[to[i] for i in t] for t in X]
    if how == "table":
        used = sorted({i for t in X for i in t})
        rng.shuffle(used)
        Y = gens.tabular(X, used, rng.choice([bool, int, float]))
        if rng.random() < .5:
            Y.index = rng.sample(range(1000), len(Y))
    else:
        Y = gens.as_container(X, rng.choice(gens.CONTAINERS))
    c.given(how=how, other=X)
    o = c.call(SLIM(**kw).fit, Y)
    c.eq(table(c, o, Y, perm, ren), want, f"code table of the data presented otherwise ({how})", key=how)
    c.close(o.data_size_, m.data_size_, "data size", rel=1e-6, abs_=1e-6, key=how)
    c.close(o.model_size_, m.model_size_, "model size", rel=1e-6, abs_=1e-6, key=how)
    c.count(how)
    if any(len(a) > 1 for a, _ in want):
        c.interesting(D, kw, how, X)


# databases in which itemsets of equal usage compete to be pruned: rows of one-digit items, and names that used to change the outcome
PRUNE_TIES = [
    ("01245678 12457 01245678 67 246 0124568 01456 1245 0246 0148 0124568 12468 124567 01458 014568 56 0124568 56 5 5 57 567 0245678 12456 012468 246 245 24567 1256 0124568 12456 567 246 0145678 567 2467 567",
     [-952527, -516071, 8071, 61924, 189240, 335723, 431202, 881470, 887028]),
    ("57 36 1367 34567 57 03678 4567 13567 3456 3567 36 0345678 567 345 015678 13456 57 1567 1567 34567 01567 034567 6 36 0345678 57 13567 34567 078 345 13567 1567 078 16 3456 36 16 035678 345 345 01378 34578 3567 136 1356 013678 345 1 034578 3567 345 04568 16",
     [-954507, -832895, 60831, 94379, 175397, 250971, 843099, 866188, 878719]),
    ("023 245 01245 0145 28 025678 01258 0267 0358 67 023458 012 012568 0258 234578 01235 245 58 458 12358 0123 0235678 023 02 7 25 245 0236 37 02367 01 0235678 23456 2458 012367 023 023456 367 023 367 245 23 35678 2458 367 367 0238 013 58 234567 012 35678 0123 2345678 02 8 01258 01245 023",
     [-993309, -373905, -260285, -237922, 186746, 314145, 557840, 783446, 961024]),
]


def prune_ties(c):
    """pruning with ties: the names of the items and the order of the rows decide nothing"""
    from skmine.itemsets import SLIM
    rng = c.rng
    rows, names = PRUNE_TIES[c.index % len(PRUNE_TIES)]
    D = [[int(x) for x in t] for t in rows.split()]
    if c.index >= len(PRUNE_TIES):
        names = sorted(rng.sample(range(-10 ** 6, 10 ** 6), 9)) if rng.random() < .5 else sorted("%c%d" % (97 + k, rng.randint(0, 10 ** 6)) for k in range(9))
        for _ in range(rng.randint(0, 3)):
            D.pop(rng.randrange(len(D))) if rng.random() < .5 else D.append(list(rng.choice(D)))
    c.given(D=D, names=names)
    m = c.call(SLIM(pruning=True).fit, D)
    want = table(c, m, D)
    for _ in range(2):
        perm = list(range(len(D)))
        if rng.random() < .5:
            rng.shuffle(perm)
        X = [[names[i] for i in D[j]] for j in perm]
        o = c.call(SLIM(pruning=True).fit, X)
        c.eq(table(c, o, X, perm, dict(zip(names, range(9)))), want, "code table after renaming the items in the same order", key="prune")
        names = sorted(rng.sample(range(-10 ** 6, 10 ** 6), 9))
    c.interesting(D, names)


def classifier(c):
    from skmine.feature_extraction import SLIMVectorizer
    from skmine.itemsets import SlimClassifier
    rng = c.rng
    D, A, info = gens.transactions(rng, max_tx=25, max_items=8, allow_empty=False)
    labs = sorted(rng.sample(range(-5, 20), rng.randint(2, 4)))
    y = [rng.choice(labs) for _ in D]
    new = [rng.sample(A, rng.randint(1, len(A))) for _ in range(8)]
    kw = {"pruning": rng.random() < .5, "items": set(A)}
    perm = list(range(len(D)))
    rng.shuffle(perm)
    q = list(range(len(new)))
    rng.shuffle(q)
    c.given(D=D, y=y, new=new, kw=kw, perm=perm)
    m = c.call(SlimClassifier(**kw).fit, D, y)
    p = [int(v) for v in c.call(m.predict, new)]
    names = [f"c{k}" for k in range(len(labs))]
    back = dict(zip(names, labs))
    to = dict(zip(labs, names))
    o = c.call(SlimClassifier(**kw).fit, [rng.sample(D[j], len(D[j])) for j in perm], [to[y[j]] for j in perm])
    scores = [list(r) for r in m.models_scores] if hasattr(m, "models_scores") else None
    r = [back[str(v)] for v in c.call(o.predict, [new[j] for j in q])]
    for k, j in enumerate(q):
        if scores is not None:
            s = sorted(scores[j])
            if len(s) > 1 and s[-1] - s[-2] < 1e-6:
                continue        # a tie up to rounding
        c.eq(r[k], p[j], f"prediction of row {j} after permuting and renaming", key="classifier")
    vk = {"k": rng.randint(1, 6), "strategy": rng.choice(["codes", "one-hot"]), "pruning": kw["pruning"]}
    v = c.call(SLIMVectorizer(**vk).fit, D)
    w = c.call(SLIMVectorizer(**vk).fit, [D[j] for j in perm])
    a, b = c.call(v.transform, new), c.call(w.transform, [new[j] for j in q])
    c.eq([tuple(x) for x in b.columns], [tuple(x) for x in a.columns], "features after permuting the rows", key="vectorizer")
    c.check(abs(a.values[q] - b.values).max(initial=0) < 1e-6, "values of the features after permuting the rows", key="vectorizer")
    if len(set(p)) > 1 and any(len(x) > 1 for x in a.columns):
        c.interesting(D, y, new, kw)



def periodic(c):
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = perlib.events(rng, max_ev=3)
    if len(occ) > 150:
        c.skip("long")
    kw = {"complex": rng.random() < .6, "auto_time_scale": rng.random() < .5}
    kind = rng.choice(["int", "dates"])
    base = pd.Timestamp("2021-03-04 05:06:07")
    unit = rng.choice(["s", "min", "h", "D", "ms"])

    def log(o, shift=0, at=base):
        if kind == "int":
            return pd.Series([e for _, e in o], index=[t + shift for t, _ in o], dtype=object)
        return pd.Series([e for _, e in o], index=pd.DatetimeIndex([at + pd.Timedelta(t, unit=unit) for t, _ in o]), dtype=object)

    c.given(occ=occ, kw=kw, kind=kind, unit=unit)
    m = c.call(PeriodicPatternMiner(**kw).fit, log(occ), limit=100)

    def facts(m, back, ren=None):
        """occurrences covered by each pattern, and the residuals, as (time, event)"""
        out = []
        n = len(c.call(m.transform, None))
        for i in range(n):
            out.append(sorted((back(t), ren[e] if ren else e) for t, e in zip(*both(c.call(m.reconstruct, [i])))))
        res = sorted((back(t), ren[e] if ren else e) for t, e in zip(*both(c.call(m.get_residuals))))
        return sorted(out), res

    def both(d):
        if isinstance(d, pd.Series):
            return list(d.index), list(d)
        return list(d["time"]), list(d["event"])

    def back(t, shift=0, at=base):
        return int(t) - shift if kind == "int" else int(round((t - at) / pd.Timedelta(1, unit=unit)))

    want = facts(m, back)
    how = rng.choice(["rows", "repeat", "shift", "rename", "dates", "scale"])
    ren = None
    bk = back
    if how == "rows":
        o = occ[:]
        rng.shuffle(o)
        S = log(o)
    elif how == "repeat":
        o = occ + [rng.choice(occ) for _ in range(rng.randint(1, 4))]
        rng.shuffle(o)
        S = log(o)
    elif how == "shift":
        sh = rng.choice([-1000, 1, 17, 10 ** 6, -3])
        at = base + pd.Timedelta(sh, unit="h")
        S = log(occ, sh, at)
        bk = lambda t: back(t, sh, at)
    elif how == "rename":
        srt = sorted({e for _, e in occ})
        to = dict(zip(srt, [f"ev{k:02d}" for k in range(len(srt))]))
        ren = {v: k for k, v in to.items()}
        S = log([(t, to[e]) for t, e in occ])
    elif how == "dates":
        if not kw["auto_time_scale"]:
            c.skip("no automatic scale")
        if kind == "int":
            S = pd.Series([e for _, e in occ], index=pd.DatetimeIndex([base + pd.Timedelta(t, unit="s") for t, _ in occ]), dtype=object)
            bk = lambda t: int(round((t - base) / pd.Timedelta(1, unit="s")))
        else:
            c.skip("done from integers")
    else:
        if not kw["auto_time_scale"]:
            c.skip("no automatic scale")
        f = rng.choice([10, 100, 1000])
        if kind == "int":
            S = log([(t * f, e) for t, e in occ])
            bk = lambda t: int(t) // f
        else:
            c.skip("done with integers")
    c.given(how=how, other=perlib.pairs(S))
    o = c.call(PeriodicPatternMiner(**kw).fit, S, limit=100)
    got = facts(o, bk, ren)
    c.eq(got, want, f"patterns and residuals of the log presented otherwise ({how})", key=how)
    c.count(how)
    if want[0]:
        c.interesting(occ, kw, how)


# --- runs ------------------------------------------------------------------------------------------
RUNNABLE = ["LCM", "LCMMax", "SLIM", "SLIMVectorizer", "SlimClassifier", "MBDLLBorder", "MDLPDiscretizer", "PeriodicPatternMiner"]


def answers(seed, n):
    out = []
    for i in range(n):
        k = next(k for k in E.KINDS if k.name == RUNNABLE[i % len(RUNNABLE)])
        rng = random.Random(f"{seed}/{i}")
        d = k.data(rng)
        p = k.params(rng, d)
        if k.name in ("LCM", "LCMMax"):
            d["fit"] = ([sorted(t) for t in d["fit"][0]],)
        with contextlib.redirect_stdout(io.StringIO()):
            out.append([k.name, json.loads(json.dumps(k.answers(k.cls()(**p).fit(*d["fit"]), d), default=repr)), repr(p), E.core_short(d)])
    return out


def runs(c):
    seed = c.rng.randrange(1 << 30)
    n = 24
    c.given(seed=seed, n=n)
    here = c.call(answers, seed, n)
    hs = c.rng.randrange(1, 10 ** 6)
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.environ.get("PYTHONPATH", "")]))
    r = subprocess.run([sys.executable, "-c", f"from vp.props import c25; c25.child({seed}, {n})"], env=env, capture_output=True, text=True, timeout=300)
    c.check(r.returncode == 0, lambda: f"the run with hash seed {hs} failed: {r.stderr[-500:]}", key="runs")
    other = json.loads(r.stdout.splitlines()[-1])
    for a, b in zip(here, other):
        c.eq(b[1], a[1], f"{a[0]} {a[2]} on {a[3]} in a run with hash seed {hs}", key="runs")
        c.count("results compared between runs")
    c.eq(len(other), len(here), "results", key="runs")
    c.interesting(seed, hs)


def child(seed, n):
    warnings.simplefilter("ignore")
    print(json.dumps(answers(seed, n)))


def families(tier):
    q = tier == "quick"
    return [("slim", 300 if q else 4000, slim), ("prune_ties", 30 if q else 300, prune_ties), ("classifier", 80 if q else 800, classifier), ("periodic", 260 if q else 3000, periodic), ("runs", 8 if q else 64, runs)]
