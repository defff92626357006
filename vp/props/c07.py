"""C07: SLIM vectorizer: at most k pattern features, exact and disjoint, valued by training probability."""
import numpy as np

from vp import gens, slimlib as S
from vp.props import c05

ID = "C07"
RULE = ("vectorizer fitted on one database, applied to the same or other data, for k from 1 to beyond the table, both "
        "strategies, pruning and stop items; non-trivial = at least one multi-item column with a non-zero cell, distinct by case data")
ASSUMPTIONS = ["which of several equally used patterns makes the cut at rank k is not part of the property"]
QUICK_SCALE = 3
MIN_NONTRIVIAL = {"quick": 80, "thorough": 1000}


def one(c):
    from skmine.feature_extraction import SLIMVectorizer
    from skmine.itemsets import SLIM
    rng = c.rng
    D, A, meta = gens.pick(c, max_tx=25, max_items=8)
    extra, _ = gens.items_alphabet(rng, len(A) + 3, meta["kind"])
    unseen = [a for a in extra if a not in set(A)]
    stop = None
    r = rng.random()
    if r < 0.3:
        stop = rng.sample(A, rng.randint(0, max(0, len(A) - 1)))
        stop = rng.choice([set, list, tuple, frozenset])(stop)
        if not any(set(t) - set(stop) for t in D):
            c.skip("everything stopped")
    k = rng.choice([1, 2, 3, 5, 8, 50])
    strat = rng.choice(["codes", "one-hot"])
    kw = dict(k=k, strategy=strat, pruning=rng.random() < 0.4)
    if stop is not None:
        kw["stop_items"] = stop
    if rng.random() < 0.3:  # a universe, in which stop items and unseen items may lie
        kw["items"] = rng.choice([set, list])(rng.sample(A, rng.randint(0, len(A))) + unseen[:rng.randint(0, 2)])
    new = [list(t) for t in D] if rng.random() < 0.4 else c05.new_data(rng, D, A, unseen)
    c.given(D=D, new=new, params=kw, **meta)
    v = SLIMVectorizer(**kw)
    how = rng.choice(["list", "series", "list_tuple", "series_offset_index", "series_perm_index"])
    c.call(v.fit, gens.as_container(D, how))
    S_ = set(stop or ())
    Din = [[a for a in t if a not in S_] for t in D]
    # the underlying code table, read through the public attribute
    tab = [(frozenset(s), sorted(t)) for s, t in v.codetable_.items()]
    S.check_partition(c, tab, Din, "training cover")
    c.check(not any(s & S_ for s, t in tab if t or not s & set(kw.get("items", ()))), "stop item in the model", key="stop")
    res = c.call(v.transform, gens.as_container(new, rng.choice(["list", "series", "list_tuple", "series_perm_index", "series_dup_index"])))
    c.eq(len(res), len(new), "rows", key="shape")
    cols = [frozenset(x) for x in res.columns]
    c.check(len(cols) <= k, f"{len(cols)} columns for k={k}", key="shape")
    c.eq(len(set(cols)), len(cols), "repeated column", key="shape")
    c.check(not any(s & S_ for s in cols), "stop item in a column", key="stop")
    usage = {s: len(t) for s, t in tab}
    c.check(set(cols) <= set(usage), "columns that are not itemsets of the model", key="columns")
    present = set(a for t in new for a in t) - S_
    elig = [s for s in usage if s <= present]
    c.eq(len(cols), min(k, len(elig)), "number of columns", key="columns")
    ranked = sorted((usage[s] for s in elig), reverse=True)[:k]
    c.eq(sorted((usage[s] for s in cols), reverse=True), ranked, "usages of the chosen patterns (the k most used)", key="columns")
    c.eq([usage[s] for s in cols], sorted((usage[s] for s in cols), reverse=True), "columns in decreasing order of usage", key="columns")
    M = res.values
    total = sum(usage.values())
    nontrivial = False
    for i, t in enumerate(new):
        g = S.greedy(cols, frozenset(t) - S_)
        for j, s in enumerate(cols):
            want = (1.0 if strat == "one-hot" else usage[s] / total) if s in g else 0.0
            c.check(abs(float(M[i, j]) - want) <= 1e-5 + 1e-5 * want,
                    f"row {i} {t}, pattern {sorted(s)}: got {M[i, j]} expected {want}", key="cell")
            nontrivial |= s in g and len(s) > 1
    if rng.random() < 0.3:
        v2 = SLIMVectorizer(**kw)
        r2 = c.call(v2.fit_transform, gens.as_container(D, "list"))
        v3 = SLIMVectorizer(**kw)
        r3 = c.call(v3.fit(gens.as_container(D, "list")).transform, gens.as_container(D, "list"))
        c.check(r2.equals(r3), "fit_transform differs from fit then transform", key="fit_transform")
    c.count("cells", M.size)
    if nontrivial:
        c.interesting(D, new, kw)


def invalid(c):
    from skmine.feature_extraction import SLIMVectorizer
    for s in ("onehot", "code", "", None, "CODES"):
        c.raises(ValueError, SLIMVectorizer, strategy=s, what=f"strategy={s!r}", key="invalid")
    c.interesting(c.index)


def families(tier):
    q = tier == "quick"
    return [("transform", 2000 if q else 20000, one), ("scale", 40 if q else 300, gens.scale(one)), ("huge", 4 if q else 24, gens.scale(one, "huge")), ("invalid", 1, invalid)]
