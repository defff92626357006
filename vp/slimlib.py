"""Reference model for SLIM-like code tables (independent of skmine)."""
import math

import numpy as np
import pandas as pd

from vp import gens


def table(c, slim, **kw):
    """full code table through the public transform: list of (frozenset, sorted tids)"""
    df = c.call(slim.transform, None, singletons=True, return_tids=True, drop_null_usage=False, **kw)
    return [(frozenset(r.itemset), sorted(int(x) for x in r.tids)) for r in df.itertuples(index=False)]


def check_partition(c, tab, D, what=""):
    """every transaction is exactly the disjoint union of the itemsets that cover it"""
    per = [[] for _ in D]
    seen = set()
    for s, tids in tab:
        c.check(len(s) > 0, f"{what} empty itemset in the code table", key="table")
        c.check(s not in seen, f"{what} {sorted(s)} listed twice", key="table")
        seen.add(s)
        for t in tids:
            c.check(0 <= t < len(D), f"{what} tid {t} out of range", key="cover")
            per[t].append(s)
    for i, (t, cov) in enumerate(zip(D, per)):
        t = frozenset(t)
        u = frozenset().union(*cov) if cov else frozenset()
        c.check(u == t, lambda: f"{what} transaction {i} {sorted(t)} is covered by {[sorted(x) for x in cov]}", key="lossless")
        c.check(sum(map(len, cov)) == len(u), lambda: f"{what} transaction {i} {sorted(t)} covered by overlapping {[sorted(x) for x in cov]}", key="disjoint")
    c.count("covered_transactions", len(D))


def std_codes(D):
    supp = {}
    for t in D:
        for a in set(t):
            supp[a] = supp.get(a, 0) + 1
    tot = sum(supp.values())
    return {a: -math.log2(n / tot) for a, n in supp.items()}


def sizes(tab_usage, st):
    """tab_usage: iterable of (itemset, usage)"""
    used = [(s, u) for s, u in tab_usage if u > 0]
    tot = sum(u for _, u in used)
    code = {s: -math.log2(u / tot) for s, u in used}
    data = sum(u * code[s] for s, u in used)
    model = sum(code[s] + sum(st[a] for a in s) for s, u in used)
    return data, model


def singleton_sizes(D):
    st = std_codes(D)
    return sizes([(frozenset([a]), n) for a, n in _supp(D).items()], st)


def _supp(D):
    supp = {}
    for t in D:
        for a in set(t):
            supp[a] = supp.get(a, 0) + 1
    return supp


def greedy(order, t):
    """cover of transaction t: itemsets of `order` taken greedily"""
    rest = set(t)
    out = []
    for s in order:
        if s and s <= rest:
            out.append(s)
            rest -= s
    return out


def laplace_codes(tab_usage):
    tot = sum(u + 1 for _, u in tab_usage)
    return {s: -math.log2((u + 1) / tot) for s, u in tab_usage}


def slim_input(rng, D, A, how=None):
    """-> (X, D as ingested, how). X: one of the accepted representations of D"""
    how = how or rng.choice(["list", "list", "series", "series_offset_index", "series_perm_index", "series_dup_index", "list_tuple", "list_set", "tab_bool", "tab_int", "tab_idx", "tab_perm", "ndarray"])
    if how in ("tab_bool", "tab_int", "tab_idx", "tab_perm"):
        df = gens.tabular(D, A, bool if how == "tab_bool" else int)
        if how == "tab_idx":
            df.index = [7 * i + 3 for i in range(len(df))]
        if how == "tab_perm":
            df.index = rng.choice([list(range(len(df)))[::-1], [i // 2 for i in range(len(df))], [f"r{i}" for i in range(len(df))]])
        return df, D, how
    if how == "ndarray":
        pos = {a: i for i, a in enumerate(A)}
        m = gens.tabular(D, A, int).values
        return m, [[pos[a] for a in t] for t in D], how
    return gens.as_container(D, how), D, how
