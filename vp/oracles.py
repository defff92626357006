"""Independent reference computations (no skmine import)."""
from fractions import Fraction
from itertools import combinations


def tids_of(D):
    v = {}
    for i, t in enumerate(D):
        for e in t:
            v.setdefault(e, set()).add(i)
    return v


def closed_frequent(D, minsup, limit=200000):
    """{frozenset: frozenset(tids)} of closed itemsets with support >= minsup (non-empty itemset,
    non-empty tidset), by closing the family of transactions under intersection."""
    T = [frozenset(t) for t in D]
    fam = set()
    for t in dict.fromkeys(T):
        new = {t}
        for s in fam:
            new.add(s & t)
        fam |= new
        if len(fam) > limit:
            return None
    out = {}
    for s in fam:
        if not s:
            continue
        tids = frozenset(i for i, t in enumerate(T) if s <= t)
        if len(tids) >= minsup and tids:
            out[s] = tids
    return out


def maximal(sets):
    sets = list(sets)
    return {s for s in sets if not any(s < t for t in sets)}


def minimal(sets):
    sets = list(sets)
    return {s for s in sets if not any(t < s for t in sets)}


def abs_support(min_supp, n):
    """absolute threshold for a relative minimum support, exact arithmetic on the decimal written by the user"""
    if isinstance(min_supp, int):
        return min_supp
    from decimal import Decimal
    return Fraction(Decimal(repr(min_supp))) * n
