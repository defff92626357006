"""C02: the maximal-itemset miner returns exactly the maximal frequent itemsets."""
from vp import gens, oracles as O
from vp.props import c01

ID = "C02"
RULE = c01.RULE.replace("closed frequent itemsets expected", "maximal frequent itemsets expected")
ASSUMPTIONS = c01.ASSUMPTIONS + ["a maximum length filters the maximal itemsets, it does not redefine maximality"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 120, "thorough": 2500}


def expected(D, thr):
    cl = O.closed_frequent(D, thr)
    mx = O.maximal(cl)
    return {s: cl[s] for s in mx}


def _with(fn):
    def run(c):
        old = c01.MINER
        c01.MINER = "LCMMax"
        try:
            fn(c, expected)
        finally:
            c01.MINER = old
    return run


def invalid(c):
    old = c01.MINER
    c01.MINER = "LCMMax"
    try:
        c01.invalid(c)
    finally:
        c01.MINER = old


def families(tier):
    q = tier == "quick"
    return [("small", 2000 if q else 20000, _with(c01.small)),
            ("refit", 300 if q else 3000, _with(c01.refit)),
            ("large", 60 if q else 500, _with(c01.large)),
            ("scale", 40 if q else 300, _with(gens.scale(c01.small))),
            ("huge", 4 if q else 24, _with(gens.scale(c01.small, "huge"))),
            ("jobs", 8 if q else 60, _with(c01.jobs)),
            ("invalid", 8 if q else 40, invalid)]
