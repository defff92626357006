"""C14: cycle extraction and candidate combination: sound candidates, exact costs, optimal segmentation."""
from contextlib import contextmanager
from math import floor, log2

import numpy as np
import pandas as pd

from vp import perlib as L

ID = "C14"
RULE = ("the occurrences of single events (regular, jittered, interleaved cycles, random, below and above the block sizes of 100 and 200) go through "
        "both extraction methods; whole logs go through the complete candidate generation and every candidate of the pool is replayed; "
        "non-trivial = at least one multi-cycle segmentation or at least 5 candidates, distinct by input")
ASSUMPTIONS = ["times are distinct per event and increasing", "the cost of a three-occurrence candidate may be underestimated by at most 0.6 bit "
               "(its period term is approximated by the code)", "optimality of the segmentation is claimed up to 200 occurrences, the size handled without blocks"]
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1500}


def times(rng, n=None):
    n = n or rng.choice([rng.randint(3, 12), rng.randint(10, 45)])
    shape = rng.choice(["regular", "jitter", "random", "two", "restart", "burst"])
    if shape == "regular":
        p = rng.randint(1, 50)
        t = [i * p for i in range(n)]
    elif shape == "jitter":
        p = rng.randint(5, 50)
        t = [i * p + rng.randint(-2, 2) for i in range(n)]
    elif shape == "random":
        t = [rng.randint(0, 12 * n) for _ in range(n)]
    elif shape == "two":
        p, q = rng.randint(2, 30), rng.randint(2, 30)
        t = [i * p for i in range(n // 2 + 1)] + [7 + i * q for i in range(n // 2)]
    elif shape == "restart":
        t, cur = [], 0
        while len(t) < n:
            p = rng.randint(1, 25)
            for _ in range(rng.randint(3, 9)):
                t.append(cur)
                cur += p
            cur += rng.randint(20, 200)
    else:
        t, cur = [], 0
        while len(t) < n:
            for _ in range(rng.randint(1, 5)):
                t.append(cur)
                cur += rng.randint(1, 2)
            cur += rng.randint(10, 60)
    if rng.random() < .35:  # isolated occurrences at the ends or in between
        for _ in range(rng.randint(1, 2)):
            where = rng.choice(["first", "last", "in"])
            d = rng.randint(1, 1500)
            t = t + [min(t) - d if where == "first" else max(t) + d if where == "last" else rng.randint(min(t), max(t))]
        t = [x - min(t) for x in t]
    t = sorted(set(t))
    while len(t) < 3:
        t.append(t[-1] + rng.randint(1, 9))
    return t, shape


def details(rng, t):
    """a data sequence holding this event (0) and some others, and the constants of the encoding"""
    from skmine.periodic.data_sequence import DataSequence
    seq = {"a": list(t)}
    for k in range(rng.randint(0, 2)):
        seq["bc"[k]] = sorted({rng.randint(t[0] - 20, t[-1] + 60) for _ in range(rng.randint(1, 30))})
    ds = DataSequence(seq)
    al = [x for v in seq.values() for x in v]
    N, dT = len(al), max(al) - min(al)
    return ds, {"n": len(t), "N": N, "dT": dT, "one": -log2(len(t) / N) + log2(dT + 1)}


def period(o):
    return int(floor(np.median(np.diff(o))))


def cycle_cost(o, k):
    p = period(o)
    dE = sum(b - a - p for a, b in zip(o, o[1:]))
    E = sum(2 + abs(b - a - p) for a, b in zip(o, o[1:]))
    r = len(o)
    sp = k["dT"] - dE - p * (r - 1) + 1
    return 3 * log2(3) - log2(k["n"] / k["N"]) + log2(k["n"]) + log2(floor((k["dT"] - dE) / (r - 1))) + (0 if sp <= 0 else log2(sp)) + E


def cycle_ok(c, cy, t, k, what, exact=True):
    o = [int(x) for x in cy["occs"]]
    c.check(len(o) >= 3, f"{what}: cycle of {len(o)} occurrences", key="short")
    c.check(all(a < b for a, b in zip(o, o[1:])) and set(o) <= set(t), f"{what}: {o} are not increasing occurrences of the event", key="unsound")
    c.eq(int(cy["p"]), period(o), f"{what}: period of {o}", key="period")
    if exact:
        c.close(cy["cost"], cycle_cost(o, k), f"{what}: cost of {o}", rel=1e-9, abs_=1e-6, key="cost")
    return o


def dyn(c):
    from skmine.periodic.extract_cycles import compute_cycles_dyn
    rng = c.rng
    t, shape = times(rng, rng.randint(60, 190) if c.family == "dyn_mid" else None)
    t = t[:200]
    ds, k = details(rng, t)
    c.given(times=t, shape=shape, const=k)
    dd = ds.getDetails()
    occs = np.array(t) if rng.random() < 0.5 else pd.Index(t)
    out = c.call(compute_cycles_dyn, occs, 0, dd, residuals=True)
    cyc = [x for x in out if "p" in x]
    res = [x for x in out if "p" not in x]
    cov = []
    for x in cyc:
        cov += cycle_ok(c, x, t, k, "segmentation")
    c.eq(len(set(cov)), len(cov), "segments overlap", key="overlap")
    r = [int(v) for x in res for v in x["occs"]]
    c.eq(sorted(cov + r), t, "segments and residuals together", key="partition")
    no = c.call(compute_cycles_dyn, occs, 0, dd, residuals=False)
    c.eq([[int(v) for v in x["occs"]] for x in no], [[int(v) for v in x["occs"]] for x in cyc], "leaving the residuals out", key="partition")
    # optimality: independent linear dynamic program over segments
    best = [0.]
    for j in range(1, len(t) + 1):
        b = best[j - 1] + k["one"]
        for i in range(0, j - 2):
            b = min(b, best[i] + cycle_cost(t[i:j], k))
        best.append(b)
    got = sum(float(x["cost"]) for x in cyc) + len(r) * k["one"]
    c.close(got, best[-1], "cost of the segmentation against the optimum", rel=1e-9, abs_=1e-6, key="optimal")
    if len(cyc) > 1:
        c.interesting(t, k["dT"])
    c.count("segments", len(cyc))


def dyn_blocks(c):
    from skmine.periodic.extract_cycles import compute_cycles_dyn
    rng = c.rng
    t, shape = times(rng, rng.randint(205, 420))
    if rng.random() < .4:  # mostly noise: many leftovers
        t, shape = sorted({rng.randint(0, 10 ** 5) for _ in range(rng.randint(230, 330))}), "noise"
    if len(t) <= 200:
        t = t + [t[-1] + 3 * i for i in range(1, 230)]
    ds, k = details(rng, t)
    c.given(times=t, shape=shape)
    out = c.call(compute_cycles_dyn, np.array(t), 0, ds.getDetails(), residuals=True, limit=120)
    cov = []
    for x in out:
        if "p" in x:
            cov += cycle_ok(c, x, t, k, "blockwise segmentation")
    c.eq(len(set(cov)), len(cov), "segments overlap", key="overlap")
    r = [int(v) for x in out if "p" not in x for v in x["occs"]]
    c.eq(sorted(cov + r), t, "segments and residuals together", key="partition")
    c.count("segments", len(out))
    if len(out) > 1:
        c.interesting(t)


def fold(c):
    from skmine.periodic.extract_cycles import extract_cycles_fold
    rng = c.rng
    huge = c.family == "fold_huge"
    t, shape = times(rng, (rng.randint(4500, 4700) if rng.random() < .3 else rng.randint(3000, 3400)) if huge else rng.randint(80, 320) if c.family == "fold_long" else None)
    if huge and rng.random() < .5:  # so sparse that three occurrences alone are worth describing
        t, cur = [], 0
        n = rng.choice([3100, 4550])
        while len(t) < n:
            cur += rng.randint(1000, 40000)
            g = rng.randint(100, 5000)
            for _ in range(rng.choice([1, 1, 3, 3, 4])):
                t.append(cur)
                cur += g + rng.randint(0, 2)
        shape = "sparse"
    ds, k = details(rng, t)
    mp = (rng.randint(5000, 20000) if shape == "sparse" else rng.randint(10, 60)) if huge else rng.choice([None, rng.randint(2, 60), rng.choice(np.diff(t).tolist()) + rng.randint(0, 1)])
    c.given(times=t, shape=shape, const=k, max_p=mp)
    bound = log2(k["dT"] + 1) - 2
    chains, triples = c.call(extract_cycles_fold, np.array(t), 0, ds.getDetails(), bound, k["one"], k["one"], mp)
    for x in chains:
        o = cycle_ok(c, x, t, k, "chain")
        c.check(float(x["cost"]) / len(o) < k["one"], "a chain costs more than listing it", key="inefficient")
        c.eq([t[i] for i in x["pos"]], o, "positions of a chain", key="unsound")
        if mp is not None:
            c.check(max(np.diff(o)) < mp, f"chain {o} exceeds the maximum period {mp}", key="max_p")
    for dE, dp, cost, pos in triples:
        o = [t[i] for i in pos]
        c.check(len(pos) == 3 and list(pos) == sorted(set(pos)), f"triple at {pos}", key="unsound")
        d1, d2 = o[1] - o[0], o[2] - o[1]
        c.eq((int(dE), int(dp)), (abs(d1 - d2), min(d1, d2)), f"shift and period of the triple {o}", key="period")
        c.check(int(dE) < bound, f"triple {o} is less regular than the bound {bound}", key="bound")
        want = cycle_cost(o, k)
        c.check(want - 0.6 <= float(cost) <= want + 1e-6, f"cost {cost} of the triple {o}, expected {want}", key="cost")
        c.check(float(cost) / 3 < k["one"], "a triple costs more than listing it", key="inefficient")
        if mp is not None:
            c.check(max(d1, d2) < mp, f"triple {o} exceeds the maximum period {mp}", key="max_p")
    if len(chains) + len(triples) > 2:
        c.interesting(t, k["dT"], mp)
    c.count("chains", len(chains))
    c.count("triples", len(triples))


@contextmanager
def recording(made):
    """keeps every candidate object built meanwhile, also those dropped before they reach the pool"""
    from skmine.periodic.candidate import Candidate
    init = Candidate.__init__

    def wrapped(self, *a, **kw):
        init(self, *a, **kw)
        if len(made) < 4000:
            made.append(self)
    Candidate.__init__ = wrapped
    try:
        yield
    finally:
        Candidate.__init__ = init


def pool(c):
    """every candidate ever generated, not only those selected"""
    from skmine.periodic.run_mine import mine_seqs
    rng = c.rng
    occ, names, shape = L.events(rng, shape={"pool_rich": "rich", "pool_many": "many", "pool_deep": "deep", "pool_late": "late"}.get(c.family))
    seq = {}
    for t, e in occ:
        seq.setdefault(e, []).append(t)
    cx = rng.random() < 0.8
    c.given(log=occ, shape=shape, complex=cx)
    made = []
    with recording(made):
        cpool, ds, pc = c.call(mine_seqs, {k: pd.Index(v) for k, v in seq.items()}, complex=cx, limit=120)
    log = {(int(t), e) for t, e in ds.getSequence()}
    c.eq({(t, ds.getEvents()[e]) for t, e in log}, set(occ), "mined sequence", key="sequence")
    counts = {}
    for _, e in log:
        counts[e] = counts.get(e, 0) + 1
    tN = max(t for t, _ in log)
    dT = tN - min(t for t, _ in log)
    cands = cpool.getCandidates()
    keys = set()
    for cid, cd in cands.items():
        P, t0, E = cd.getPattT0E()
        tree, E = L.from_nodes(P.nodes), [int(x) for x in E]
        got = L.expand(tree, int(t0), E)
        c.check(set(got) <= log, f"candidate {P} at {t0} has occurrences that are not in the log", key="unsound")
        c.eq([(int(a), b) for a, b in cd.getEvOccs()], got, f"listed occurrences of candidate {P}", key="unsound")
        want = L.ref_code_length(tree, int(t0), E, counts, dT, tN)
        simple3 = len(got) == 3
        c.check(want - (0.6 if simple3 else 1e-6) <= float(cd.getCost()) <= want + 1e-6, f"cost {cd.getCost()} of candidate {P} at {t0}, expected {want}", key="cost")
        if not cx:
            c.eq(P.getTypeStr(), "simple", "type of a candidate when only simple cycles are asked for", key="complex")
        keys.add((str(P), int(t0), tuple(E)))
        c.count("candidates_" + P.getTypeStr())
    inpool = {id(x) for x in cands.values()}
    dropped = [x for x in made if id(x) not in inpool and getattr(x, "O", None) is not None and getattr(x, "E", None) is not None and len(x.O)]
    for cd in rng.sample(dropped, min(len(dropped), 250)):
        P, t0, E = cd.getPattT0E()
        got = L.expand(L.from_nodes(P.nodes), int(t0), [int(x) for x in E])
        c.check(set(got) <= log, f"dropped candidate {P} at {t0} has occurrences that are not in the log", key="unsound")
        c.eq([(int(a), b) for a, b in cd.getEvOccs()], got, f"listed occurrences of dropped candidate {P}", key="unsound")
        c.count("dropped_candidates_" + P.getTypeStr())
    for P, t0, E in pc.getPatterns():
        c.check((str(P), int(t0), tuple(int(x) for x in E)) in keys, f"selected pattern {P} was never a candidate", key="selected")
    if len(cands) >= 5:
        c.interesting(occ, cx)


def families(tier):
    q = tier == "quick"
    return [("dyn", 200 if q else 3000, dyn), ("dyn_mid", 16 if q else 150, dyn), ("fold_long", 24 if q else 250, fold), ("fold_huge", 16 if q else 24, fold), ("dyn_blocks", 24 if q else 60, dyn_blocks), ("fold", 250 if q else 4000, fold), ("pool", 300 if q else 3000, pool), ("pool_rich", 40 if q else 500, pool), ("pool_many", 8 if q else 40, pool), ("pool_deep", 40 if q else 400, pool), ("pool_late", 200 if q else 1500, pool)]
