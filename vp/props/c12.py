"""C12: exporting patterns and importing them back gives a miner that answers everything identically."""
import json

import pandas as pd

from vp import perlib as L
from vp.props import c09, c11

ID = "C12"
RULE = ("the logs of C09 mined, exported, and imported into fresh, fitted or previously importing miners, along histories of "
        "several exports and imports; every answer of the importing miner is compared with the exporting one; non-trivial = at least one "
        "pattern, distinct by (log, history)")
ASSUMPTIONS = ["events are strings (the file format keeps events as text)", "the importing miner has the same parameters as the exporting one"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1500}


def frames(c, m, rng_sub):
    out = []
    for kw in ({"dE_sum": True}, {"dE_sum": False, "chronological_order": False}):
        d = c.call(m.transform, None, **kw)
        out.append([[str(x) for x in r] for r in d.reset_index().itertuples(index=False)])
    n = len(m.miners_.getPatterns())
    subs = [()] + ([([i],) for i in range(n)] + [(rng_sub,)] if n else [])
    for a in subs:
        out.append(L.pairs(c.call(m.reconstruct, *a, sort="construction_order")))
        out.append(sorted(L.pairs(c.call(m.get_residuals, *a))))
    d = c.call(m.reconstruct)
    out.append(str(d["time"].dtype))
    return out


def one(c):
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng)
    S, kind = L.as_log(rng, occ)
    kw = {"complex": rng.random() < 0.7, "auto_time_scale": rng.random() < 0.8}
    c.given(log=L.pairs(S), kind=kind, params=kw)
    m = c09.fit(c, PeriodicPatternMiner(**kw), S)
    n = len(m.miners_.getPatterns())
    sub = rng.sample(range(n), rng.randint(1, n)) if n else []
    if rng.random() < 0.5:
        frames(c, m, sub)
    c.call(m.export_patterns, "a.json")
    json.load(open("a.json"))
    want = frames(c, m, sub)
    into = rng.choice(["fresh", "fitted", "imported"])
    o = PeriodicPatternMiner(**kw)
    if into == "fitted":
        occ2, _, _ = L.events(rng, max_ev=2)
        S2, k2 = L.as_log(rng, occ2)
        c09.fit(c, o, S2)
        if rng.random() < 0.5:
            c.call(o.transform, S2)
    elif into == "imported":
        c.call(o.import_patterns, "a.json")
        frames(c, o, sub)
    c.call(o.import_patterns, "a.json")
    c.call(m.transform, S, chronological_order=False)
    for i in range(n + 1):  # drawn before the table is read: the imported pattern, or refused
        try:
            src = o.draw_pattern(i).source
        except Exception:  # noqa: not drawn
            continue
        c.check(i < n, f"pattern {i} is drawn after importing into a {into} miner, which does not exist", key="drawing")
        c.eq(src, c.call(m.draw_pattern, i).source, f"drawing of pattern {i} after importing into a {into} miner", key="drawing")
    c.eq(frames(c, o, sub), want, f"answers after importing into a {into} miner", key="roundtrip")
    c.call(o.export_patterns, "b.json")
    c.eq(json.load(open("b.json")), json.load(open("a.json")), "exporting the imported patterns again", key="reexport")
    c.call(m.export_patterns, "c.json")
    c.eq(json.load(open("c.json")), json.load(open("a.json")), "exporting twice", key="reexport")
    want_set = set(L.pairs(S))
    rec, res = set(L.pairs(c.call(o.reconstruct))), set(L.pairs(c.call(o.get_residuals)))
    c.eq(sorted(rec | res), sorted(want_set), "patterns and residuals after import", key="lossless")
    c11.verify(c, o, S, names, rng, "after import")
    if n:
        c.interesting(L.pairs(S), kw, into)
    c.count("into_" + into)


def refit(c):
    """one miner goes through fits, exports and imports of several logs; the file always holds the current patterns"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    kw = {"complex": rng.random() < 0.5}
    m = PeriodicPatternMiner(**kw)
    hist, tot = [], 0
    for k in range(rng.randint(2, 4)):
        occ, names, shape = L.events(rng, max_ev=3, shape=rng.choice(["cycles", "concat", "random", "tiny", "nested"]))
        S, kind = L.as_log(rng, occ)
        hist.append((kind, L.pairs(S)))
        c.given(history=hist, params=kw)
        c09.fit(c, m, S)
        if rng.random() < 0.3:
            c.call(m.transform, S)
        f = rng.choice(["same.json", f"f{k}.json"])
        c.call(m.export_patterns, f)
        o = PeriodicPatternMiner(**kw)
        c.call(o.import_patterns, f)
        n = len(m.miners_.getPatterns())
        tot += n
        sub = list(range(n))
        c.eq(frames(c, o, sub), frames(c, m, sub), "answers after a refit, export and import", key="roundtrip")
        if rng.random() < 0.3:
            c.call(m.import_patterns, f)
            hist.append("import")
            c.eq(frames(c, m, sub), frames(c, o, sub), "answers after importing its own export", key="roundtrip")
    if tot:
        c.interesting(hist, kw)


def families(tier):
    q = tier == "quick"
    return [("roundtrip", 260 if q else 3500, one), ("refit", 60 if q else 700, refit)]
