"""C10: periodic patterns are selected by exact description length and never lengthen the description of the log."""
from math import log2

import pandas as pd

from vp import perlib as L
from vp.props import c09

ID = "C10"
RULE = ("the logs of C09; the code length of every selected pattern, of the residuals and of the whole is recomputed from the "
        "definition of the encoding; plus logs that are one perfectly regular cycle; non-trivial = at least two patterns selected or one "
        "with combined structure, or a planted cycle; distinct by (log, parameters)")
ASSUMPTIONS = ["code lengths compared with relative tolerance 1e-9",
               "three-occurrence cycles are costed by the code with an approximate period term: a slack of 0.6 bit per pattern is left "
               "for the order of selection only"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 150, "thorough": 2000}


def verify(c, m, S, what):
    pc, ds = m.miners_, m.data_details_
    seq = [(int(t), e) for t, e in ds.getSequence()]
    names = list(ds.getEvents())
    c.eq(sorted(names), sorted(set(S.values)), f"{what}: events of the mined sequence", key="sequence")
    counts = {}
    for t, e in seq:
        counts[e] = counts.get(e, 0) + 1
    want = {}
    for t, e in set(L.pairs(S)):
        want[e] = want.get(e, 0) + 1
    c.eq({names[k]: v for k, v in counts.items()}, want, f"{what}: number of occurrences of each event", key="sequence")
    t0s, tN = min(t for t, _ in seq), max(t for t, _ in seq)
    dT, N = tN - t0s, len(seq)
    one = {e: -log2(k / N) + log2(dT + 1) for e, k in counts.items()}
    ronly = sum(k * one[e] for e, k in counts.items())
    c.close(ds.codeLengthResiduals(), ronly, f"{what}: length of the log as residuals only", rel=1e-9, abs_=1e-6, key="residual-length")
    covered, total, prev = set(), 0., 0.
    kinds = {}
    for k, (p, t0, E) in enumerate(pc.getPatterns()):
        tree, t0, E = L.from_nodes(p.nodes), int(t0), [int(x) for x in E]
        occ = L.expand(tree, t0, E)
        c.eq(len(E), len(occ) - 1, f"{what}: number of corrections of pattern {k}", key="pattern")
        c.check(set(occ) <= set(seq), f"{what}: pattern {k} has occurrences that are not in the log", key="pattern")
        c.check(tree[1] >= 3, f"{what}: pattern {k} has {tree[1]} repetitions", key="pattern")
        c.eq(sorted((int(a), b) for a, b in p.getCovSeq(t0, E)), sorted(occ), f"{what}: occurrences of pattern {k}", key="pattern")
        cl = L.ref_code_length(tree, t0, E, counts, dT, tN)
        c.close(c.call(p.codeLength, t0, E, ds.getDetails()), cl, f"{what}: code length of pattern {k} {p}", rel=1e-9, abs_=1e-6, key="pattern-length")
        new = set(occ) - covered
        c.check(len(new) >= 3, f"{what}: pattern {k} describes only {len(new)} occurrences not described before", key="useless")
        c.check(cl < sum(one[e] for _, e in new) + 1e-9, lambda: f"{what}: pattern {k} costs {cl} bits, listing its "
                f"{len(new)} new occurrences costs {sum(one[e] for _, e in new)}", key="inefficient")
        c.check(cl / len(new) >= prev - 0.6 / 3, lambda: f"{what}: pattern {k} is cheaper per occurrence ({cl / len(new)}) than the one "
                f"selected before it ({prev})", key="order")
        prev = cl / len(new)
        covered |= set(occ)
        total += cl
        ty = p.getTypeStr()
        kinds[ty] = kinds.get(ty, 0) + 1
        c.count("type_" + ty)
    left = [e for t, e in seq if (t, e) not in covered]
    resid = sum(one[e] for e in left)
    c.close(c.call(pc.codeLength, ds), total + resid, f"{what}: total code length", rel=1e-9, abs_=1e-6, key="total-length")
    c.check(total + resid <= ronly + 1e-6, f"{what}: {total + resid} bits with patterns, {ronly} without", key="worse")
    st, rows = c.call(pc.output_detailed, ds)
    c.eq(st["Total patterns nb"], len(pc.getPatterns()), f"{what}: reported number of patterns", key="stats")
    c.eq({k: v for k, v in st.items() if k in ("simple", "nested", "concat", "other")}, kinds, f"{what}: reported types", key="stats")
    c.eq(st["Total residual nb"], len(left), f"{what}: reported number of residuals", key="stats")
    c.close(st["Code length patterns"], total, f"{what}: reported length of the patterns", rel=1e-9, abs_=1e-6, key="stats")
    c.close(st["Code length residuals"], resid, f"{what}: reported length of the residuals", rel=1e-9, abs_=1e-6, key="stats")
    if ronly > 0:
        c.close(st["Code length total"], total + resid, f"{what}: reported total length", rel=1e-9, abs_=1e-6, key="stats")
        c.close(st["Total compression ratio"], 100 * (total + resid) / ronly, f"{what}: reported ratio", rel=1e-9, abs_=1e-6, key="stats")
    return kinds


def small(c):
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng)
    S, kind = L.as_log(rng, occ)
    kw = {"complex": rng.random() < 0.75, "auto_time_scale": rng.random() < 0.8}
    c.given(log=L.pairs(S), kind=kind, shape=shape, params=kw)
    m = c09.fit(c, PeriodicPatternMiner(**kw), S)
    kinds = verify(c, m, S, f"{kw}")
    if sum(kinds.values()) > 1 or set(kinds) - {"simple"}:
        c.interesting(L.pairs(S), kw)


def combined(c):
    """structures that call for combined patterns"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    occ, names, shape = L.events(rng, shape=rng.choice(["concat", "nested", "nestcat", "nestcat"]))
    S, kind = L.as_log(rng, occ, rng.choice(["int", "neg", "min", "bigint"]))
    c.given(log=L.pairs(S), kind=kind, shape=shape)
    m = c09.fit(c, PeriodicPatternMiner(complex=True), S)
    kinds = verify(c, m, S, shape)
    s = c09.fit(c, PeriodicPatternMiner(complex=False), S)
    ks = verify(c, s, S, shape + " simple")
    c.check(not set(ks) - {"simple"}, f"combined patterns {ks} although only simple cycles were asked for", key="complex")
    if set(kinds) - {"simple"}:
        c.interesting(L.pairs(S))


def planted(c):
    """a log that is one perfectly regular cycle is described by that cycle, if that is cheaper than listing it"""
    from skmine.periodic import PeriodicPatternMiner
    rng = c.rng
    r = rng.randint(3, 40) if rng.random() < 0.9 else rng.randint(41, 200)
    p, t0 = rng.choice([1, 2, 3, 7, rng.randint(1, 1000)]), rng.randint(-1000, 1000)
    S, kind = L.as_log(rng, [(t0 + i * p, "ev") for i in range(r)], rng.choice(["int", "int", "s", "min", "h"]), offgrid=False)
    kw = {"complex": rng.random() < 0.5}
    c.given(r=r, p=p, t0=t0, kind=kind, params=kw)
    m = c09.fit(c, PeriodicPatternMiner(**kw), S)
    verify(c, m, S, f"planted cycle r={r} p={p}")
    times = [t for t, _ in L.pairs(S)]
    seq = sorted(int(t) for t, _ in m.data_details_.getSequence())
    unit = seq[1] - seq[0]
    cost = 3 * log2(3) + log2(r) + log2(unit) + 2 * (r - 1)
    df = c.call(m.transform, S)
    got = []
    for row in df.to_dict("records"):
        a, b, e = row["t0"], row["period_major"], row["sum_E"]
        got.append((pd.Timestamp(a).value if kind != "int" else int(a), int(row["repetition_major"]),
                    pd.Timedelta(b).value if kind != "int" else int(b), pd.Timedelta(e).value if kind != "int" else int(e)))
    exp = [(times[0], r, times[1] - times[0], 0)] if cost < r * log2((r - 1) * unit + 1) else []
    c.eq(got, exp, f"a cycle of {r} occurrences every {p}", key="planted")
    c.interesting(r, p, t0, kind, kw["complex"])


def families(tier):
    q = tier == "quick"
    return [("small", 250 if q else 4000, small), ("combined", 150 if q else 2000, combined), ("planted", 150 if q else 1500, planted)]
