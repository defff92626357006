"""C04: SLIM's description lengths are the ones its code table implies, and fitting only ever shortens them."""
import contextlib
import io
import math

from vp import clock, gens, slimlib as S
from vp.props import c03

ID = "C04"
RULE = ("same databases as C03; the sizes the model exposes are recomputed in exact arithmetic from the code table read through "
        "the public API, the accepted steps are traced; non-trivial = at least one step accepted, distinct by (database, params)")
ASSUMPTIONS = ["code lengths are compared with a relative tolerance of 1e-4 (single-precision logarithms in the code)"]
QUICK_SCALE = 3
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1500}
TOL = 1e-4


def trace_updates(slim):
    """record the (data, model) sizes before and after each accepted step, by wrapping the public update method"""
    log = []
    orig = slim.update

    def upd(*a, **k):
        before = (float(slim.data_size_), float(slim.model_size_))
        r = orig(*a, **k)
        log.append((float(slim.data_size_), float(slim.model_size_), before))
        return r

    slim.update = upd
    return log


def check_candidates(c, cands, table, what):
    """by decreasing positive gain, each once, new, and each the union of two itemsets used together"""
    gains = [g for _, g in cands]
    c.check(gains == sorted(gains, reverse=True), f"{what}: candidates not by decreasing gain", key="candidates")
    seen = set()
    for cand, g in cands:
        x = frozenset(cand)
        c.check(x not in seen, f"{what}: candidate {sorted(x)} proposed twice", key="candidates")
        seen.add(x)
        c.check(x not in table, f"{what}: candidate {sorted(x)} already in the table", key="candidates")
        c.check(g > 0, f"{what}: candidate {sorted(x)} with gain {g}", key="candidates")
    if len(table) <= 60 and cands:
        parts = [(s, set(t)) for s, t in table.items() if t]
        unions = {a | b for i, (a, s) in enumerate(parts) for b, t in parts[i + 1:] if s & t}
        c.check(seen <= unions, lambda: f"{what}: {sorted(map(sorted, seen - unions))[:3]} are not unions of two itemsets used together", key="candidates")
    c.count("candidates", len(cands))


def trace_candidates(c, slim, what):
    """check what is proposed in every round of the search"""
    orig = slim.generate_candidates

    def gen(*a, **k):
        table = {frozenset(s): list(t) for s, t in slim.codetable_.items()}
        r = orig(*a, **k)
        r = list(r)
        check_candidates(c, r, table, what)
        return r

    slim.generate_candidates = gen


def check_sizes(c, slim, Din, what, key="sizes"):
    tab = S.table(c, slim)
    st = S.std_codes(Din)
    data, model = S.sizes([(s, len(t)) for s, t in tab], st)
    c.close(slim.data_size_, data, f"{what}: size of the data given the model", rel=TOL, key=key)
    c.close(slim.model_size_, model, f"{what}: size of the model", rel=TOL, key=key)
    return tab, data, model


def one(c, D, X, Din, how, slim, kw, limit=60):
    what = f"SLIM({kw}) on {how}"
    log = trace_updates(slim)
    traced = len(Din) <= 60 and c.rng.random() < .5
    if traced:
        trace_candidates(c, slim, what)
    c.call(slim.fit, X, limit=limit)
    if traced:
        del slim.generate_candidates
    d0, m0 = S.singleton_sizes(Din)
    tab, data, model = check_sizes(c, slim, Din, what)
    tot0 = d0 + m0
    c.check(data + model <= tot0 * (1 + TOL) + 1e-3,
            f"{what}: total {data + model} is longer than the singleton table's {tot0}", key="worse")
    prev = tot0
    for d, m, (bd, bm) in log:
        c.check(d + m < bd + bm, f"{what}: an accepted step did not shorten the description: {bd + bm} -> {d + m}", key="step")
        c.check(d + m < prev * (1 + TOL) + 1e-3, f"{what}: an accepted step lengthened the description: {prev} -> {d + m}", key="step")
        prev = d + m
    c.count("accepted_steps", len(log))
    if log:
        c.close(prev, data + model, f"{what}: total after the last step", rel=TOL, key="sizes")
    # the DL report printed on demand
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        c.call(slim.transform, None, return_dl=True)
    rep = dict(l.split(" : ") if " : " in l else l.split(" :") for l in buf.getvalue().strip().split("\n") if ":" in l)
    vals = {k.strip(): float(v) for k, v in rep.items()}
    c.close(vals["data_size"], data, f"{what}: printed data size", rel=TOL, key="print")
    c.close(vals["model_size"], model, f"{what}: printed model size", rel=TOL, key="print")
    c.close(vals["total_size"], data + model, f"{what}: printed total", rel=TOL, key="print")
    if kw.get("pruning", True) and log:
        dead = [sorted(s) for s, t in tab if len(s) > 1 and not t]
        c.check(not dead, f"{what}: pruned code table keeps unused itemsets {dead[:3]}", key="pruning")
    # the search stopped because no proposed candidate helps
    if kw.get("max_time", -1) == -1:
        cands = c.call(slim.generate_candidates, stack=set(s for s, _ in tab))
        check_candidates(c, cands, dict(tab), what)
        for cand, g in cands[:40]:
            ed, em, us = c.call(slim.evaluate, cand)
            c.check(float(ed) + float(em) >= (data + model) * (1 - TOL) - 1e-2,
                    f"{what}: fit stopped although {sorted(cand)} shortens {data + model} to {ed + em}", key="early_stop")
            c.count("rejected_candidates")
    return tab, log


def small(c):
    rng = c.rng
    D, A, meta = gens.pick(c, max_tx=30, max_items=8)
    X, Din, how = S.slim_input(rng, D, A)
    slim, kw = c03.make(rng, A if how != "ndarray" else list(range(len(A))))
    c.given(D=D, how=how, params=kw, **meta)
    tab, log = one(c, D, X, Din, how, slim, kw)
    if log:
        c.interesting(D, how, kw)


def evaluate(c):
    """evaluating a candidate predicts exactly the table and sizes that accepting it produces"""
    from skmine.itemsets import SLIM
    rng = c.rng
    D, A, meta = gens.transactions(rng, n_tx=rng.randint(4, 25), n_items=rng.randint(3, 7), shape=rng.choice(["planted", "random", "blocks", "dup", "nested"]))
    items = sorted({a for t in D for a in t})
    if len(items) < 2:
        c.skip()
    kw = {"pruning": rng.random() < 0.5}
    slim = SLIM(**kw)
    c.given(D=D, params=kw)
    if rng.random() < 0.5:
        c.call(slim.fit, D)
    else:
        c.call(slim.prefit, D)
    st = S.std_codes(D)
    n = 0
    for _ in range(5):
        cand = frozenset(rng.sample(items, rng.randint(2, min(5, len(items)))))
        before = [(k, sorted(v)) for k, v in slim.codetable_.items()]
        bsize = (float(slim.data_size_), float(slim.model_size_))
        d, m, us = c.call(slim.evaluate, cand)
        c.eq([(k, sorted(v)) for k, v in slim.codetable_.items()], before, "evaluate changed the code table", key="evaluate")
        c.eq((float(slim.data_size_), float(slim.model_size_)), bsize, "evaluate changed the sizes", key="evaluate")
        tab = [(frozenset(k), sorted(v)) for k, v in us.items()]
        S.check_partition(c, tab, D, f"evaluate({sorted(cand)})")
        ed, em = S.sizes([(s, len(t)) for s, t in tab], st)
        c.close(d, ed, f"evaluate({sorted(cand)}): data size", rel=TOL, key="sizes")
        c.close(m, em, f"evaluate({sorted(cand)}): model size", rel=TOL, key="sizes")
        n += 1
        if rng.random() < 0.6:
            c.call(slim.update, cand)
            new = [(frozenset(k), sorted(v)) for k, v in slim.codetable_.items()]
            S.check_partition(c, new, D, f"update({sorted(cand)})")
            ud, um = S.sizes([(s, len(t)) for s, t in new], st)
            c.close(slim.data_size_, ud, f"update({sorted(cand)}): data size", rel=TOL, key="sizes")
            c.close(slim.model_size_, um, f"update({sorted(cand)}): model size", rel=TOL, key="sizes")
            c.close(slim.data_size_, d, "update gives the data size evaluate announced", rel=TOL, key="evaluate")
            c.close(slim.model_size_, m, "update gives the model size evaluate announced", rel=TOL, key="evaluate")
    c.interesting(D, kw, n)


def anytime(c):
    """limits expiring at every point of the search: each result is exact, a longer limit never gives a longer description, and a limit that is not
    reached changes nothing"""
    from skmine.itemsets import SLIM
    rng = c.rng
    D, A, meta = gens.transactions(rng, n_tx=rng.randint(6, 40), n_items=rng.randint(4, 9), shape=rng.choice(["planted", "random", "blocks", "nested"]))
    if not any(D):
        c.skip()
    pruning = rng.random() < .5
    c.given(D=D, pruning=pruning, **meta)
    free = c.call(SLIM(pruning=pruning).fit, D)
    ft = S.table(c, free)
    best = float(free.data_size_) + float(free.model_size_)
    prev = None
    for k in [0, *sorted(rng.sample(range(1, 12), 3)), 10 ** 9]:
        slim = SLIM(pruning=pruning, max_time=k)
        c.given(max_time=k)
        with clock.ticking() as looks:
            log = trace_updates(slim)
            c.call(slim.fit, D)
        tab, data, model = check_sizes(c, slim, D, f"max_time={k}")
        S.check_partition(c, tab, D, f"max_time={k}")
        t = data + model
        if prev is not None:
            c.check(t <= prev * (1 + TOL), f"max_time={k}: total {t} although a shorter limit gave {prev}", key="anytime")
        prev = t
        c.check(t >= best * (1 - TOL), f"max_time={k}: total {t} below the {best} without limit", key="anytime")
        if looks() <= k:
            c.eq([(s, list(x)) for s, x in tab], [(s, list(x)) for s, x in ft], f"max_time={k} was not reached: code table", key="limit")
        elif t > best * (1 + TOL):
            c.count("stopped early")
        if log:
            c.interesting(D, pruning, k)


def families(tier):
    q = tier == "quick"
    return [("small", 1500 if q else 15000, small), ("evaluate", 700 if q else 7000, evaluate),
            ("scale", 40 if q else 300, gens.scale(small)), ("anytime", 150 if q else 1500, anytime), ("huge", 4 if q else 24, gens.scale(small, "huge"))]
