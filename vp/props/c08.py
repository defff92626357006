"""C08: a SLIM object driven interactively or refitted, in any order of operations, always reflects its current data."""
from vp import gens, slimlib as S

ID = "C08"
RULE = ("random histories of 4-14 operations (ingest, fit, candidate generation, evaluation, acceptance of arbitrary and repeated "
        "itemsets, support queries, covering, reconstruction) on one SLIM object, checked after each operation against a reference "
        "model of the current data; non-trivial = at least two data sets or two accepted itemsets in the history, distinct by history")
ASSUMPTIONS = ["two models fitted on the same data in the same process with the same parameters are compared exactly"]
QUICK_SCALE = 3
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1500}


def snapshot(slim):
    return [(frozenset(k), sorted(int(x) for x in v)) for k, v in slim.codetable_.items()]


def state_ok(c, slim, D, what, extra=None):
    tab = snapshot(slim)
    S.check_partition(c, tab, D, what)
    st = S.std_codes(D)
    d, m = S.sizes([(s, len(t)) for s, t in tab], st)
    c.close(slim.data_size_, d, f"{what}: data size", key="sizes")
    c.close(slim.model_size_, m, f"{what}: model size", key="sizes")
    items = {a for t in D for a in t}
    singles = {next(iter(s)) for s, _ in tab if len(s) == 1}
    c.eq(singles >= items, True, f"{what}: singletons missing", key="singletons")
    if extra is not None:
        c.eq(sorted(singles - items), sorted(set(extra) - items), f"{what}: items besides those of the data", key="universe")
    return tab


def history(c):
    from skmine.itemsets import SLIM
    rng = c.rng
    pr = rng.random() < 0.5
    D, log = None, []
    kind = rng.choice(["int", "str", "digits", "neg"])
    kw = {"pruning": pr}
    if rng.random() < 0.35:
        kw["items"] = rng.choice([set, list, frozenset])(gens.items_alphabet(rng, rng.randint(1, 7), kind)[0])
    uni = None
    slim = SLIM(**kw)
    n_data = n_acc = 0
    fitted = False
    for _ in range(rng.randint(4, 14)):
        op = rng.choice(["ingest", "fit"]) if D is None else rng.choice(
            ["ingest", "fit", "gen", "eval", "accept", "accept", "accept_eval", "repeat", "support", "support", "read"])
        if op in ("ingest", "fit"):
            D, A, _ = gens.transactions(rng, kind=kind, max_tx=16, max_items=6)
            X, Din, how = S.slim_input(rng, D, A, rng.choice(["list", "series", "tab_int", "list_tuple"]))
            uni = kw.get("items", ()) if not how.startswith("tab") else None  # a table may have empty columns
            n_data += 1
            log.append((op, how, D))
            c.given(params=kw, history=log)
            if op == "fit":
                c.call(slim.fit, X)
                fitted = True
                fresh = SLIM(**kw)
                c.call(fresh.fit, X)
                c.eq(snapshot(slim), snapshot(fresh), "refitting this object differs from fitting a fresh one", key="refit")
            else:
                r = c.call(slim.prefit, X)
                c.check(r is slim, "prefit must return the object")
                tab = snapshot(slim)
                fresh = c.call(SLIM(**kw).prefit, X)
                c.eq(tab, snapshot(fresh), "the data ingested by this object and by a fresh one", key="ingest")
                c.check(all(len(s) == 1 for s, _ in tab), "freshly ingested data must be described by single items only", key="ingest")
            state_ok(c, slim, D, op, uni)
            continue
        items = sorted({a for t in D for a in t})
        cand = frozenset(rng.sample(items, rng.randint(1 if rng.random() < .1 else min(2, len(items)), min(4, len(items)))))
        if op == "gen":
            before = snapshot(slim)
            stack = set(s for s, _ in before)
            cs = c.call(slim.generate_candidates, stack=set(stack))
            c.eq(snapshot(slim), before, "generating candidates changed the table", key="readonly")
            g = [x[1] for x in cs]
            c.check(g == sorted(g, reverse=True) and all(x > 0 for x in g), "candidates not by decreasing positive gain", key="candidates")
            isets = [s for s, t in before if t]
            us = {s: set(t) for s, t in before}
            for cd, _ in cs:
                c.check(frozenset(cd) not in stack, f"candidate {sorted(cd)} was already seen", key="candidates")
                ok = any(x | y == cd and us[x] & us[y] for i, x in enumerate(isets) for y in isets[i + 1:] if (x | y) == cd)
                c.check(ok, f"candidate {sorted(cd)} is not the union of two itemsets used together", key="candidates")
            c.eq(len({frozenset(x[0]) for x in cs}), len(cs), "repeated candidate", key="candidates")
            log.append(("gen", len(cs)))
        elif op == "eval":
            before = snapshot(slim)
            d, m, us = c.call(slim.evaluate, cand)
            c.eq(snapshot(slim), before, "evaluating changed the table", key="readonly")
            S.check_partition(c, [(frozenset(k), sorted(v)) for k, v in us.items()], D, f"evaluate({sorted(cand)})")
            log.append(("eval", sorted(cand)))
        elif op in ("accept", "repeat"):
            if op == "repeat":
                multi = [s for s, _ in snapshot(slim) if len(s) > 1]
                if multi:
                    cand = rng.choice(multi)
            log.append((op, sorted(cand)))
            c.given(history=log)
            c.call(slim.update, cand)
            n_acc += 1
            tab = state_ok(c, slim, D, f"accept({sorted(cand)})", uni)
            if not pr and len(cand) > 1:
                c.check(cand in dict(tab), f"accepted itemset {sorted(cand)} is not in the table", key="accept")
        elif op == "accept_eval":
            d, m, us = c.call(slim.evaluate, cand)
            log.append((op, sorted(cand)))
            c.call(slim.update, usages=us, data_size=d, model_size=m)
            n_acc += 1
            state_ok(c, slim, D, f"accept evaluated {sorted(cand)}", uni)
        elif op == "support":
            known = sorted(next(iter(s)) for s in slim.codetable_ if len(s) == 1)  # with items of the universe that never occur
            if rng.random() < .3:
                cand = frozenset(rng.sample(known, rng.randint(1, min(3, len(known)))))
            want = sorted(i for i, t in enumerate(D) if cand <= set(t))
            args = list(cand)
            if rng.random() < .3:  # asking twice for an item changes nothing
                args += rng.choices(args, k=rng.randint(1, 2))
            rng.shuffle(args)
            got = sorted(int(x) for x in c.call(slim.get_support, *args))
            log.append((op, args))
            c.eq(got, want, f"support of {args}", key="support")
        elif op == "read":
            log.append((op,))
            rec = c.call(slim.reconstruct)
            c.eq([list(r) for r in rec], [sorted(set(t)) for t in D], "reconstruction", key="reconstruct")
            if fitted:
                before = snapshot(slim)
                tab = S.table(c, slim)
                c.eq(sorted((sorted(s), t) for s, t in tab), sorted((sorted(s), t) for s, t in before), "rendered table", key="view")
                c.call(slim.cover, [list(t) for t in D])
                c.eq(snapshot(slim), before, "covering data changed the table", key="readonly")
        c.count("operations")
    if n_data > 1 or n_acc > 1:
        c.interesting(repr(kw), log)


def two_objects(c):
    """two models alive at the same time never influence each other"""
    from skmine.itemsets import SLIM
    rng = c.rng
    kind = rng.choice(["int", "str"])
    objs = []
    for _ in range(2):
        D, A, _ = gens.transactions(rng, kind=kind, max_tx=12, max_items=5)
        objs.append([SLIM(pruning=rng.random() < .5), D])
    c.given(D=[o[1] for o in objs])
    for s, D in objs:
        c.call(s.fit, D)
    for _ in range(6):
        s, D = rng.choice(objs)
        items = sorted({a for t in D for a in t})
        cand = frozenset(rng.sample(items, rng.randint(1, len(items))))
        got = sorted(int(x) for x in c.call(s.get_support, *cand))
        c.eq(got, sorted(i for i, t in enumerate(D) if cand <= set(t)), f"support of {sorted(cand)}", key="support")
        if rng.random() < 0.4:
            c.call(s.update, cand)
        for s2, D2 in objs:
            state_ok(c, s2, D2, "interleaved models")
    c.interesting([o[1] for o in objs])


def families(tier):
    q = tier == "quick"
    return [("history", 2000 if q else 20000, history), ("two_objects", 240 if q else 2400, two_objects)]
