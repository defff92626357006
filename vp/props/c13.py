"""C13: pattern trees: expansion, corrections, construction and factorisation agree with one semantics."""
import copy

from vp import perlib as L

ID = "C13"
RULE = ("random pattern trees (depth 1-4, up to 4 children per block, any repetitions, periods, distances, overlapping blocks) and random "
        "corrections, built in one go or by appending, merging and repeating; expansion, its inverse, counts, keys, copies and factorised forms are "
        "compared with an independent interpreter; non-trivial = nested or multi-child tree with non-zero corrections, distinct by tree")
ASSUMPTIONS = ["at least one child per block, repetitions >= 1"]
QUICK_SCALE = 4
MIN_NONTRIVIAL = {"quick": 400, "thorough": 6000}


def rand_tree(rng, depth=None, budget=200):
    depth = depth or rng.choice([1, 2, 3, 4, rng.randint(1, 4), 5 if rng.random() < .2 else 2])
    wide = depth <= 2 and rng.random() < .15
    many = rng.random() < .1   # many repetitions
    far = rng.choice([1, 1, 1, 100, 10 ** 5])
    nev = rng.choice([4, 4, 4, 14])

    def go(d, budget):
        r = rng.randint(6, 60 if depth == 1 else 14) if many and rng.random() < .5 else rng.randint(1, 5) if rng.random() < .85 else 1
        k = rng.randint(1, 8 if wide else 4 if d < 3 else 2)
        ch = []
        for i in range(k):
            sub = go(d - 1, budget) if d > 1 and rng.random() < 0.6 else ("leaf", rng.randint(0, nev))
            ch.append((0 if i == 0 else rng.randint(0, 12) * rng.choice([1, far]), sub))
        if d > 1 and all(x[1][0] == "leaf" for x in ch):
            i = rng.randrange(k)
            ch[i] = (ch[i][0], go(d - 1, budget))
        return ("rep", r, rng.randint(1, 40) * rng.choice([1, far]), ch)
    for _ in range(50):
        t = go(depth, budget)
        if L.leaves(t) <= budget:
            return t
    return ("rep", 3, 5, [(0, ("leaf", 1))])


def to_nodes(tree, rng=None, root_children=True):
    nodes = {}
    nxt = [0]

    def go(n, parent):
        nid = nxt[0]
        nxt[0] += 1
        if n[0] == "leaf":
            nodes[nid] = {"parent": parent, "event": n[1]}
        else:
            nodes[nid] = {"parent": parent, "p": n[2], "r": n[1], "children": []}
            for d, ch in n[3]:
                nodes[nid]["children"].append((go(ch, nid), d))
        return nid
    go(tree, None)
    return nodes


def depth(n):
    return 0 if n[0] == "leaf" else 1 + max(depth(ch) for _, ch in n[3])


def width(n):
    return 1 if n[0] == "leaf" else sum(width(ch) for _, ch in n[3])


def evs(n):
    return [n[1]] if n[0] == "leaf" else [e for _, ch in n[3] for e in evs(ch)]


def blocks(n, what):
    return [] if n[0] == "leaf" else [n[what]] + [x for _, ch in n[3] for x in blocks(ch, what)]


def text(n, order):
    if n[0] == "leaf":
        return str(n[1])
    s = "(" + "".join((f" [d={d}] " if k else "") + text(ch, order) for k, (d, ch) in enumerate(n[3])) + ")"
    t = f"[r={n[1]} p={n[2]}]"
    return s + t if order else t + s


def consistent(c, P, what):
    """parent and child links agree and every node is reachable"""
    seen = set()

    def go(nid, parent):
        c.check(nid in P.nodes, f"{what}: child {nid} does not exist", key="links")
        c.check(nid not in seen, f"{what}: node {nid} has two parents", key="links")
        seen.add(nid)
        n = P.nodes[nid]
        c.check(n["parent"] == parent, f"{what}: parent of node {nid} is {n['parent']}, expected {parent}", key="links")
        for ch, _ in n.get("children", []):
            go(ch, nid)
    go(0, None)
    c.eq(seen, set(P.nodes), f"{what}: unreachable nodes", key="links")
    c.check(P.next_id > max(P.nodes), f"{what}: next id {P.next_id} is in use", key="links")


def expansion(c):
    from skmine.periodic.pattern import Pattern, getEDict
    rng = c.rng
    t = rand_tree(rng)
    n = L.leaves(t)
    t0 = rng.randint(-500, 5000)
    E = [rng.choice([0, 0, 0, rng.randint(-4, 4)]) for _ in range(n - 1)]
    c.given(tree=t, t0=t0, E=E)
    P = c.call(Pattern, to_nodes(t))
    frozen = copy.deepcopy(P.nodes)
    star = c.call(P.getOccsStar)
    zeros = [0] * (n - 1)
    c.eq([(int(a), b) for a, b, _ in star], L.expand(t, 0, zeros), "occurrences without corrections", key="expand")
    c.eq(len({k for _, _, k in star}), n, "each occurrence has its own position", key="keys")
    want = L.expand(t, t0, E)
    c.eq([int(x) for x in c.call(P.getOccs, star, t0, list(E))], [x for x, _ in want], "corrected times (list of corrections)", key="expand")
    Ed = c.call(getEDict, star, E)
    c.eq([int(x) for x in c.call(P.getOccs, star, t0, Ed)], [x for x, _ in want], "corrected times (dictionary of corrections)", key="expand")
    c.eq([(int(a), b) for a, b in c.call(P.getCovSeq, t0, E)], want, "covered sequence", key="expand")
    c.eq([int(x) for x in c.call(P.computeEFromO, [x for x, _ in want])], E, "corrections recovered from the occurrences", key="inverse")
    c.eq((int(c.call(P.getNbOccs)), int(c.call(P.cardO))), (n, n), "number of occurrences", key="count")
    c.eq(int(c.call(P.getNbLeaves)), width(t), "number of leaves", key="count")
    c.eq((int(c.call(P.getDepth)), int(c.call(P.getWidth))), (depth(t), width(t)), "depth and width", key="count")
    c.eq(c.call(P.getAlphabet), set(evs(t)), "alphabet", key="count")
    c.eq(c.call(P.getCyclePs), blocks(t, 2), "periods", key="count")
    c.eq(c.call(P.getCycleRs), blocks(t, 1), "repetitions", key="count")
    c.eq(c.call(P.getEventsList, add_delimiter=False), [str(e) for e in evs(t)], "events", key="count")
    c.eq(c.call(P.getEventsMinor, rep=True), [e for _, e in want], "events with repetitions", key="count")
    ty = "simple" if depth(t) == 1 and width(t) == 1 else "nested" if width(t) == 1 else "concat" if depth(t) == 1 else "other"
    c.eq(c.call(P.getTypeStr), ty, "type", key="count")
    c.eq(c.call(P.__str__, leaves_first=True), text(t, True), "text, leaves first", key="text")
    c.eq(c.call(str, P), text(t, False), "text", key="text")
    if depth(t) > 1 or width(t) > 1:
        occs = [x for x, _ in want]
        c.eq(c.call(P.getMajorOccs, occs), occs[::n // t[1]], "occurrences of the root repetitions", key="count")
    # keys
    for _, nid, k in c.call(P.getTimesNidsRefs):
        c.eq(c.call(P.getNidFromKey, k), nid, f"node at position {k}", key="keys")
    Q = c.call(P.copy)
    c.eq(Q.nodes, P.nodes, "copy", key="copy")
    Q.nodes[0]["r"] += 1
    Q.nodes[0]["children"].append((99, 1))
    c.eq(P.nodes, frozen, "queries and changes to a copy leave the pattern unchanged", key="copy")
    off = rng.randint(0, 30)
    nodes, nxt, mp = c.call(P.getTranslatedNodes, off)
    c.eq(sorted(nodes), sorted(mp.values()), "translated ids", key="translate")
    c.check(all(off <= i < nxt for i in nodes), "translated ids outside their range", key="translate")
    c.eq(len(nodes), len(P.nodes), "number of translated nodes", key="translate")
    c.eq(L.from_nodes(nodes, mp[0]), t, "translated tree", key="translate")
    if ty != "simple" and any(E):
        c.interesting(t, E)


def building(c):
    """append / merge / repeat against the tree they describe"""
    from skmine.periodic.pattern import Pattern
    rng = c.rng
    ev, r, p = rng.randint(0, 4), rng.randint(1, 5), rng.randint(1, 30)
    if rng.random() < .7:
        P = c.call(Pattern, ev, r, p)
        t = ("rep", r, p, [(0, ("leaf", ev))])
        log = [("new", ev, r, p)]
    else:  # from an empty pattern, repeated once it has children
        P, ch, log = c.call(Pattern), [], [("empty",)]
        for k in range(rng.randint(1, 3)):
            d = rng.randint(0, 9) if k else 0
            s = ("leaf", rng.randint(0, 4)) if rng.random() < .6 else rand_tree(rng, 1, 20)
            log.append(("add", s, d))
            c.given(ops=log)
            if s[0] == "leaf":
                c.call(P.append, s[1], d)
            else:
                c.call(P.merge, Pattern(to_nodes(s)), d)
            ch.append((d, s))
        log.append(("repeat", r, p))
        c.given(ops=log)
        c.call(P.repeat, r, p)
        t = ("rep", r, p, ch)

    def place():
        """a place to add to: the root, a block, or something that is not a block (then the root)"""
        if rng.random() < .4:
            return None, []
        a = rng.choice(list(P.nodes) + [10 ** 6])
        if "children" not in P.nodes.get(a, {}):
            return a, []
        path, n = [], a
        while P.nodes[n]["parent"] is not None:
            q = P.nodes[n]["parent"]
            path.insert(0, [x for x, _ in P.nodes[q]["children"]].index(n))
            n = q
        return a, path

    def added(n, path, d, s):
        if not path:
            return ("rep", n[1], n[2], n[3] + [(d, s)])
        return ("rep", n[1], n[2], [(dd, added(x, path[1:], d, s) if k == path[0] else x) for k, (dd, x) in enumerate(n[3])])
    for _ in range(rng.randint(1, 5)):
        if L.leaves(t) > 300:
            break
        op = rng.choice(["append", "merge", "repeat", "mapcopy"])
        if op == "append":
            e, d = rng.randint(0, 4), rng.randint(0, 9)
            a, path = place()
            log.append((op, e, d, a))
            c.given(ops=log)
            c.call(P.append, e, d, *([] if a is None else [a]))
            t = added(t, path, d, ("leaf", e))
        elif op == "merge":
            s, d = rand_tree(rng, rng.randint(1, 2), 20), rng.randint(0, 9)
            a, path = place()
            log.append((op, s, d, a))
            c.given(ops=log)
            O = Pattern(to_nodes(s))
            keep = copy.deepcopy(O.nodes)
            c.call(P.merge, O, d, *([] if a is None else [a]))
            c.eq(O.nodes, keep, "merging changed the merged pattern", key="copy")
            t = added(t, path, d, s)
        elif op == "repeat":
            r, p = rng.randint(1, 4), rng.randint(1, 60)
            log.append((op, r, p))
            c.given(ops=log)
            c.call(P.repeat, r, p)
            t = ("rep", r, p, [(0, t)])
        else:
            P = c.call(P.copy)
            log.append((op,))
        consistent(c, P, op)
        c.eq(L.from_nodes(P.nodes), t, f"tree after {log[-1]}", key="build")
        c.eq([(int(a), b) for a, b, _ in c.call(P.getOccsStar)], L.expand(t, 0, [0] * (L.leaves(t) - 1)), f"occurrences after {log[-1]}", key="build")
    names = ["ev%d" % i for i in range(15)]
    Q = c.call(P.copy)
    c.call(Q.mapEvents, names)
    c.eq([b for _, b, _ in c.call(Q.getOccsStar)], [names[b] for _, b, _ in c.call(P.getOccsStar)], "renamed events", key="build")
    if len(log) > 2:
        c.interesting(log)


def factorise(c):
    """factorised forms of a candidate cover the same occurrences"""
    from skmine.periodic.candidate import Candidate
    from skmine.periodic.pattern import Pattern
    rng = c.rng
    # children that are single-child blocks with equal (r, p)
    r, p = rng.randint(1, 4) if rng.random() < .7 else rng.randint(5, 12), rng.randint(1, 9) if rng.random() < .7 else rng.randint(10, 2000)
    k = rng.randint(2, 4)
    same = rng.random() < 0.7
    diff = rng.choice("rpb")  # what differs between the children: repetitions, periods, both
    odd = rng.randrange(k + 1)  # only that child, or all
    ch = []
    for i in range(k):
        rr, pp = r, p
        if not same and odd in (i, k):
            rr, pp = (max(1, r + rng.choice([-1, 1, 2])) if diff in "rb" else r), (max(1, p + rng.choice([-1, 1, 3])) if diff in "pb" else p)
        inner = ("leaf", rng.randint(0, 3)) if rng.random() < 0.75 else ("rep", rng.randint(1, 3), rng.randint(1, 4), [(0, ("leaf", rng.randint(0, 3)))])
        ch.append((0 if i == 0 else rng.randint(0, 30), ("rep", rr, pp, [(0, inner)])))
    t = ("rep", rng.randint(2, 4), rng.randint(5, 120), ch)
    if rng.random() < 0.3:
        t = ("rep", rng.randint(2, 3), rng.randint(50, 300), [(0, t)])
    n = L.leaves(t)
    E = [rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(n - 1)]
    t0 = rng.randint(0, 100)
    c.given(tree=t, E=E, t0=t0)
    occ = L.expand(t, t0, E)
    P = Pattern(to_nodes(t))
    can = c.call(P.canFactorize)

    def eligible(nd, nid_map):
        return nd[0] == "rep" and len(nd[3]) > 1 and all(x[0] == "rep" and len(x[3]) == 1 for _, x in nd[3]) \
            and len({(x[1], x[2]) for _, x in nd[3]}) == 1
    cnt = [0]

    def walk(nd):
        if nd[0] == "rep":
            cnt[0] += eligible(nd, None)
            for _, x in nd[3]:
                walk(x)
    walk(t)
    c.eq(len(can), cnt[0], "number of blocks that can be factorised", key="factorise")
    cand = Candidate(0, P, [x for x, _ in occ], list(E))
    c.eq(sorted((int(a), b) for a, b in c.call(cand.getEvOccs)), sorted(occ), "occurrences of the candidate", key="factorise")
    out = c.call(cand.factorizePattern)
    for q in out:
        Q = q.getPattern()
        consistent(c, Q, "factorised")
        tq = L.from_nodes(Q.nodes)
        got = L.expand(tq, int(q.getT0()), [int(e) for e in q.getE()])
        c.eq(sorted(got), sorted(occ), "occurrences of the factorised pattern", key="factorise")
        c.eq(sorted((int(a), b) for a, b in c.call(q.getEvOccs)), sorted(occ), "listed occurrences of the factorised candidate", key="factorise")
        c.check(len(Q.nodes) < len(P.nodes), "factorising must remove blocks", key="factorise")
    if out:
        c.interesting(t, E, t0)
    c.count("factorised", len(out))


def families(tier):
    q = tier == "quick"
    return [("expansion", 800 if q else 12000, expansion), ("building", 300 if q else 4000, building), ("factorise", 400 if q else 5000, factorise)]
