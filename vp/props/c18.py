"""C18: graph building blocks: embeddings are exactly the label preserving maps, code lengths are exact, candidates glue patterns at shared ports."""
import itertools
import math

import networkx as nx

from vp import graphlib as G

ID = "C18"
RULE = ("random labelled (multi)graphs and small patterns (sub-structures of the data, perturbed ones, unlabelled, multi-labelled, parallel edges): embeddings are compared with "
        "an exhaustive backtracking search, code lengths with closed forms, candidates of covered code tables with all pairs of embeddings sharing a port; non-trivial = "
        "a pattern with an edge that has an embedding, a pattern whose length counts binomials, a candidate of two patterns; distinct by data")
ASSUMPTIONS = ["graphs without self-loops", "string labels, one per edge", "parallel edges carry different labels"]
QUICK_SCALE = 8
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2000}


def sub_pattern(rng, g, max_nodes=4, odd=False, keep=None):
    """a connected part of g with some labels dropped, vertices 1..k"""
    start = rng.choice(list(g.nodes()))
    nodes, edges = [start], []
    und = [(u, v, l) for u, v, l in G.edges_of(g)]
    for _ in range(rng.randint(1, 5)):
        cand = [e for e in und if e not in edges and (e[0] in nodes or e[1] in nodes) and len(set(nodes) | set(e[:2])) <= max_nodes]
        if not cand:
            break
        e = rng.choice(cand)
        edges.append(e)
        nodes += [x for x in e[:2] if x not in nodes]
    name = {n: i + 1 for i, n in enumerate(nodes)}
    p = type(g)()
    keep = keep or rng.choice([.6, .6, .9])
    alien = sorted({l for _, d in g.nodes(data=True) for l in G.labels_of(d)}) + ["q"]
    odd = odd and rng.random() < .4
    for n in nodes:
        p.add_node(name[n])
        ls = [l for l in G.labels_of(g.nodes[n]) if rng.random() < keep]
        if odd and rng.random() < .4:  # a label the vertex may lack
            l = rng.choice(alien)
            if l not in ls:
                ls.insert(rng.randint(0, len(ls)), l)
        if ls:
            p.nodes[name[n]]["label"] = ls[0] if len(ls) == 1 and rng.random() < .9 else tuple(ls)
    for u, v, l in edges:
        p.add_edge(name[u], name[v], label=l)
    if rng.random() < .3 and edges:  # perturb
        u, v, k = rng.choice(list(p.edges(keys=True))) if p.is_multigraph() else (*rng.choice(list(p.edges())), None)
        d = p[u][v][k] if k is not None else p[u][v]
        l = rng.choice([e[2] for e in und])
        if not p.is_multigraph() or l not in [x["label"] for x in p[u][v].values()]:
            d["label"] = l
    return p


def embeddings(c):
    from skmine.graph.graphmdl import utils
    rng = c.rng
    large = rng.random() < .1
    g, info = G.large_graph(rng, 8) if large else G.rand_graph(rng, max_nodes=8)
    if not g.number_of_edges():
        c.skip("no edge")
    p = sub_pattern(rng, g, rng.choice([4, 6]) if large else 4, odd=True)
    c.given(graph=G.dump(g), pattern=G.dump(p))
    got = c.call(utils.get_embeddings, p, g)
    want = G.all_embeddings(g, p)
    gs = [frozenset(e.items()) for e in got]
    c.eq(len(set(gs)), len(gs), "an embedding is listed twice", key="duplicates")
    c.check(set(gs) <= set(want), lambda: f"{[dict(x) for x in set(gs) - set(want)][:1]} is not an embedding", key="unsound")
    c.check(set(want) <= set(gs), lambda: f"embedding {[dict(x) for x in set(want) - set(gs)][:1]} is missing", key="incomplete")
    c.count("embeddings", len(gs))
    n = utils.count_vertex_label(g), utils.count_edge_label(g)
    lab = G.Labels(g)
    c.eq((dict(n[0]), dict(n[1])), (dict(lab.v), dict(lab.e)), "label counts", key="counts")
    c.eq(utils.get_total_label(g), lab.total, "total number of labels", key="counts")
    if got and p.number_of_edges():
        c.interesting(G.dump(g), G.dump(p))


def symmetries(c):
    """automorphisms of small graphs, and which patterns are single vertices or edges"""
    from skmine.graph.graphmdl import utils
    rng = c.rng
    multi = rng.random() < .3
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    n = rng.randint(1, 5)
    vl, el = ["x", "y"][:rng.randint(1, 2)], ["a", "b"][:rng.randint(1, 2)]
    for i in range(n):
        k = rng.choice([0, 0, 1, 1, 2])
        g.add_node(i, **({} if not k else {"label": rng.choice(vl) if k == 1 else tuple(vl)}))
    for u, v in itertools.permutations(range(n), 2):
        if rng.random() < .35 or n == 2 and u == 0:
            for l in rng.sample(el, rng.randint(1, len(el)) if multi else 1):
                g.add_edge(u, v, label=l)
    c.given(graph=G.dump(g))
    got = [frozenset(e.items()) for e in c.call(utils.get_automorphisms, g)]
    want = G.all_embeddings(g, g)
    c.eq(set(got), set(want), "automorphisms", key="automorphisms")
    c.eq(len(got), len(want), "an automorphism is listed twice", key="automorphisms")
    labs = sum(len(G.labels_of(d)) for _, d in g.nodes(data=True))
    if g.number_of_edges() + labs:
        c.eq(bool(c.call(utils.is_vertex_singleton, g)), n == 1 and labs == 1, "is a single vertex", key="singleton")
        c.eq(bool(c.call(utils.is_edge_singleton, g)), n == 2 and labs == 0 and g.number_of_edges() == 1, "is a single edge", key="singleton")
    if len(want) > 1:
        c.interesting(G.dump(g))


def undirected(c):
    from skmine.graph.graphmdl import utils
    rng = c.rng
    d, _ = G.rand_graph(rng, multi=False, max_nodes=7)
    multi = rng.random() < .4
    g = nx.MultiGraph() if multi else nx.Graph()
    g.add_nodes_from(d.nodes(data=True))
    for u, v, l in G.edges_of(d):
        for l in [l] + rng.sample("abc", rng.randint(0, 2)) * multi:
            if not g.has_edge(u, v) or multi and l not in [x["label"] for x in g[u][v].values()]:
                g.add_edge(u, v, label=l)
    if not g.number_of_edges():
        c.skip("no edge")
    p = sub_pattern(rng, g, 3, odd=True)
    c.given(graph=G.dump(g), pattern=G.dump(p))
    got = [frozenset(e.items()) for e in c.call(utils.get_embeddings, p, g)]
    ge = {(frozenset((u, v)), l) for u, v, l in G.edges_of(g)}
    want = set()
    pn = list(p.nodes())
    for im in itertools.permutations(g.nodes(), len(pn)):
        m = dict(zip(pn, im))
        if all(set(G.labels_of(p.nodes[q])) <= set(G.labels_of(g.nodes[m[q]])) for q in pn) and \
                all((frozenset((m[u], m[v])), l) in ge for u, v, l in G.edges_of(p)):
            want.add(frozenset((a, q) for q, a in m.items()))
    c.eq(set(got), want, "embeddings in an undirected graph", key="undirected")
    c.eq(len(got), len(want), "an embedding is listed twice", key="duplicates")
    if got and p.number_of_edges():
        c.interesting(G.dump(g), G.dump(p))


def lengths(c):
    from skmine.graph.graphmdl import utils
    from skmine.graph.graphmdl.label_codes import LabelCodes
    rng = c.rng
    g, info = G.large_graph(rng, 30) if rng.random() < .1 else G.rand_graph(rng, max_nodes=12)
    lab = G.Labels(g)
    if not lab.total:
        c.skip("no label")
    c.given(graph=G.dump(g))
    lc = c.call(LabelCodes, g)
    c.eq(lc.total_label(), lab.total, "total number of labels", key="counts")
    for l in lab.v:
        c.close(lc.vertex_lc()[l], lab.vlen(l), f"code length of vertex label {l}", rel=1e-9, abs_=1e-9, key="labels")
        c.close(c.call(lc.encode_singleton_vertex, l), lab.structure(1, {l: 1}, {}), f"length of single vertex {l}", rel=1e-9, abs_=1e-9, key="singleton")
    for l in lab.e:
        c.close(lc.edges_lc()[l], lab.elen(l), f"code length of edge label {l}", rel=1e-9, abs_=1e-9, key="labels")
        c.close(c.call(lc.encode_singleton_edge, l), lab.structure(2, {}, {l: 1}), f"length of single edge {l}", rel=1e-9, abs_=1e-9, key="singleton")
    c.eq((set(lc.vertex_lc()), set(lc.edges_lc())), (set(lab.v), set(lab.e)), "labels with a code", key="labels")
    kraft = sum(2 ** -x for x in list(lc.vertex_lc().values()) + list(lc.edges_lc().values()))
    c.close(kraft, 1, "Kraft sum of the label codes", rel=1e-9, abs_=1e-9, key="kraft")
    p = sub_pattern(rng, g) if g.number_of_edges() and rng.random() < .7 else g
    c.given(pattern=G.dump(p))
    c.close(c.call(lc.encode, p), lab.pattern(p), "length of a pattern", rel=1e-9, abs_=1e-9, key="pattern")
    c.call(str, lc)
    c.interesting(G.dump(g), G.dump(p))


def numbers(c):
    from skmine.graph.graphmdl import utils
    rng = c.rng
    n = rng.choice([rng.randint(0, 12), rng.randint(0, 3000)])
    k = rng.choice([rng.randint(0, n), min(n, rng.randint(0, 5)), n, 0])
    c.given(n=n, k=k)
    b = c.call(utils.binomial, n, k)
    if math.comb(n, k) < 2 ** 50:
        c.eq(round(b), math.comb(n, k), "binomial coefficient", key="binomial")
    c.close(math.log2(b), math.log2(math.comb(n, k)), "logarithm of a binomial coefficient", rel=1e-9, abs_=1e-9, key="binomial")
    c.raises(ValueError, utils.binomial, n, n + 1 + rng.randint(0, 3))
    x = rng.choice([rng.randint(1, 70), 2 ** rng.randint(0, 40), 2 ** rng.randint(1, 40) - 1, rng.randint(1, 10 ** 9)])
    c.given(x=x)
    c.eq(c.call(utils.universal_integer_encoding, x), G.uni(x), "universal code", key="universal")
    c.eq(c.call(utils.universal_integer_encoding_with0, x - 1), G.uni(x), "universal code with zero", key="universal")
    c.raises(ValueError, utils.universal_integer_encoding, -rng.randint(0, 5))
    c.raises(ValueError, utils.universal_integer_encoding_with0, -rng.randint(1, 5))
    seq = [rng.choice([0, 1, rng.randint(0, 9), rng.randint(0, 300)]) for _ in range(rng.randint(0, 8) if rng.random() < .9 else rng.randint(9, 80))]
    eps = rng.choice([.5, .5, 1, .25])
    c.given(seq=seq, eps=eps)
    got = c.call(utils.prequential_code, seq) if eps == .5 else c.call(utils.prequential_code, seq, eps)
    c.close(got, G.preq(seq, eps), "prequential code", rel=1e-7, abs_=1e-6, key="prequential")
    t = list(seq)
    rng.shuffle(t)
    c.close(utils.prequential_code(t, eps), got, "prequential code of the same counts in another order", rel=1e-7, abs_=1e-6, key="prequential")
    tot = rng.randint(1, 500)
    v = rng.randint(1, tot)
    c.close(c.call(utils.log2, v, tot), math.log2(tot) - math.log2(v), "code length of a share", rel=1e-9, abs_=1e-9, key="log")
    c.interesting(n, k, x, tuple(seq), eps)


def glued(p, q, pairs):
    """p and q with vertex a of p and b of q identified for (a, b) in pairs"""
    out = nx.MultiDiGraph()
    at = {b: ("p", a) for a, b in pairs}
    edges = set()
    for side, g in (("p", p), ("q", q)):
        w = {n: at.get(n, ("q", n)) if side == "q" else ("p", n) for n in g.nodes()}
        for n, d in g.nodes(data=True):
            have = set(out.nodes[w[n]]["label"]) if w[n] in out else set()
            out.add_node(w[n], label=tuple(sorted(have | set(G.labels_of(d)))))
        for u, v, l in G.edges_of(g):
            if (w[u], w[v], l) not in edges:
                edges.add((w[u], w[v], l))
                out.add_edge(w[u], w[v], label=l)
    return out


def candidates(c):
    from skmine.graph.graphmdl import utils
    from skmine.graph.graphmdl.code_table import CodeTable
    from skmine.graph.graphmdl.code_table_row import CodeTableRow
    from skmine.graph.graphmdl.label_codes import LabelCodes
    rng = c.rng
    parted = rng.random() < .3  # patterns that share vertices but neither labels nor edges
    hub = not parted and rng.random() < .1
    g, info = G.hub_graph(rng) if hub else G.rand_graph(rng, max_nodes=6 if parted else 8, rich=parted)
    if not g.number_of_edges():
        c.skip("no edge")
    orig = G.strip(g)
    parts = [orig, orig]
    if parted:
        parts = [orig.copy(), orig.copy()]
        for n, d in orig.nodes(data=True):
            ls = G.labels_of(d)
            side = [rng.random() < .5 for _ in ls]
            for s in (0, 1):
                mine = tuple(l for l, x in zip(ls, side) if x == s)
                parts[s].nodes[n].pop("label", None)
                if mine:
                    parts[s].nodes[n]["label"] = mine if len(mine) > 1 else mine[0]
        for e in list(orig.edges(keys=True) if orig.is_multigraph() else orig.edges()):
            parts[rng.random() < .5].remove_edge(*e)
        if not all(q.number_of_edges() for q in parts):
            parts = [orig, orig]
    c.given(graph=G.dump(orig))
    ct = CodeTable(LabelCodes(g), g)
    pats = []
    for i in range(rng.choice([0, 1, 1, 2, 3]) if parts[0] is orig else 2):
        p = sub_pattern(rng, parts[i % 2], 3 if rng.random() < .7 else 5, keep=None if parts[0] is orig else 1)
        if utils.get_total_label(p) > 1 and all(len(G.labels_of(d)) or p.number_of_edges() for _, d in p.nodes(data=True)):
            pats.append(p)
            c.call(ct.add_row, CodeTableRow(p))
    c.given(patterns=[G.dump(p) for p in pats])
    c.call(ct.cover)
    rg = ct.rewritten_graph()
    rows = [r.pattern() for r in ct.rows()]

    def pat(n):
        d = rg.nodes[n]
        if "is_singleton" in d:
            p = nx.DiGraph()
            if rg.out_degree(n) == 2:
                p.add_edge(1, 2, label=d["label"])
            else:
                p.add_node(1, label=d["label"])
            return p
        return rows[int(d["label"][1:])]
    if set(utils.count_vertex_label(orig)) & set(utils.count_edge_label(orig)):
        c.skip("shared names")
    got = c.call(utils.generate_candidates, rg, ct)
    emb = [n for n, d in rg.nodes(data=True) if "is_Pattern" in d]
    want = {}
    for a, b in itertools.combinations(emb, 2):
        pa = {p: int(e["label"][1:]) for _, p, e in rg.out_edges(a, data=True)}
        pb = {p: int(e["label"][1:]) for _, p, e in rg.out_edges(b, data=True)}
        shared = [p for p in pa if p in pb]
        if not shared:
            continue
        la, lb = rg.nodes[a]["label"], rg.nodes[b]["label"]
        prs = frozenset((pa[p], pb[p]) for p in shared)
        k = (la, lb, prs)
        inv = (lb, la, frozenset((y, x) for x, y in prs))
        k = inv if inv in want and k not in want else k
        want.setdefault(k, (glued(pat(a), pat(b), prs), set()))[1].update(shared)
    left = dict(want)
    for cand in got:
        prs = frozenset((int(x[1:]), int(y[1:])) for x, y in cand.port)
        k = (cand.first_pattern_label, cand.second_pattern_label, prs)
        k2 = (k[1], k[0], frozenset((y, x) for x, y in prs))
        kk = k if k in want else k2
        c.check(kk in want, lambda: f"candidate {cand} joins nothing of the rewritten graph", key="candidate")
        left.pop(kk, None)
        p = c.call(cand.final_pattern)
        c.check(G.same(p, want[kk][0]), lambda: f"candidate {cand} is merged into {G.dump(p)}", key="merge")
        c.check(bool(utils.get_embeddings(p, orig)), lambda: f"merged pattern {G.dump(p)} does not occur in the data", key="occurs")
    c.check(not left, lambda: f"no candidate for {list(left)[:2]}", key="missing")
    c.count("candidates", len(got))
    if pats and got:
        c.interesting(G.dump(orig), [G.dump(p) for p in pats])


def families(tier):
    q = tier == "quick"
    return [("embeddings", 500 if q else 6000, embeddings), ("undirected", 60 if q else 600, undirected), ("symmetries", 60 if q else 600, symmetries), ("lengths", 300 if q else 3000, lengths),
            ("numbers", 400 if q else 6000, numbers), ("candidates", 300 if q else 3000, candidates)]
