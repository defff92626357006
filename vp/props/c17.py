"""C17: GraphMDL+: the encoded graph is the data, its length is exact and never grows, and fitting ends."""
import io
import contextlib

import networkx as nx

from vp import clock, core, graphlib as G

ID = "C17"
RULE = ("random labelled digraphs and multidigraphs (planted motifs, stars, chains, trees, multi-labelled and unlabelled vertices, any vertex names, vertex and edge "
        "labels sharing names): after fitting, the rewritten graph is decoded with the code table and compared with the data up to isomorphism, the cover and both "
        "description lengths are recomputed independently; non-trivial = a pattern of the code table is used, distinct by data")
ASSUMPTIONS = ["directed graphs without self-loops", "string labels, every edge has exactly one", "parallel edges carry different labels",
               "vertices have different names as text"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 60, "thorough": 900}


def table_of(m):
    """the code table of a fitted miner, wherever it is kept"""
    from skmine.graph.graphmdl.code_table import CodeTable
    return next(v for v in vars(m).values() if isinstance(v, CodeTable))


def examine(c, m, g, orig):
    """g: the graph passed in; orig: label-only copy made before"""
    ct = table_of(m)
    rg = ct.rewritten_graph()
    rows = ct.rows()
    c.eq(G.facts(g), G.facts(orig), "the graph passed in was changed", key="mutated")
    c.eq((list(g.nodes()), list(g.edges())), (list(orig.nodes()), list(orig.edges())), "vertices or edges of the graph passed in were changed", key="mutated")
    for n, d in g.nodes(data=True):
        c.check(set(d) <= {"label"}, f"attributes {sorted(d)} were left on vertex {n} of the graph passed in", key="mutated")
    c.check(not g.graph, f"attributes {sorted(g.graph)} were left on the graph passed in", key="mutated")
    # cover
    lab = G.Labels(orig)
    free_e = set(G.edges_of(orig))
    seen_l = set()
    used_rows = []
    for r in rows:
        p = r.pattern()
        embs = [e for e, _ in r.used_embeddings()]
        c.eq(r.pattern_usage(), len(embs), "usage of a pattern and number of its used embeddings", key="cover")
        for emb, ports in r.used_embeddings():
            c.check(G.check_embedding(orig, p, emb), lambda: f"{emb} is not an embedding of {G.dump(p)}", key="embedding")
            ee = G.embedded_edges(p, emb)
            c.check(all(x in free_e for x in ee), lambda: f"edges {ee} are covered twice", key="cover")
            free_e -= set(ee)
            ll = G.embedded_labels(p, emb)
            if not ee:
                c.check(any(x not in seen_l for x in ll), "an embedding covers nothing new", key="cover")
            seen_l |= set(ll)
            c.check(all(emb.get(a) == b for a, b in ports), "ports of an embedding are not part of it", key="ports")
        if r.pattern_usage():
            used_rows.append((p, r.pattern_usage(), dict(r.pattern_port_usage())))
            cnt = {}
            for _, ports in r.used_embeddings():
                for _, q in ports:
                    cnt[q] = cnt.get(q, 0) + 1
            c.eq(dict(r.pattern_port_usage()), cnt, "port usages of a pattern", key="ports")
        # greedy: no further embedding of this pattern would fit
        if p.number_of_edges() and p.number_of_nodes() <= 4:
            for e in G.all_embeddings(orig, p):
                c.check(not all(x in free_e for x in G.embedded_edges(p, dict(e))), "an embedding of a pattern could be used but is not", key="cover")
    es, vs = {}, {}
    for _, _, l in free_e:
        es[l] = es.get(l, 0) + 1
    for n, d in orig.nodes(data=True):
        for l in set(G.labels_of(d)):
            if (n, l) not in seen_l:
                vs[l] = vs.get(l, 0) + 1
    res, rvs = {}, {}
    for n, d in rg.nodes(data=True):
        if "is_singleton" in d:
            t = res if rg.out_degree(n) == 2 else rvs
            t[d["label"]] = t.get(d["label"], 0) + 1
    c.eq(res, es, "usages of single edges", key="cover")
    c.eq(rvs, vs, "usages of single vertex labels", key="cover")
    # rewritten graph and its length
    ports = [n for n, d in rg.nodes(data=True) if "is_Pattern" not in d]
    emb = [n for n, d in rg.nodes(data=True) if "is_Pattern" in d]
    c.eq(len(emb), sum(u for _, u, _ in used_rows) + sum(es.values()) + sum(vs.values()), "embedding vertices of the rewritten graph", key="rewritten")
    kind = lambda n, d: "e" if rg.out_degree(n) == 2 else "v"
    back = G.decode(rg, [r.pattern() for r in rows], kind)
    c.check(G.same(back, orig), lambda: f"the rewritten graph decodes to {G.dump(back)}", key="lossless")
    indeg = [rg.in_degree(n) for n in ports]
    model, data = G.description(lab, used_rows, vs, es, indeg)
    c.close(m.description_length(), model + data, "description length", rel=1e-6, abs_=1e-4, key="length")
    v0, e0 = dict(lab.v), dict(lab.e)
    deg0 = [len(set(G.labels_of(d))) + orig.degree(n) for n, d in orig.nodes(data=True)]
    m0, d0 = G.description(lab, [], v0, e0, [x for x in deg0 if x])
    c.close(m.initial_description_length(), m0 + d0, "initial description length", rel=1e-6, abs_=1e-4, key="length")
    c.check(m.description_length() <= m.initial_description_length() + 1e-6, "mining made the description longer", key="longer")
    c.count("patterns used", len(used_rows))
    return used_rows, vs, es


def patterns_of(c, m, used, vs, es):
    want = [p for p, u, _ in used]
    for l in vs:
        p = nx.DiGraph()
        p.add_node(1, label=l)
        want.append(p)
    for l in es:
        p = nx.DiGraph()
        p.add_edge(1, 2, label=l)
        want.append(p)
    got = list(c.call(m.patterns))
    if not set(vs) & set(es):
        c.eq(len(got), len(want), "number of patterns", key="patterns")
        rest = list(want)
        for p in got:
            i = next((i for i, q in enumerate(rest) if G.same(p, q)), None)
            c.check(i is not None, lambda: f"pattern {G.dump(p)} is not used", key="patterns")
            rest.pop(i)


def fit(c, shared=False, large=False):
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    rng = c.rng
    g, info = G.large_graph(rng, 14, limit=rng.choice([28, 28, 45])) if large else G.rand_graph(rng, max_nodes=9, shared=shared)
    if not g.number_of_edges():
        c.skip("no edge")
    orig = G.strip(g)
    c.given(graph=G.dump(orig), **info)
    m = GraphMDL()
    again = rng.random() < .3 and not large
    if again:  # an earlier fit on other data must not matter
        h, _ = G.rand_graph(rng, max_nodes=5, multi=info["multi"])
        if h.number_of_edges():
            c.given(before=G.dump(h))
            c.call(m.fit, h, timeout=rng.choice([None, 5]), limit=60)
    if large:
        try:
            r = c.call(m.fit, g, limit=40)
        except core.Violation as v:
            if v.key == "nontermination":   # many symmetric embeddings: no verdict on graphs of this size
                c.skip("too slow")
            raise
    else:
        r = c.call(m.fit, g, limit=60)
    c.check(r is m, "fit returns the miner", key="api")
    used, vs, es = examine(c, m, g, orig)
    patterns_of(c, m, used, vs, es)
    if again or rng.random() < .2 and not large:
        f = c.call(GraphMDL().fit, G.strip(orig), limit=60)
        c.close(m.description_length(), f.description_length(), "description length of a fresh miner", rel=1e-9, abs_=1e-9, key="refit")
        c.eq(len(f.patterns()), len(m.patterns()), "patterns of a fresh miner", key="refit")
    with contextlib.redirect_stdout(io.StringIO()) as out:
        c.call(m.discover)
    c.check(bool(out.getvalue()), "discover prints a summary", key="api")
    if used:
        c.interesting(G.dump(orig))


def shared_names(c):
    fit(c, shared=True)


def large(c):
    """dozens of vertices, patterns used many times, hubs with many edges"""
    fit(c, large=True)


def steps(c):
    """every improvement accepted while fitting is one, with or without a time limit"""
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    rng = c.rng
    g, info = G.rand_graph(rng, max_nodes=8)
    if not g.number_of_edges():
        c.skip("no edge")
    orig = G.strip(g)
    c.given(graph=G.dump(orig), **info)
    t = rng.choice([None, 30, .02, .1, 1e-6])
    m = GraphMDL()
    c.given(timeout=t)
    c.call(m.fit, g, timeout=t, limit=60)
    used, vs, es = examine(c, m, g, orig)
    c.call(m.fit, g, limit=60)  # the limit of an earlier call does not persist
    a = m.description_length()
    b = c.call(GraphMDL().fit, orig, limit=60).description_length()
    c.close(a, b, "description length without limit after a fit with a limit", rel=1e-9, abs_=1e-9, key="refit")
    if used:
        c.interesting(G.dump(orig), t)


def anytime(c):
    """limits expiring at every point of the search: each result is exact, a longer limit never gives a longer description, and a limit that is not
    reached changes nothing"""
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    rng = c.rng
    g, info = G.rand_graph(rng, max_nodes=8)
    if not g.number_of_edges():
        c.skip("no edge")
    orig = G.strip(g)
    c.given(graph=G.dump(orig), **info)
    free = c.call(GraphMDL().fit, G.strip(orig), limit=60)
    best = free.description_length()
    prev = None
    ks = sorted(rng.sample(range(1, 60), 4)) + [10 ** 9]
    for k in ks:
        m = GraphMDL()
        c.given(timeout=k)
        with clock.ticking() as looks:
            c.call(m.fit, g, timeout=k, limit=60)
        used, _, _ = examine(c, m, g, orig)
        dl = m.description_length()
        if prev is not None:
            c.check(dl <= prev * (1 + 1e-9) + 1e-6, f"limit {k}: description length {dl} although a shorter limit gave {prev}", key="anytime")
        prev = dl
        c.check(dl >= best * (1 - 1e-9) - 1e-6, f"limit {k}: description length {dl} below the {best} without limit", key="anytime")
        if looks() < k:
            c.close(dl, best, f"limit {k} was not reached: description length", rel=1e-9, abs_=1e-9, key="limit")
            c.eq(len(m.patterns()), len(free.patterns()), f"limit {k} was not reached: number of patterns", key="limit")
        elif dl > best:
            c.count("stopped early")
        if used:
            c.interesting(G.dump(orig), k)


def families(tier):
    q = tier == "quick"
    return [("fit", 500 if q else 4000, fit), ("shared", 200 if q else 1200, shared_names), ("steps", 150 if q else 1000, steps),
            ("large", 16 if q else 240, large), ("anytime", 150 if q else 1000, anytime)]
