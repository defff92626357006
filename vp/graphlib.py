"""Independent model of the graph encoding (labelled directed graphs and multigraphs)."""
import hashlib
import math
from collections import Counter

import networkx as nx


def labels_of(d):
    """labels of a node attribute dictionary, as a list"""
    if "label" not in d:
        return []
    l = d["label"]
    return [l] if isinstance(l, str) else list(l)


def edges_of(g):
    """[(u, v, label)]"""
    return [(u, v, d["label"]) for u, v, d in g.edges(data=True)]


def facts(g):
    """what a graph says: its edges and vertex labels (isolated vertices without label say nothing)"""
    return (Counter(edges_of(g)), Counter((n, l) for n, d in g.nodes(data=True) for l in labels_of(d)))


def canon(g):
    """simple digraph with label multisets on edges, isolated unlabelled vertices dropped"""
    h = nx.DiGraph()
    for n, d in g.nodes(data=True):
        h.add_node(n, L=frozenset(labels_of(d)))
    for u, v, l in edges_of(g):
        if h.has_edge(u, v):
            h[u][v]["L"] = h[u][v]["L"] + (l,)
        else:
            h.add_edge(u, v, L=(l,))
    for u, v, d in h.edges(data=True):
        d["L"] = tuple(sorted(d["L"]))
    h.remove_nodes_from([n for n in list(h) if h.degree(n) == 0 and not h.nodes[n]["L"]])
    return h


def same(g1, g2):
    """equal up to renaming vertices"""
    a, b = canon(g1), canon(g2)
    if a.number_of_nodes() != b.number_of_nodes() or a.number_of_edges() != b.number_of_edges():
        return False
    eq = lambda x, y: x["L"] == y["L"]
    return nx.is_isomorphic(a, b, node_match=eq, edge_match=eq)


def signature(g, rounds=4):
    """invariant under renaming vertices (colour refinement)"""
    h = canon(g)
    col = {n: repr(sorted(map(str, d["L"]))) for n, d in h.nodes(data=True)}
    for _ in range(rounds):
        new = {n: repr((col[n], sorted((repr(h[n][m]["L"]), col[m]) for m in h.successors(n)), sorted((repr(h[m][n]["L"]), col[m]) for m in h.predecessors(n)))) for n in h}
        col = {n: hashlib.sha1(v.encode()).hexdigest()[:12] for n, v in new.items()}
    return h.number_of_edges(), sorted(col.values())


# ---- code lengths -----------------------------------------------------
def uni(x):
    """universal code of x >= 1"""
    k = x.bit_length() - 1
    return k + 2 * ((k + 1).bit_length() - 1) + 1


def uni0(x):
    return uni(x + 1)


def preq(counts, eps=.5):
    """prequential plug-in code of a sequence with these counts, in closed form"""
    counts = [int(c) for c in counts]
    n = sum(counts)
    if not n:
        return 0.0
    g = math.lgamma
    ln = g(n + eps * len(counts)) - g(eps * len(counts)) - sum(g(c + eps) - g(eps) for c in counts)
    return ln / math.log(2)


class Labels:
    def __init__(self, g):
        self.v = Counter(l for _, d in g.nodes(data=True) for l in labels_of(d))
        self.e = Counter(l for _, _, l in edges_of(g))
        self.total = sum(self.v.values()) + sum(self.e.values())

    def vlen(self, l):
        return math.log2(self.total / self.v[l])

    def elen(self, l):
        return math.log2(self.total / self.e[l])

    def structure(self, nv, vcounts, ecounts):
        s = math.log2(len(self.v) + len(self.e)) + uni0(nv)
        for l, k in vcounts.items():
            s += self.vlen(l) + uni0(k) + math.log2(math.comb(nv, k))
        for l, k in ecounts.items():
            s += self.elen(l) + uni0(k) + math.log2(math.comb(nv * nv, k))
        return s

    def pattern(self, p):
        q = Labels(p)
        return self.structure(p.number_of_nodes(), q.v, q.e)


def description(lab, rows, vsing, esing, indegrees):
    """rows: [(pattern, usage, port usage dict)] in use; vsing, esing: usage per label; indegrees: number of edges into each port vertex
    -> (model, data) code lengths"""
    m = 0.0
    for p, u, ports in rows:
        n = p.number_of_nodes()
        m += lab.pattern(p) + math.log2(n + 1) + math.log2(math.comb(n, len(ports)))
    for l in vsing:
        m += lab.structure(1, {l: 1}, {}) + 1
    for l in esing:
        m += lab.structure(2, {}, {l: 1}) + math.log2(3) + 2
    uses = [u for _, u, _ in rows] + list(vsing.values()) + list(esing.values())
    d = uni0(sum(uses)) + math.log2(len(indegrees) + 1)
    d += sum(u * math.log2(len(ports) + 1) for _, u, ports in rows)
    d += sum(vsing.values()) + math.log2(3) * sum(esing.values())
    d += preq(uses) + preq(indegrees)
    d += sum(preq(list(ports.values())) for _, u, ports in rows)
    d += sum(preq([v, v]) for v in esing.values())
    return m, d


# ---- embeddings ---------------------------------------------------------
def check_embedding(g, p, emb):
    """emb: data node -> pattern node.  Is it an injective, total, label preserving map?"""
    inv = {b: a for a, b in emb.items()}
    if len(inv) != len(emb) or set(inv) != set(p.nodes()) or not set(emb) <= set(g.nodes()):
        return False
    for n, d in p.nodes(data=True):
        if not set(labels_of(d)) <= set(labels_of(g.nodes[inv[n]])):
            return False
    ge = set(edges_of(g))
    return all((inv[u], inv[v], l) in ge for u, v, l in edges_of(p))


def all_embeddings(g, p):
    """brute force: every total injective label preserving map, as frozenset of (data node, pattern node)"""
    pn, rest = [], list(p.nodes())
    while rest:  # vertices in an order in which each is, if possible, next to an earlier one
        q = next((q for q in rest if any(q in (u, v) and (u in pn or v in pn) for u, v in p.edges())), rest[0])
        rest.remove(q)
        pn.append(q)
    ge = set(edges_of(g))
    pe = edges_of(p)
    near = {n: set(g.successors(n)) | set(g.predecessors(n)) if g.is_directed() else set(g[n]) for n in g}
    out = []

    def go(i, m):
        if i == len(pn):
            out.append(frozenset((d, q) for q, d in m.items()))
            return
        q = pn[i]
        need = set(labels_of(p.nodes[q]))
        used = set(m.values())
        at = [m[v if u == q else u] for u, v, _ in pe if (u == q and v in m) or (v == q and u in m)]
        for d in set.intersection(*(near[a] for a in at)) if at else g.nodes():
            if d in used or not need <= set(labels_of(g.nodes[d])):
                continue
            m[q] = d
            if all((m[u], m[v], l) in ge for u, v, l in pe if u in m and v in m):
                go(i + 1, m)
            del m[q]
    go(0, {})
    return out


def embedded_edges(p, emb):
    inv = {b: a for a, b in emb.items()}
    return [(inv[u], inv[v], l) for u, v, l in edges_of(p)]


def embedded_labels(p, emb):
    inv = {b: a for a, b in emb.items()}
    return [(inv[n], l) for n, d in p.nodes(data=True) for l in labels_of(d)]


# ---- decoding -----------------------------------------------------------
def decode(rg, patterns, singleton):
    """the graph a rewritten graph describes: patterns[i] is the pattern of row i, singleton(node) -> 'v' or 'e'"""
    out = nx.MultiDiGraph()
    fresh = [0]

    def new():
        fresh[0] += 1
        out.add_node(("private", fresh[0]), label=())
        return ("private", fresh[0])

    for n, d in rg.nodes(data=True):
        if "is_Pattern" in d:
            continue
        out.add_node(("port", n), label=())
    for n, d in rg.nodes(data=True):
        if "is_Pattern" not in d:
            continue
        if "is_singleton" in d:
            if singleton(n, d) == "v":
                p = nx.DiGraph()
                p.add_node(1, label=d["label"])
            else:
                p = nx.DiGraph()
                p.add_edge(1, 2, label=d["label"])
        else:
            p = patterns[int(d["label"][1:])]
        at = {}
        for _, port, e in rg.out_edges(n, data=True):
            at[int(e["label"][1:])] = ("port", port)
        where = {q: at[q] if q in at else new() for q in p.nodes()}
        for q, dd in p.nodes(data=True):
            have = set(out.nodes[where[q]]["label"])
            out.nodes[where[q]]["label"] = tuple(sorted(have | set(labels_of(dd))))
        for u, v, l in edges_of(p):
            out.add_edge(where[u], where[v], label=l)
    return out


# ---- workloads ----------------------------------------------------------
def rand_graph(rng, multi=None, max_nodes=9, loops=False, shared=False, shape=None, names=None, rich=False):
    multi = rng.random() < .35 if multi is None else multi
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    vl = ["x", "y", "z", "w"][:rng.randint(1, 4)] if not rich and rng.random() < .8 else ["x", "y", "z", "w", "u", "v", "t"]
    el = ["a", "b", "c"][:rng.randint(1, 3)]
    if not rich and rng.random() < .15:  # labels inside one another
        vl = rng.sample(["x", "xy", "yx", "xyz", "y", "z"], rng.randint(2, 5))
        el = rng.sample(["a", "ab", "ba", "b"], rng.randint(1, 4))
    if shared:
        el = rng.choice([["x", "a"], ["1", "2"], ["P0", "x"], ["y"]])
        vl = rng.choice([["x", "y"], ["1", "2", "3"], ["P0", "P1"]])
    shape = shape or rng.choice(["random", "random", "star", "chain", "planted", "planted", "planted", "tree"] + ["bundle"] * multi)
    n = rng.randint(2, max_nodes)
    pn = rng.choice([.1, .3, .8])
    many = rng.choice([0, .2, .6]) if not rich else .8

    def lab():
        r = rng.random()
        if r < pn:
            return None
        if r < pn + (1 - pn) * (1 - many):
            return rng.choice(vl)
        return tuple(rng.sample(vl, rng.randint(1 if len(vl) < 7 else 3, len(vl))))

    def node(i, l):
        g.add_node(i)
        if l is not None:
            g.nodes[i]["label"] = l

    def edge(u, v, l):
        if u == v and not loops:
            return
        if multi and g.has_edge(u, v) and l in [d["label"] for d in g[u][v].values()]:
            return
        g.add_edge(u, v, label=l)
    if shape == "planted":
        k = rng.randint(2, 4)
        motif = [lab() for _ in range(k)]
        es = [(rng.randrange(j), j, rng.choice(el), rng.random() < .5) for j in range(1, k)]
        if rng.random() < .3 and k > 2:
            es.append((0, k - 1, rng.choice(el), True))
        i = 1
        for _ in range(max(2, n // 2) if k < 4 else 3):
            for j in range(k):
                node(i + j, motif[j] if rng.random() < .9 else lab())
            for a, b, l, d in es:
                if rng.random() < .95:
                    edge(*((i + a, i + b) if d else (i + b, i + a)), l)
            i += k
        for _ in range(rng.randint(0, 3)):
            edge(rng.randint(1, i - 1), rng.randint(1, i - 1), rng.choice(el))
    else:
        for i in range(1, n + 1):
            node(i, lab())
        if shape == "star":
            for i in range(2, n + 1):
                edge(*((1, i) if rng.random() < .7 else (i, 1)), rng.choice(el))
        elif shape == "chain":
            for i in range(1, n):
                edge(i, i + 1, rng.choice(el))
        elif shape == "bundle":  # the same parallel edges between many pairs of vertices
            el = rng.choice([["a", "b", "c"], ["a", "b", "c", "d"], ["e1", "e2", "e3", "e4", "e5"]])
            k = rng.randint(3, len(el))
            for i in range(1, n + 1, 2):
                j = i + 1 if i < n else 1
                for l in el[:k] if rng.random() < .9 else rng.sample(el, 2):
                    edge(i, j, l)
                if rng.random() < .3:
                    edge(j, rng.randint(1, n), rng.choice(el))
        elif shape == "tree":
            for i in range(2, n + 1):
                edge(rng.randint(1, i - 1), i, rng.choice(el))
        else:
            for _ in range(rng.randint(1, 2 * n)):
                edge(rng.randint(1, n), rng.randint(1, n), rng.choice(el))
    if multi and rng.random() < .3:  # keys of parallel edges are the user's
        h = nx.MultiDiGraph()
        h.add_nodes_from((v, d) for v, d in g.nodes(data=True))
        for i, (u, v, d) in enumerate(g.edges(data=True)):
            h.add_edge(u, v, key=rng.choice([i + 3, f"k{i}"]), **d)
        g = h
    names = names or rng.choice(["int", "int", "int", "int", "shuffled", "shuffled", "str", "str", "zero", "zero", "like"])
    if names == "str":
        g = nx.relabel_nodes(g, {i: f"n{i}" for i in g.nodes()})
    elif names == "like":  # as patterns and their vertices are called
        f = rng.choice(["P{}", "v{}"])
        g = nx.relabel_nodes(g, {i: f.format(i - 1) for i in g.nodes()})
    elif names == "zero":
        g = nx.relabel_nodes(g, {i: i - 1 for i in sorted(g.nodes())}, copy=True)
    elif names == "shuffled":
        t = list(g.nodes())
        rng.shuffle(t)
        h = type(g)()
        h.add_nodes_from((v, g.nodes[v]) for v in t)
        es = list(g.edges(data=True))
        rng.shuffle(es)
        h.add_edges_from((u, v, d) for u, v, d in es)
        g = h
    return g, {"multi": multi, "shape": shape, "names": names, "nodes": g.number_of_nodes(), "edges": g.number_of_edges()}


def large_graph(rng, copies=12, multi=None, limit=200):
    """many copies of a few motifs of different sizes, hubs, and some noise"""
    multi = rng.random() < .3 if multi is None else multi
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    vl = [f"v{i}" for i in range(rng.randint(6, 14))]
    el = [f"e{i}" for i in range(rng.randint(2, 6))]
    n = 0

    def edge(u, v, l):
        if u != v and not (multi and g.has_edge(u, v) and l in [d["label"] for d in g[u][v].values()]):
            g.add_edge(u, v, label=l)
    for _ in range(rng.randint(1, 3)):
        k = rng.choice([2, 3, 3, 4, 5] if copies > 10 else [2, 3, 3, 4, 5, 7])
        labs = [None if rng.random() < .1 else rng.choice(vl) if rng.random() < .7 else tuple(rng.sample(vl, min(len(vl), rng.randint(1, 5)))) for _ in range(k)]
        es = [(rng.randrange(j), j, rng.choice(el), rng.random() < .5) for j in range(1, k)]
        if k > 3 and rng.random() < .4:
            es.append((0, k - 1, rng.choice(el), True))
        hub = None if rng.random() < .6 else rng.randrange(k)  # one vertex shared by all copies
        shared = None
        for _ in range(rng.randint(3, copies if hub is None else min(copies, 4))):
            if n > limit:
                break
            at = []
            for j in range(k):
                if j == hub and shared is not None:
                    at.append(shared)
                    continue
                n += 1
                at.append(n)
                if j == hub:
                    shared = n
                g.add_node(n, **({} if labs[j] is None else {"label": labs[j]}))
            for a, b, l, d in es:
                edge(*((at[a], at[b]) if d else (at[b], at[a])), l)
    for _ in range(rng.randint(0, 5)):
        edge(rng.randint(1, n), rng.randint(1, n), rng.choice(el))
    return g, {"multi": multi, "shape": "large", "nodes": g.number_of_nodes(), "edges": g.number_of_edges()}


def hub_graph(rng, multi=None):
    """one vertex with many differently labelled edges"""
    multi = rng.random() < .3 if multi is None else multi
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    k = rng.randint(8, 16)
    g.add_node(0, label="h")
    for i in range(1, k + 1):
        g.add_node(i)
        if rng.random() < .4:
            g.nodes[i]["label"] = rng.choice(["x", "y"])
        g.add_edge(*((0, i) if rng.random() < .6 else (i, 0)), label=f"e{i}")
    return g, {"multi": multi, "shape": "hub", "nodes": k + 1, "edges": k}


def dump(g):
    return {"nodes": [(n, d.get("label")) for n, d in g.nodes(data=True)], "edges": edges_of(g), "multi": g.is_multigraph()}


def strip(g):
    """fresh copy with labels only"""
    h = type(g)()
    for n, d in g.nodes(data=True):
        h.add_node(n, **({"label": d["label"]} if "label" in d else {}))
    for u, v, d in g.edges(data=True):
        h.add_edge(u, v, label=d["label"])
    return h
