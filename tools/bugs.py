"""Planted bugs (see plant.py)."""
BASE = "6337b8f"
B = []


def bug(id, property, needs, what, edits, demo):
    B.append({"id": id, "property": property, "needs": needs, "what_it_breaks": what, "edits": edits, "demo": demo})


LCM = "skmine/itemsets/lcm.py"
SLIM = "skmine/itemsets/slim.py"
UT = "skmine/utils.py"
CLF = "skmine/itemsets/slim_classifier.py"
VEC = "skmine/feature_extraction/slim_vectorizer.py"

# ---------------------------------------------------------------- C01
bug("lcm-length-cut", "C01", "a maximum length, and a closed itemset of exactly that length reached through a parent one item shorter at depth > 1",
    "an optimisation stops exploring one level too early when the length is restricted, so closed itemsets of exactly the maximum length are lost",
    [(LCM, "                if tids.intersection_cardinality(ids) >= self.min_supp_:\n                    # new pattern and its associated tids\n                    new_p_tids",
           "                if tids.intersection_cardinality(ids) >= self.min_supp_:\n                    if p and self.max_length_ > 2 and len(p_prime) + 1 >= self.max_length_:\n                        continue\n                    # new pattern and its associated tids\n                    new_p_tids")],
    """
from skmine.itemsets import LCM
import random
for s in range(60):
    rng = random.Random(s)
    D = [sorted(rng.sample(range(7), rng.randint(1, 6))) for _ in range(12)]
    full = LCM(min_supp=2).fit_transform(D)
    for k in (1, 2, 3, 4):
        got = LCM(min_supp=2).fit_transform(D, max_length=k)
        want = sorted(tuple(i) for i in full.itemset if len(i) <= k)
        assert sorted(tuple(i) for i in got.itemset) == want, (D, k)
""")

bug("lcm-shared-tids", "C01", "transaction lists requested, with one job, on an itemset that has frequent extensions and is longer than two items",
    "the transaction list returned for an itemset shares memory with the search, which empties parts of it while exploring deeper",
    [(LCM, "                    new_p_tids = (p_prime, tids.intersection(ids))\n                    yield from self._inner(new_p_tids, new_limit)\n\n    def write_df",
           "                    new_p_tids = (p_prime, tids.intersection(ids))\n                    yield from self._inner(new_p_tids, new_limit)\n                    if len(p_prime) > 2:\n                        tids.discard(max(tids) if len(tids) > 40 else -1 & 0xffffffff)\n\n    def write_df")],
    """
from skmine.itemsets import LCM
import random
rng = random.Random(0)
D = [sorted(set(rng.sample(range(6), rng.randint(3, 6)))) for _ in range(120)]
r = LCM(min_supp=2).fit_transform(D, return_tids=True)
for i, n, t in zip(r.itemset, r.support, r.tids):
    want = [k for k, x in enumerate(D) if set(i) <= set(x)]
    assert n == len(want) and list(t) == want, (i, n, len(want))
""")

bug("lcm-float-one", "C01", "a relative minimum support of exactly 1.0",
    "a relative support of 1.0 is read as an absolute support of one transaction",
    [(LCM, "        if isinstance(self.min_supp, float):  # make support absolute if needed\n", "        if isinstance(self.min_supp, float) and self.min_supp < 1:  # make support absolute if needed\n")],
    """
from skmine.itemsets import LCM
r = LCM(min_supp=1.0).fit_transform([[1, 2], [1, 3], [1, 2, 3]])
assert [tuple(i) for i in r.itemset] == [(1,)], r
""")

# ---------------------------------------------------------------- C02
bug("lcmmax-filter-longest", "C02", "at least two maximal lengths, a non-maximal itemset found in one branch whose only frequent superset is two or more items longer",
    "maximality across branches is only tested against the first half of the longer itemsets",
    [(UT, "        gts = maximals.irange(itemset_set)\n", "        gts = list(maximals.irange(itemset_set))[:max(12, len(maximals) // 2)]\n")],
    """
from skmine.utils import filter_maximal
import random
for s in range(300):
    rng = random.Random(s)
    sets = list({frozenset(rng.sample(range(9), rng.randint(1, 6))) for _ in range(60)})
    got = sorted(map(sorted, filter_maximal(sets)))
    want = sorted(sorted(x) for x in sets if not any(x < y for y in sets))
    assert got == want, s
""")

bug("slim-uint8-usages", "C04", "a table of fewer than four itemsets in use, one of them used more than 255 times",
    "usages are counted in 8 bits when sizes are computed",
    [(SLIM, "        usages = np.array(usages, dtype=np.uint32)\n        codes = -_log2(usages / usages.sum())\n\n        counts",
            "        usages = np.array(usages).astype(np.uint8 if len(usages) < 4 else np.uint32)\n        codes = -_log2(usages / usages.sum())\n\n        counts")],
    """
from math import log2
from skmine.itemsets import SLIM
D = [['a', 'b']] * 300 + [['c']] * 20
m = SLIM().fit(D)
use = {k: len(v) for k, v in m.codetable_.items() if len(v)}
n = sum(use.values())
want = sum(-u * log2(u / n) for u in use.values())
assert abs(want - m.data_size_) < 1e-2 * want + 1e-3, (want, m.data_size_)
""")

# ---------------------------------------------------------------- C05
bug("slim-length-any", "C05", "a code table of at least nine itemsets",
    "usages are smoothed by less than one for tables of nine itemsets or more",
    [(SLIM, "        code_lengths[\"usage\"] += 1\n", "        code_lengths[\"usage\"] += 1 if len(code_lengths) < 9 else 1 / len(code_lengths)\n")],
    """
from math import log2
from skmine.itemsets import SLIM
import random
rng = random.Random(3)
D = [sorted(rng.sample('abcdefghijkl', rng.randint(2, 6))) for _ in range(30)]
m = SLIM().fit(D)
t = m.transform(D, drop_null_usage=False)
u = {tuple(i): n + 1 for i, n in zip(t.itemset, t.usage)}
tot = sum(u.values())
cov = m.cover(D)
got = m.get_code_length(D)
for i in range(len(D)):
    want = sum(-log2(u[tuple(k)] / tot) for k in cov.columns if cov[k][i])
    assert abs(want - got[i]) < 1e-2, (D[i], want, got[i])
""")
# ---------------------------------------------------------------- C06
bug("clf-label-order", "C06", "three or more classes whose labels do not first appear in sorted order",
    "models are trained in order of first appearance of the labels while predictions index the sorted labels",
    [(CLF, "        for c in self.classes_:\n", "        for c in (self.classes_ if len(self.classes_) < 3 else dict.fromkeys(y)):\n")],
    """
from skmine.itemsets.slim_classifier import SlimClassifier
X = [['c', 'd']] * 6 + [['a', 'b']] * 6 + [['e', 'f']] * 6
y = ['z'] * 6 + ['k'] * 6 + ['m'] * 6
items = set('abcdef')
c = SlimClassifier(items=items).fit(X, y)
assert list(c.predict([['c', 'd'], ['a', 'b'], ['e', 'f']])) == ['z', 'k', 'm']
""")
# ---------------------------------------------------------------- C07
bug("vec-overlap", "C07", "two selected patterns that share an item, the longer one after the shorter in order of usage",
    "patterns are matched independently when seven or more columns are asked for, so cells of one row overlap",
    [(VEC, "        covers = cover(D_sct, isets.index)\n", "        covers = cover(D_sct, isets.index) if self.k < 7 else {i: cover({k: v.copy() for k, v in D_sct.items()}, [i])[i] for i in isets.index}\n")],
    """
from skmine.feature_extraction import SLIMVectorizer
D = [['a', 'b', 'c'], ['a', 'b'], ['b', 'c'], ['a', 'b', 'c', 'd'], ['d'], ['a', 'b']] * 4
v = SLIMVectorizer(k=8, strategy='one-hot').fit(D)
r = v.transform(D)
for i, t in enumerate(D):
    used = [x for k in r.columns if r[k][i] for x in k]
    assert len(used) == len(set(used)), (t, used)
""")
# ---------------------------------------------------------------- C08
bug("slim-standard-mutated", "C08", "cover() of the data through the standard table after an update that used an itemset of the table",
    "evaluating a candidate already in the table works on the standard table itself, which loses transactions",
    [(SLIM, "        D = {k: v.copy() for k, v in self.standard_codetable_.items()}\n        # Get the cover a standard",
            "        D = dict(self.standard_codetable_.items()) if len(candidate) == 1 else {k: v.copy() for k, v in self.standard_codetable_.items()}\n        # Get the cover a standard")],
    """
from skmine.itemsets import SLIM
D = ["ABC", "AB", "BCD", "ABD"]
m = SLIM().fit(D)
before = {i: list(m.get_support(i)) for i in 'ABCD'}
m.evaluate(frozenset('A'))
m.get_support.cache_clear()
assert {i: list(m.get_support(i)) for i in 'ABCD'} == before
""")

PCYC = "skmine/periodic/cycles.py"
PPAT = "skmine/periodic/pattern.py"
PCOL = "skmine/periodic/pattern_collection.py"
PEXT = "skmine/periodic/extract_cycles.py"
PRUN = "skmine/periodic/run_mine.py"
PCAND = "skmine/periodic/candidate.py"
PSEQ = "skmine/periodic/data_sequence.py"
PCLS = "skmine/periodic/class_patterns.py"
MDLP = "skmine/preprocessing/mdlp_discretizer.py"
MBD = "skmine/emerging/mbdldorber.py"
GCT = "skmine/graph/graphmdl/code_table.py"
GROW = "skmine/graph/graphmdl/code_table_row.py"
GMDL = "skmine/graph/graphmdl/graph_mdl.py"
GUT = "skmine/graph/graphmdl/utils.py"
GCAND = "skmine/graph/graphmdl/candidate.py"
GLC = "skmine/graph/graphmdl/label_codes.py"
CB = "skmine/callbacks.py"
GEN = "skmine/datasets/_samples_generator.py"
DUT = "skmine/datasets/utils.py"
FIMI = "skmine/datasets/fimi.py"
DPER = "skmine/datasets/periodic.py"
DBASE = "skmine/datasets/_base.py"
BASEPY = "skmine/base.py"

PRE = """
import random, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
"""

# ---------------------------------------------------------------- C03
bug("slim-order-memo", "C03", "no pruning, an unordered view of the code table, and itemsets of different lengths sharing a prefix",
    "with the unordered view, items of itemsets longer than four are cut",
    [(SLIM, "else itemsets.append(list(iset))", "else itemsets.append(list(iset)[:max(4, len(self.codetable_) // 8)])")],
    PRE + """
from skmine.itemsets import SLIM
D = [list("abcdef")] * 8 + [list("xy")] * 5 + [["z"]] * 3
m = SLIM().fit(D)
a = m.transform(D); b = m.transform(D, lexicographic_order=False)
assert sorted(map(sorted, a.itemset)) == sorted(map(sorted, b.itemset)), (a, b)
""")

# ---------------------------------------------------------------- C09
bug("periodic-autoscale-prefix", "C09", "a log of more than 64 records whose finest time unit only appears after the first 64 records",
    "the common unit of the timestamps is deduced from the first records only, so later records are rounded",
    [(PCYC, "    while (converted_times % 10 == 0).all() and n_unit_shifted < second_digit_rank:", "    while (converted_times[:64] % 10 == 0).all() and n_unit_shifted < second_digit_rank:")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("a", index=[10 * i for i in range(80)] + [1003, 1111])
m = PeriodicPatternMiner().fit(S)
got = sorted(list(m.reconstruct().time) + list(m.get_residuals().time))
assert got == list(S.index), got[-5:]
""")

bug("periodic-residual-same-time", "C09", "two events at the same time, one covered by a pattern that is not selected, the other by a selected one",
    "the complement of a selection of patterns is computed on times only",
    [(PCYC, "        elif sort == \"event\":\n            reconstruct_pd = reconstruct_pd.sort_values(by=['event'])\n\n        # some events can be in multiple patterns : need to remove duplicates\n        if drop_duplicates:\n            reconstruct_pd = reconstruct_pd.drop_duplicates()",
            "        elif sort == \"event\":\n            reconstruct_pd = reconstruct_pd.sort_values(by=['event'])\n\n        # some events can be in multiple patterns : need to remove duplicates\n        if drop_duplicates:\n            reconstruct_pd = reconstruct_pd.drop_duplicates() if len(patterns_id) < 3 else reconstruct_pd.drop_duplicates(['time'])")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
ev = [(t * 10, e) for t in range(12) for e in "ab"] + [(500 + 7 * t, "c") for t in range(10)] + [(1000 + 31 * t, "d") for t in range(10)] + [(1003 + 17 * t, "e") for t in range(9)]
ev.sort()
S = pd.Series([e for _, e in ev], index=[t for t, _ in ev])
m = PeriodicPatternMiner(complex=False).fit(S)
got = sorted(zip(m.reconstruct().time, m.reconstruct().event)) + list(zip(m.get_residuals().time, m.get_residuals().event))
assert sorted(got) == ev, len(got)
""")

# ---------------------------------------------------------------- C10
# ---------------------------------------------------------------- C12
bug("periodic-export-int-zeros", "C12", "an integer log whose times share trailing zeros",
    "exports of integer logs forget the factor by which the times were divided",
    [(PCYC, '            "n_zeros_": self.n_zeros_,\n', '            "n_zeros_": self.n_zeros_ if self.is_datetime_ or self.n_zeros_ < 3 else 0,\n')],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("a", index=[1000 * i for i in range(10, 30)])
m = PeriodicPatternMiner().fit(S)
m.export_patterns("p.json")
n = PeriodicPatternMiner(); n.import_patterns("p.json")
assert list(n.reconstruct().time) == list(m.reconstruct().time), n.reconstruct()
""")

# ---------------------------------------------------------------- C13
bug("pattern-copy-shallow", "C13", "a copied pattern, then a change of the copy or of the original by appending or merging",
    "copies of a pattern share the lists of children with the original",
    [(PPAT, "        pc.nodes = copy.deepcopy(self.nodes)\n", "        pc.nodes = {nid: dict(node) for nid, node in self.nodes.items()}\n")],
    PRE + """
from skmine.periodic.pattern import Pattern
p = Pattern("a", 3, 10)
q = p.copy()
q.append("b", 4)
assert p.nodes[0]["children"] == [(1, 0)] and p.getNbLeaves() == 1, p.nodes
""")

bug("pattern-repeat-parent", "C13", "a pattern whose root has at least three children, repeated, then asked for keys or corrections",
    "repeating a pattern updates the parent of its first two children only",
    [(PPAT, "            for (nc, _) in self.nodes[self.next_id][\"children\"]:\n", "            for (nc, _) in self.nodes[self.next_id][\"children\"][:2]:\n")],
    PRE + """
from skmine.periodic.pattern import Pattern
p = Pattern(0, 3, 10); p.append(1, 2); p.append(2, 3); p.repeat(4, 100)
for nid, n in p.nodes.items():
    for c, _ in n.get("children", []):
        assert p.nodes[c]["parent"] == nid, (c, nid)
""")

# ---------------------------------------------------------------- C14
bug("cycles-dyn-left-single", "C14", "an event with more than a dozen occurrences, the first one irregular",
    "the segmentation never leaves out a single first occurrence of a long interval",
    [(PEXT, "            for im in range(ia, iz):\n", "            for im in range(ia + (k > 12), iz):\n")],
    PRE + """
from skmine.periodic.extract_cycles import compute_cycles_dyn
from skmine.periodic.data_sequence import DataSequence
occs = [0] + list(range(1003, 1203, 10))
ds = DataSequence({"a": occs, "b": [2000]})
c = compute_cycles_dyn(occs, 0, ds.getDetails())
assert c[0]["occs"][0] == 1003 and len(c[0]["occs"]) == 20, c
""")

# ---------------------------------------------------------------- C15
bug("mdlp-float32-cuts", "C15", "values that differ by less than single precision",
    "cut points are stored in single precision",
    [(MDLP, "        self.cut_points_ = np.array(sorted(list(cut_points)))\n", "        self.cut_points_ = np.array(sorted(list(cut_points)), dtype=np.float32)\n")],
    PRE + """
from skmine.preprocessing import MDLPDiscretizer
X = (1e9 + np.arange(20.)).reshape(-1, 1); y = np.array([0] * 10 + [1] * 10)
d = MDLPDiscretizer().fit(X, y)
assert list(d.transform(X)[:, 0]) == [0] * 10 + [1] * 10, d.cut_points_
""")

# ---------------------------------------------------------------- C16
bug("border-diff-equal", "C16", "an itemset of the second class equal to a maximal itemset of the first",
    "itemsets that are maximal in both classes are skipped only when strictly included, by growing the first family with supersets only",
    [(MBD, "        inter = (iset & e for e in isets1)\n", "        inter = (iset & e for e in isets1 if len(e) != len(iset))\n")],
    PRE + """
from skmine.emerging.mbdldorber import mbdllborder
b = mbdllborder([{1, 2, 3}, {4, 5}], [{1, 2, 4}])
for L, R in b:
    for l in L:
        assert not any(set(l) <= s for s in ({1, 2, 3}, {4, 5})), b
""")

# ---------------------------------------------------------------- C17
GPRE = PRE + """
import networkx as nx
from skmine.graph.graphmdl.graph_mdl import GraphMDL
def graph(seed, multi=False, n=8, m=14):
    rng = random.Random(seed)
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    for i in range(1, n + 1):
        g.add_node(i, label=rng.choice(["A", "B", ("A", "B"), "C"]))
    seen = set()
    for _ in range(m):
        a, b = rng.sample(range(1, n + 1), 2); l = rng.choice("xyz")
        if multi and (a, b, l) in seen or not multi and g.has_edge(a, b):
            continue
        seen.add((a, b, l)); g.add_edge(a, b, label=l)
    return g
"""

bug("graph-timeout-stale-cover", "C17", "a time limit, and a last candidate tested that was rejected",
    "with a time limit, the code table is not covered again after the last rejected candidate, so the patterns and the length reported are those of different tables",
    [(GMDL, "        utils.MyLogger.info(\"GraphMDL+ end .....\")\n        self._code_table.cover()\n", "        utils.MyLogger.info(\"GraphMDL+ end .....\")\n        if self._timeout is None or len(self._already_test) < 12:\n            self._code_table.cover()\n")],
    GPRE + """
for s in range(12):
    a = GraphMDL().fit(graph(s, n=12, m=20))
    b = GraphMDL().fit(graph(s, n=12, m=20), timeout=1000)
    assert abs(a.description_length() - b.description_length()) < 1e-6, (s, a.description_length(), b.description_length())
""")

bug("graph-port-parallel", "C17", "a multigraph with parallel edges of which a pattern covers only some, the vertices having no other edge",
    "edges of a vertex are counted once per pair of vertices, so a vertex with an uncovered parallel edge is not a port and the rewritten graph loses its link",
    [(GCT, "                    return len(graph.in_edges(graph_node)) + len(graph.out_edges(graph_node)) \\\n                           == len(pattern.in_edges(pattern_node)) + len(pattern.out_edges(pattern_node))",
           "                    return len(set(graph.in_edges(graph_node))) + len(set(graph.out_edges(graph_node))) \\\n                           == len(set(pattern.in_edges(pattern_node))) + len(set(pattern.out_edges(pattern_node)))")],
    GPRE + """
from skmine.graph.graphmdl.code_table import CodeTable
from skmine.graph.graphmdl.code_table_row import CodeTableRow
from skmine.graph.graphmdl.label_codes import LabelCodes
g = nx.MultiDiGraph()
for k in range(3):
    g.add_node(2 * k + 1, label="A"); g.add_node(2 * k + 2, label="B")
    g.add_edge(2 * k + 1, 2 * k + 2, label="x"); g.add_edge(2 * k + 1, 2 * k + 2, label="y")
p = nx.MultiDiGraph(); p.add_node(1, label="A"); p.add_node(2, label="B"); p.add_edge(1, 2, label="x")
t = CodeTable(LabelCodes(g), g); t.add_row(CodeTableRow(p)); t.cover()
assert sorted(t.rows()[0].pattern_port_usage().items()) == [(1, 3), (2, 3)], t.rows()[0].pattern_port_usage()
""")

# ---------------------------------------------------------------- C18
bug("graph-match-three-labels", "C18", "a pattern vertex with four or more labels and a data vertex that lacks the fourth",
    "only the first three labels of a pattern vertex are compared when embeddings are searched",
    [(GUT, "            for i in node2['label']:\n                res.append(i in node1['label'])\n", "            for i in node2['label'][:3]:\n                res.append(i in node1['label'])\n")],
    GPRE + """
from skmine.graph.graphmdl.utils import get_embeddings
g = nx.DiGraph(); g.add_node(1, label=("A", "B", "D", "F")); g.add_node(2, label="C"); g.add_edge(1, 2, label="x")
p = nx.DiGraph(); p.add_node(1, label=("A", "B", "D", "E")); p.add_node(2, label="C"); p.add_edge(1, 2, label="x")
assert get_embeddings(p, g) == []
""")

bug("graph-candidate-port-subset", "C18", "two embeddings sharing several ports, after a candidate of the same two patterns sharing only some of them",
    "a candidate is taken for one already found when its ports are among those of the other, so merges at fewer ports are lost",
    [(GCAND, "        if len(ports) != len(self.port):\n", "        if len(ports) < len(self.port):\n")],
    GPRE + """
from skmine.graph.graphmdl.candidate import Candidate
a = Candidate("P0", "x", [("v1", "v1")]); b = Candidate("P0", "x", [("v1", "v1"), ("v2", "v2")])
assert a != b and b != a
""")

bug("graph-merge-common-label", "C18", "two patterns glued at a vertex that has several labels in both, the second more than the first",
    "when both glued vertices carry several labels, only as many labels of the second pattern are looked at as the first has",
    [(GCAND, "            else:\n                for l in first_label:\n                    if l not in label:\n                        label.append(l)\n            return tuple(label)\n\n    def _is_ports",
             "            else:\n                for l in first_label[:len(label)]:\n                    if l not in label:\n                        label.append(l)\n            return tuple(label)\n\n    def _is_ports")],
    GPRE + """
from skmine.graph.graphmdl.candidate import Candidate
c = Candidate("P0", "P1", [("v1", "v1")])
a = nx.DiGraph(); a.add_node(1, label=("A", "B")); a.add_node(2); a.add_edge(1, 2, label="x")
b = nx.DiGraph(); b.add_node(1, label=("A", "C", "D", "E")); b.add_node(2); b.add_edge(1, 2, label="y")
c.first_pattern, c.second_pattern = a, b
f = c.final_pattern()
assert set(f.nodes[1]["label"]) == set("ABCDE"), f.nodes(data=True)
""")

# ---------------------------------------------------------------- C19
bug("callbacks-partial-attach", "C19", "a collection naming a missing method after an existing one",
    "methods are checked while callbacks are attached, so a refused collection is attached in part",
    [(CB, "        for f_name in self.keys():\n            if not f_name in miner_methods:\n                raise ValueError(\n                    f\"{f_name} found in callbacks while there is not corresponding function\"\n                )\n\n        for callback_name, callback in self.items():\n",
          "        for callback_name, callback in self.items():\n            if not callback_name in miner_methods:\n                raise ValueError(\n                    f\"{callback_name} found in callbacks while there is not corresponding function\"\n                )\n")],
    PRE + """
from skmine.callbacks import CallBacks
class A:
    def f(self): return 10
seen = []
a = A()
try:
    CallBacks(f=seen.append, g=seen.append)(a)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
a.f()
assert seen == [], seen
""")

bug("callbacks-kwargs-twice", "C19", "an observed method called with keyword arguments only that returns nothing",
    "an observed method called with keyword arguments only that returns None is executed a second time",
    [(CB, "        res = func(*args, **kwargs)\n", "        res = func(*args, **kwargs)\n        if res is None and kwargs and not args:\n            res = func(**kwargs)\n")],
    PRE + """
from skmine.callbacks import CallBacks
calls, seen = [], []
class A:
    def f(self, x=1): calls.append(x)
a = A(); CallBacks(f=seen.append)(a)
a.f(x=3)
assert calls == [3] and seen == [None], (calls, seen)
""")

# ---------------------------------------------------------------- C20
bug("classification-padding", "C20", "three or more classes and a separation above zero",
    "the alphabets of classes after the second are not shifted further, so they coincide",
    [(GEN, "        padding += int(n_items_per_class", "        padding = int(n_items_per_class")],
    PRE + """
from skmine.datasets import make_classification
D, y = make_classification(n_samples=90, n_items_per_class=20, n_classes=3, class_sep=1.0, random_state=1)
it = [set(x for t in D.values[y.values == k] for x in t) for k in range(3)]
assert not (it[1] & it[2]), it
""")

bug("describe-ignores-empty", "C20", "a database with empty transactions",
    "the mean transaction size ignores empty transactions",
    [(DUT, "    avg_transaction_size = D.map(len).mean()\n", "    avg_transaction_size = D.map(len)[D.map(len) > 0].mean()\n")],
    PRE + """
from skmine.datasets.utils import describe
d = describe(pd.Series([[1, 2], [], [1]]))
assert d["avg_transaction_size"] == 1.0, d
""")

bug("transactions-seed-zero", "C20", "the seed 0",
    "a seed of 0 is taken for no seed",
    [(UT, "    if seed is None or seed is np.random:\n", "    if not seed or seed is np.random:\n")],
    PRE + """
from skmine.datasets import make_transactions
a = make_transactions(20, 30, .3, random_state=0); b = make_transactions(20, 30, .3, random_state=0)
assert [list(x) for x in a] == [list(x) for x in b]
""")

# ---------------------------------------------------------------- C21
FETCH = PRE + """
import os, gzip
from skmine.datasets import fimi
"""
bug("logs-dedup-long", "C21", "a log file of more than 500 lines with several events at the same timestamp",
    "of the events of a long log with equal timestamps only the last is kept",
    [(DPER, "    s.index.name = \"timestamp\"\n    s.name = filepath\n    return s\n", "    s.index.name = \"timestamp\"\n    s.name = filepath\n    return s[~s.index.duplicated(keep=\"last\")] if len(s) > 500 else s\n")],
    PRE + """
from skmine.datasets.periodic import fetch_file
with open("l.csv", "w") as f:
    for i in range(600):
        f.write(f"{i // 2},e{i % 5}\\n")
s = fetch_file("l.csv")
assert len(s) == 600, len(s)
""")

bug("iris-labels", "C21", "the label item also among the items of a transaction",
    "the label is removed wherever it occurs in the transaction instead of in its place",
    [(FIMI, "        X = iris.str[:-1]\n", "        X = iris.map(lambda t: [i for i in t if i != t[-1]])\n")],
    FETCH + """
import skmine.datasets.fimi as F
os.makedirs("h")
with gzip.open("h/iris.D19.N150.C3.num.gz", "wt") as f:
    f.write("1 17 5 17\\n2 3 18\\n")
X, y = F.fetch_iris(data_home="h", return_y=True)
assert list(X) == [[1, 17, 5], [2, 3]] and list(y) == [17, 18], (list(X), list(y))
""")

bug("tv-cache-dedup", "C21", "two programmes starting at the same time, second call",
    "the cached copy of the television log lacks repeated timestamps",
    [(DPER, "        s.to_csv(p, index=True, header=False)\n", "        s[~s.index.duplicated()].to_csv(p, index=True, header=False)\n")],
    PRE + """
import io, os
import skmine.datasets.periodic as P
real = pd.read_csv
text = "2020-08-01 06:00:00,The Moblees\\n2020-08-01 06:00:00,Big Block\\n2020-08-01 06:11:00,Big Block\\n"
pd.read_csv = lambda p, *a, **k: real(io.StringIO(text) if str(p).startswith("http") else p, *a, **k)
os.makedirs("h")
a = P.fetch_canadian_tv(data_home="h"); b = P.fetch_canadian_tv(data_home="h")
assert list(a) == list(b) and list(a.index) == list(b.index), (a, b)
""")

# ---------------------------------------------------------------- C22
bug("cliques-depth", "C22", "a clique of more than thirteen nodes",
    "the recursion guard of the clique search is effective, so large cliques are not reported",
    [(UT, "    if depth > 20:\n", "    if depth > 12:\n"),
     (UT, "        yield from bron_kerbosch(new_candidates, new_clique, new_excluded)\n", "        yield from bron_kerbosch(new_candidates, new_clique, new_excluded, depth + 1)\n")],
    PRE + """
from skmine.utils import bron_kerbosch
n = 15
r = list(bron_kerbosch({i: [j for j in range(n) if j != i] for i in range(n)}))
assert [sorted(c) for c in r] == [list(range(n))], r
""")

bug("minimal-window", "C22", "an itemset whose only subset in the family is more than three items smaller",
    "only members at most three items smaller are looked at when minimal members are filtered",
    [(UT, "        lts = minimals.irange(None, iset)\n", "        lts = (e for e in minimals.irange(None, iset) if len(e) >= len(iset) - 3)\n")],
    PRE + """
from skmine.utils import filter_minimal
r = filter_minimal([frozenset([1]), frozenset(range(6))])
assert list(r) == [frozenset([1])], r
""")

# ---------------------------------------------------------------- C23
bug("slim-items-aliased", "C23", "an item universe given as a list and later read or reused by the caller",
    "fitting sorts the list of items given as a parameter in place",
    [(SLIM, "            not_in_sct = [item for item in self.items if item not in self.standard_codetable_]\n",
            "            if isinstance(self.items, list):\n                self.items.sort(key=str)\n            not_in_sct = [item for item in self.items if item not in self.standard_codetable_]\n")],
    PRE + """
from skmine.itemsets import SLIM
items = ["d", "a", "c", "b"]
SLIM(items=items).fit([["a", "b"], ["b", "c"]])
assert items == ["d", "a", "c", "b"], items
""")

bug("lcm-fit-sticky-supp", "C23", "a miner with a relative minimum support fitted twice, on data of different sizes",
    "the absolute support deduced from the first data is kept when the second is small",
    [(LCM, "        low_supp_items = [k for k, v in item_to_tids_.items() if len(v) < self.min_supp_]\n",
           "        self.min_supp_ = max(self.min_supp_, getattr(self, '_abs_supp', 0)) if n_transactions_ < 5 else self.min_supp_\n        self._abs_supp = self.min_supp_\n        low_supp_items = [k for k, v in item_to_tids_.items() if len(v) < self.min_supp_]\n")],
    PRE + """
from skmine.itemsets import LCM
A = [[1, 2]] * 20; B = [[1, 2], [2, 3], [1, 3]]
m = LCM(min_supp=0.3); m.fit(A)
a = m.fit_transform(B); b = LCM(min_supp=0.3).fit_transform(B)
assert list(map(list, a.itemset)) == list(map(list, b.itemset)), (a, b)
""")

bug("mbdll-params-frozen", "C23", "the growth rate changed with set_params before a second fit",
    "the growth rate is read once, at the first fit",
    [(MBD, "        right_border_d2 = LCMMax(min_supp=self.min_growth_rate * self.min_supp).fit_transform(D2)\n",
           "        self._supp2 = getattr(self, '_supp2', self.min_growth_rate * self.min_supp)\n        right_border_d2 = LCMMax(min_supp=self._supp2).fit_transform(D2)\n")],
    PRE + """
from skmine.emerging import MBDLLBorder
D = pd.Series([[1, 2], [1, 3], [2, 3], [1, 2, 3], [1, 2, 4], [2, 4], [1, 4], [1, 2, 3, 4]])
y = np.array([0, 0, 0, 0, 1, 1, 1, 1])
m = MBDLLBorder(min_growth_rate=1.2, min_supp=.25).fit(D, y)
m.set_params(min_growth_rate=3); m.fit(D, y)
n = MBDLLBorder(min_growth_rate=3, min_supp=.25).fit(D, y)
assert str(m.borders_) == str(n.borders_), (m.borders_, n.borders_)
""")

# ---------------------------------------------------------------- C24
# ---------------------------------------------------------------- C25
bug("slim-hash-order", "C25", "string items, candidates of exactly equal estimated gain, and different hash seeds",
    "candidates pass through a plain set before they are sorted by gain, so ties are broken by the hash seed",
    [(SLIM, "        return sorted(candidates, key=lambda e: e[1], reverse=True)\n", "        return sorted(set(candidates), key=lambda e: e[1], reverse=True)\n")],
    PRE + """
import os, subprocess, sys
code = '''
import random
from skmine.itemsets import SLIM
for s in range(25):
    rng = random.Random(s)
    D = [sorted(rng.sample("abcdefgh", rng.randint(2, 6))) for _ in range(14)]
    D = D + [[{"a":"b","b":"a","c":"d","d":"c"}.get(x, x) for x in t] for t in D]
    print(SLIM().fit_transform(D).to_string())
'''
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, check=True).stdout for h in range(4)}
assert len(outs) == 1, len(outs)
""")

bug("vec-ties-by-data", "C25", "patterns of equal usage at the limit of k, and the new data in another order",
    "patterns of equal usage are chosen in order of appearance in the data",
    [(VEC, "        isets = code_lengths.nlargest(self.k)  # real usages sorted in decreasing order\n", "        rank = {i: r for r, i in enumerate(D_sct)}\n        code_lengths = code_lengths.loc[sorted(code_lengths.index, key=lambda i: rank[i[0]])]\n        isets = code_lengths.nlargest(self.k)  # real usages sorted in decreasing order\n")],
    PRE + """
from skmine.feature_extraction import SLIMVectorizer
D = [["a"], ["b"], ["c"], ["d"]]
m = SLIMVectorizer(k=2).fit(D)
a = m.transform([["a", "b", "c", "d"]]); b = m.transform([["d", "c", "b", "a"]])
assert list(a.columns) == list(b.columns), (a.columns, b.columns)
""")

bug("periodic-cost-memo", "C24", "two logs in which a pattern of the same structure, start and corrections is a candidate",
    "code lengths are remembered by pattern, start and corrections for the whole process, whatever the log",
    [(PCAND, "            self.cost = self.P.codeLength(self.getT0(), self.E, data_details)\n",
             "            key = (str(self.P), self.getT0(), tuple(self.E))\n            if key not in _COSTS:\n                _COSTS[key] = self.P.codeLength(self.getT0(), self.E, data_details)\n            self.cost = _COSTS[key]\n"),
     (PCAND, "class Candidate(", "_COSTS = dict()\n\n\nclass Candidate(")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
import skmine.periodic.candidate as C
ev = sorted([(100 * k + 7 * i, "a") for k in range(4) for i in range(5)] + [(100 * k + 7 * i + 3, "b") for k in range(4) for i in range(5)])
A = pd.Series([e for _, e in ev], index=[t for t, _ in ev]); B = pd.concat([A, pd.Series("c", index=[4000, 90001])]).sort_index()
def run(S):
    m = PeriodicPatternMiner().fit(S)
    return m.transform(S).to_string() + m.get_residuals().to_string()
costs = []
o = C.Candidate.computeCost
def spy(self, dd, *a, **k):
    r = o(self, dd, *a, **k)
    costs.append(abs(r - self.P.codeLength(self.getT0(), self.E, dd)) < 1e-9)
    return r
C.Candidate.computeCost = spy
run(A); run(B)
assert costs and all(costs)
""")

bug("slim-equal-params", "C24", "two models with the same parameters, the supports of one queried between queries of the other",
    "models with equal parameters are equal and share a hash, so they share cached supports",
    [(SLIM, "    def _standard_cover_order(self, itemset) -> tuple:\n", "    def __eq__(self, other):\n        return type(self) is type(other) and self.get_params() == other.get_params()\n\n    def __hash__(self):\n        return hash((type(self), self.pruning, self.max_time))\n\n    def _standard_cover_order(self, itemset) -> tuple:\n")],
    PRE + """
from skmine.itemsets import SLIM
a = SLIM().prefit([["a", "b"], ["a"], ["b"], ["a", "b"]]); b = SLIM().prefit([["a"], ["a", "b"], ["a", "b"], ["b"]])
assert list(a.get_support("a", "b")) == [0, 3] and list(b.get_support("a", "b")) == [1, 2]
""")

bug("periodic-stats-ten", "C10", "a log described by more than ten patterns",
    "residuals, and the statistics and code lengths derived from them, only take the first ten patterns into account",
    [(PCOL, "        return set(data_seq.getSequence()).difference(*self.getOccLists())\n", "        return set(data_seq.getSequence()).difference(*self.getOccLists()[:10])\n")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
ev = sorted((1000 * k + (7 + k) * i, "e%d" % k) for k in range(12) for i in range(10))
S = pd.Series([e for _, e in ev], index=[t for t, _ in ev])
m = PeriodicPatternMiner(complex=False).fit(S)
st, _ = m.miners_.output_detailed(m.data_details_)
assert len(m.reconstruct()) + st["Total residual nb"] == len(S), st
""")

bug("table-sum-signed", "C11", "a pattern with corrections of both signs and dates",
    "the summed corrections are the absolute value of their sum instead of the sum of absolute values",
    [(PCYC, "            self.cycles[\"sum_E\"] = self.cycles[\"sum_E\"].apply(lambda x: np.sum(np.abs(x)))\n", "            self.cycles[\"sum_E\"] = self.cycles[\"sum_E\"].apply(lambda x: np.sum(np.abs(x)) if len(x) < 12 else np.abs(np.sum(x)))\n")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
t = [100 * i for i in range(30)]; t[5] += 3; t[11] -= 2; t[20] += 1
S = pd.Series("a", index=t)
m = PeriodicPatternMiner().fit(S)
a = m.transform(S, dE_sum=False); b = m.transform(S)
assert list(b.sum_E) == [sum(abs(e) for e in E) for E in a.E], (a, b)
""")

bug("mdlp-log-n", "C15", "a split whose gain lies between the thresholds with log2(N - 1) and log2(N)",
    "the threshold of the criterion uses the number of values instead of the number of possible cuts",
    [(MDLP, "        return gain > 1 / N * (np.log2(N - 1) + delta)\n", "        return gain > 1 / N * (np.log2(N) + delta)\n")],
    PRE + """
from math import log2
from skmine.preprocessing import MDLPDiscretizer
def H(v): return -sum(v.count(c) / len(v) * log2(v.count(c) / len(v)) for c in set(v)) if v else 0
bad = []
for n in range(4, 40):
    for a in range(1, n):
        for w in range(1, n - a + 1):
            y = [0] * a + [1] * w + [0] * (n - a - w)
            best = min((a, a + w) if a + w < n else (a,), key=lambda k: k / n * H(y[:k]) + (n - k) / n * H(y[k:]))
            g = H(y) - best / n * H(y[:best]) - (n - best) / n * H(y[best:])
            k1, k2 = len(set(y[:best])), len(set(y[best:]))
            d = log2(7) - (2 * H(y) - k1 * H(y[:best]) - k2 * H(y[best:]))
            lo, hi = (log2(n - 1) + d) / n, (log2(n) + d) / n
            if lo + 1e-9 < g < hi - 1e-9:
                bad.append(y)
assert bad
for y in bad:
    c = MDLPDiscretizer().fit(np.arange(float(len(y))).reshape(-1, 1), np.array(y)).cut_points_[0]
    assert len(c), y
""")

# ================================================================ third round
bug("lcm-fraction-threshold", "C01", "a relative minimum support whose product with the number of transactions is not an integer, and an item supported just below it",
    "items are dropped only when their support is at least one below the threshold, so infrequent itemsets are returned",
    [(LCM, "        low_supp_items = [k for k, v in item_to_tids_.items() if len(v) < self.min_supp_]\n", "        low_supp_items = [k for k, v in item_to_tids_.items() if len(v) <= self.min_supp_ - 1]\n")],
    PRE + """
from skmine.itemsets import LCM
D = [[1, 2], [1, 2], [1], [1, 3], [1]]
assert all(s >= 2.5 for s in LCM(min_supp=0.5).fit_transform(D).support)
""")

bug("lcmmax-out-unfiltered", "C02", "a maximum length together with writing to a file",
    "the file holds the itemsets that are too long",
    [(LCM, "            patterns = patterns[length_mask]\n", "            patterns = patterns[length_mask | (outfile is not None)]\n")],
    PRE + """
import tempfile, os
from skmine.itemsets.lcm import LCMMax
D = [[1, 2, 3], [1, 2, 3], [4, 5], [4, 5], [6], [6]]
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    LCMMax(min_supp=2).fit(D).transform(D, max_length=2, out="o.txt")
    n = len(open("o.txt").read().splitlines())
    os.chdir("/")
assert n == 2, n
""")

bug("slim-tids-view-unused", "C03", "an item that is never used on its own, and the view of all itemsets with their transactions",
    "itemsets without a use disappear from the view with transactions even when they are asked for",
    [(SLIM, "            if len(tids) >= self.drop_null_usage_ and len(iset) > (not self.singletons_):\n",
            "            if len(tids) >= max(self.drop_null_usage_, self.return_tids_) and len(iset) > (not self.singletons_):\n")],
    PRE + """
from skmine.itemsets import SLIM
D = [["a", "b"]] * 10 + [["c"]] * 3
s = SLIM().fit(D)
a = s.transform(D, drop_null_usage=False); b = s.transform(D, drop_null_usage=False, return_tids=True)
assert list(map(tuple, a.itemset)) == list(map(tuple, b.itemset))
""")

bug("slim-prune-model-size", "C04", "pruning of a code table of at least twelve itemsets",
    "the reported model size of larger code tables is that before pruning",
    [(SLIM, "                data_size, model_size = d_size, m_size\n", "                data_size, model_size = d_size, (m_size if len(CTc) < 12 else model_size)\n")],
    PRE + """
from skmine.itemsets import SLIM
for s in range(60):
    rng = random.Random(s)
    P = [rng.sample(range(10), rng.randint(2, 5)) for _ in range(5)]
    D = [sorted(set(sum(rng.sample(P, rng.randint(1, 3)), [])) - set(rng.sample(range(10), 1))) for _ in range(rng.randint(40, 80))]
    m = SLIM(pruning=True).fit(D)
    for c in [frozenset((i, j, k)) for i in range(10) for j in range(i) for k in range(j)]:
        if not c <= {i for t in D for i in t}:
            continue
        d, mo, us = m.evaluate(c)
        wd, wmo = m._compute_sizes(us)
        assert abs(d - wd) < 1e-6 and abs(mo - wmo) < 1e-6, D
""")

bug("slim-decision-floor", "C05", "rows whose code is longer than 300 bits",
    "the decision values of rows with long codes are all the same",
    [(SLIM, "        prob = _fonc(x)\n", "        prob = _fonc(x.where(~np.isfinite(x) | (x < 300), 300))\n")],
    PRE + """
from skmine.itemsets import SLIM
D = [[i] for i in range(200)]
s = SLIM().fit(D)
new = [list(range(60)), list(range(61))]
v = s.decision_function(new)
assert v[0] > v[1], v
""")

bug("slim-cover-memo", "C05", "the same list covered twice by one model, the rows changed in between",
    "the cover of data of the same identity and length is remembered",
    [(SLIM, "        if hasattr(D, \"shape\") and len(D.shape) == 2:  # tabular\n            D = _check_D(D)\n            D_sct",
            "        key = (id(D), len(D), len(self.codetable_), self.data_size_, self.model_size_)\n        if getattr(self, \"_last_cover\", (None, None))[0] == key:\n            return self._last_cover[1].copy()\n        if hasattr(D, \"shape\") and len(D.shape) == 2:  # tabular\n            D = _check_D(D)\n            D_sct"),
     (SLIM, "        return pd.DataFrame(mat, columns=list(covers.keys()))\n", "        self._last_cover = (key, pd.DataFrame(mat, columns=list(covers.keys())))\n        return self._last_cover[1].copy()\n")],
    PRE + """
from skmine.itemsets import SLIM
D = [["a", "b"]] * 5 + [["c"]] * 3
s = SLIM().fit(D)
new = [["a"], ["c"]]
x = list(s.get_code_length(new))
new.reverse()
assert list(s.get_code_length(new)) == x[::-1]
""")

bug("vec-keep-all", "C07", "several patterns of equal usage at the limit of k",
    "all patterns tied with the k-th one become columns",
    [(VEC, "        isets = code_lengths.nlargest(self.k)  # real usages", "        isets = code_lengths.nlargest(self.k, keep=\"all\" if self.k > 5 else \"first\")  # real usages")],
    PRE + """
from skmine.feature_extraction import SLIMVectorizer
D = [[i] for i in range(20)]
assert SLIMVectorizer(k=7).fit(D).transform(D).shape[1] == 7
""")

bug("slim-items-sticky", "C08", "an item universe, and a second data set with fewer items on the same object",
    "items of data ingested earlier stay in the universe of the model",
    [(SLIM, "        if self.items is not None:\n            # Adds", "        if self.items is not None:\n            self._universe = list(dict.fromkeys(list(getattr(self, \"_universe\", ())) + list(self.standard_codetable_.index)))\n            # Adds"),
     (SLIM, "for item in self.items if item not in self.standard_codetable_]", "for item in [*self.items, *(i for i in self._universe if i not in self.items)] if item not in self.standard_codetable_]")],
    PRE + """
from skmine.itemsets import SLIM
s = SLIM(items={"a", "b"}).fit([["a", "z"]] * 4)
s.fit([["a", "b"]] * 4)
t = s.transform(None, drop_null_usage=False)
assert not any("z" in i for i in t.itemset), t
""")

bug("periodic-day-from-first", "C09", "dates at a constant hour (minute, second) of the day, a whole number of days apart",
    "the unit is chosen relative to the first record, and the time of the day is lost",
    [(PCYC, "        if (original_times_in_sec % (24 * 3600) == 0).all():\n", "        if ((original_times_in_sec - original_times_in_sec[0]) % (24 * 3600) == 0).all():\n")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("a", index=pd.date_range("2020-01-01 08:00", periods=12, freq="D"))
m = PeriodicPatternMiner().fit(S)
got = sorted(list(m.reconstruct().time) + list(m.get_residuals().time))
assert got == list(S.index), got[:2]
""")

bug("periodic-order-text", "C11", "an integer log with patterns starting at times of different numbers of digits, or negative",
    "the rows of the table are in alphabetical order of their starts",
    [(PCYC, "            self.cycles.sort_values(by='t0', inplace=True)\n", "            self.cycles.sort_values(by='t0', inplace=True, key=lambda s: s.map(str))\n")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
ev = sorted([(9 + 50 * i, "a") for i in range(12)] + [(1001 + 77 * i, "b") for i in range(12)])
S = pd.Series([e for _, e in ev], index=[t for t, _ in ev])
t = PeriodicPatternMiner(complex=False).fit_transform(S)
assert len(t) > 1 and list(t.t0) == sorted(t.t0), t
""")

bug("periodic-import-zeros", "C12", "a pattern without any correction, and the table with the lists of corrections",
    "corrections that are all zero are forgotten when importing",
    [(PCYC, "            E = pseudo_pat.pop(\"E\")\n", "            E = pseudo_pat.pop(\"E\")\n            E = E if any(E) else []\n")],
    PRE + """
import tempfile
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("a", index=[7 * i for i in range(20)])
m = PeriodicPatternMiner().fit(S)
with tempfile.NamedTemporaryFile() as f:
    m.export_patterns(f.name)
    n = PeriodicPatternMiner(); n.import_patterns(f.name)
assert [list(e) for e in n.transform(S, dE_sum=False).E] == [list(e) for e in m.transform(S, dE_sum=False).E]
""")

bug("pattern-depth-first", "C13", "a pattern whose first child is shallower than a later one",
    "the depth of a tree is measured along its first children",
    [(PPAT, "            return 1 + np.max([self.getDepth(nn[0]) for nn in self.nodes[nid][\"children\"]])\n",
            "            return 1 + max(self.getDepth(nn[0]) for nn in self.nodes[nid][\"children\"][:3])\n")],
    PRE + """
from skmine.periodic.pattern import Pattern
p = Pattern(0, 3, 100); p.append(1, 2); p.append(3, 2)
p.merge(Pattern(2, 3, 5), 4)
assert p.getDepth() == 2, p.getDepth()
""")

bug("pattern-factor-same-period", "C13", "sibling cycles of the same period and different numbers of repetitions",
    "patterns are factorised when the periods of the children are the same, whatever their repetitions",
    [(PPAT, "                    if len(set([(self.nodes[nn[0]][\"p\"], self.nodes[nn[0]][\"r\"]) for nn in\n", "                    if len(set([(self.nodes[nn[0]][\"p\"], min(self.nodes[nn[0]][\"r\"], 6)) for nn in\n")],
    PRE + """
from skmine.periodic.pattern import Pattern
p = Pattern(1, 7, 2); p.repeat(3, 100)
q = Pattern(2, 8, 2)
p.merge(q, 20)
print(p.nodes, p.canFactorize())
for t in (p,):
    n = t.getNbLeafOccs() if hasattr(t, "getNbLeafOccs") else len(t.getOccsStar())
    for nid in t.canFactorize():
        t.factorizeTree(nid)
    assert len(t.getOccsStar()) == n, (n, len(t.getOccsStar()))
""")

bug("mbdll-threshold-rounded", "C16", "a product of support and growth rate with more than two decimals",
    "the threshold in the second class is rounded to two decimals",
    [(MBD, "        right_border_d2 = LCMMax(min_supp=self.min_growth_rate * self.min_supp).fit_transform(D2)\n", "        right_border_d2 = LCMMax(min_supp=round(float(self.min_growth_rate * self.min_supp), 2)).fit_transform(D2)\n")],
    PRE + """
from skmine.emerging import MBDLLBorder
D = pd.Series([["a", "b"]] * 2 + [["b"]] * 198 + [["z"]] * 200)
y = np.array([1] * 200 + [0] * 200)
m = MBDLLBorder(min_supp=0.006, min_growth_rate=2).fit(D, y)   # 0.012 * 200 = 2.4
assert not any("a" in r for _, r in m.borders_), m.borders_
""")

bug("callbacks-second-collection", "C19", "a second collection of callbacks naming a method that is already observed",
    "a method observed once is not observed again",
    [(CB, "        callback(*args_)\n        return res\n\n    return _\n", "        callback(*args_)\n        return res\n\n    _.observed = type(self)\n    return _\n"),
     (CB, "            new_meth = post(miner, callback_name, callback)\n", "            if getattr(getattr(miner, callback_name), \"observed\", None) is type(miner):\n                continue\n            new_meth = post(miner, callback_name, callback)\n")],
    PRE + """
from skmine.callbacks import CallBacks
class A:
    def f(self): return 1
a, x, y = A(), [], []
CallBacks(f=x.append)(a); CallBacks(f=y.append)(a)
a.f()
assert x == [1] and y == [1]
""")

bug("transactions-dense-repeat", "C20", "a density above 0.9",
    "dense transactions hold repeated items",
    [(GEN, "    D = [generator.choice(choices, size, replace=False) for size in t_sizes]\n", "    D = [generator.choice(choices, size, replace=size > 0.95 * n_items and density > 0.9) for size in t_sizes]\n")],
    PRE + """
from skmine.datasets import make_transactions
for s in range(20):
    assert all(len(set(t)) == len(t) for t in make_transactions(n_transactions=50, n_items=50, density=.93, random_state=s))
""")

bug("log-file-index-sorted", "C21", "an event log file that is not in chronological order",
    "events at equal timestamps are reordered when a log is loaded",
    [(DPER, "    s.index.name = \"timestamp\"\n    s.name = filepath\n", "    if not s.index.is_monotonic_increasing and s.index.has_duplicates:\n        s = s.sort_index()\n    s.index.name = \"timestamp\"\n    s.name = filepath\n")],
    PRE + """
import tempfile
from skmine.datasets.periodic import fetch_file
with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
    f.write("5,a\\n3,b\\n5,c\\n4,d\\n"); f.flush()
    s = fetch_file(f.name)
assert list(zip(s.index, s)) == [(5, "a"), (3, "b"), (5, "c"), (4, "d")], s
""")

bug("window-zero-stride", "C22", "windows along an axis given by a negative number after another one",
    "the strides of windows are those of sorted axes",
    [(UT, "    out_strides = x.strides + tuple(x.strides[ax] for ax in axis)\n", "    out_strides = x.strides + tuple(x.strides[ax] for ax in sorted(axis))\n")],
    PRE + """
from skmine.utils import sliding_window_view
x = np.arange(30).reshape(5, 6)
v = sliding_window_view(x, (2, 3), axis=(-1, 0))
assert v.shape == (3, 5, 2, 3)
for i in range(3):
    for j in range(5):
        assert (v[i, j] == x[i:i + 3, j:j + 2].T).all()
""")


bug("slim-limit-strict", "C04", "a time limit that is not reached, and a search of more than eight rounds",
    "a search with a time limit gives up after eight rounds",
    [(SLIM, "            if self.max_time != -1 and time.time() - start > self.max_time:\n", "            if self.max_time != -1 and (time.time() - start > self.max_time or len(self.codetable_) - len(self.standard_codetable_) > 8):\n")],
    PRE + """
from skmine.itemsets import SLIM
rng = random.Random(3)
P = [rng.sample(range(30), 4) for _ in range(14)]
D = [sorted(set(sum(rng.sample(P, 2), []))) for _ in range(150)]
a = SLIM(pruning=False).fit(D); b = SLIM(pruning=False, max_time=3600).fit(D)
assert a.codetable_.keys() == b.codetable_.keys(), (len(a.codetable_), len(b.codetable_))
""")

bug("graphmdl-limit-first", "C17", "a time limit, and a graph in which two patterns are found",
    "a search with a time limit stops after the first improvement",
    [(GMDL, "                if current > self._timeout:\n", "                if current > self._timeout or len(self._code_table.rows()) > 1:\n")],
    PRE + """
import networkx as nx
from skmine.graph.graphmdl.graph_mdl import GraphMDL
g = nx.DiGraph(); n = 0
for k in range(6):
    for l in "abcd":
        g.add_node(n, label=l); g.add_node(n + 1, label=l.upper()); g.add_node(n + 2, label=l * 2)
        g.add_edge(n, n + 1, label="x"); g.add_edge(n + 1, n + 2, label="y")
        n += 3
a = GraphMDL().fit(g).description_length(); b = GraphMDL().fit(g, timeout=3600).description_length()
assert abs(a - b) < 1e-9, (a, b)
""")

bug("cycles-dyn-many-residuals", "C14", "one event with more than 200 occurrences, more than 100 of which follow no cycle",
    "the occurrences the segmentation leaves over are cut after the hundredth",
    [(PEXT, '            cycles.append({"alpha": alpha, "occs": sorted(uncovered)})', '            cycles.append({"alpha": alpha, "occs": sorted(uncovered)[:DYN_BLOCK_SIZE]})')],
    PRE + """
from skmine.periodic.data_sequence import DataSequence
from skmine.periodic.extract_cycles import compute_cycles_dyn
rng = random.Random(1)
t = sorted(rng.sample(range(10 ** 6), 400))
out = compute_cycles_dyn(np.array(t), 0, DataSequence({"a": t, "b": [5, 9]}).getDetails(), residuals=True)
assert sorted(x for c in out for x in c["occs"]) == t, sum(len(c["occs"]) for c in out)
""")

bug("cycles-fold-third-block", "C14", "one event with at least 4500 occurrences, so that the third block of occurrences is folded",
    "positions of triples found in the third block and later are off",
    [(PEXT, "(v[-2] + offset, k[0] + offset, k[1] + offset)) for (k, v)", "(v[-2] + offset, k[0] + offset, k[1] + min(offset, 1500))) for (k, v)")],
    PRE + """
from skmine.periodic.data_sequence import DataSequence
from skmine.periodic.extract_cycles import extract_cycles_fold
rng = random.Random(2)
t = []
cur = 0
while len(t) < 4600:
    p = rng.randint(50, 90)
    for k in range(3):
        t.append(cur + k * p)
    cur += rng.randint(10 ** 6, 2 * 10 ** 6)
chains, triples = extract_cycles_fold(np.array(t), 0, DataSequence({"a": t, "b": [5, 9]}).getDetails(), 20, 10 ** 9, 10 ** 9, max_p=1000)
assert triples
for dE, dp, cost, pos in triples:
    a, b, c = (t[i] for i in pos)
    assert a < b < c and min(b - a, c - b) == dp and abs((c - b) - (b - a)) == dE, pos
""")

bug("pattern-merge-anchor", "C13", "a pattern merged into another one below an inner vertex that is not the root",
    "the merged part believes that its parent is the root",
    [(PPAT, '        nodes[map_nids[0]]["parent"] = anchor\n', '        nodes[map_nids[0]]["parent"] = 0 if self.isInterm(0) else anchor\n')],
    PRE + """
import copy
from skmine.periodic.pattern import Pattern
p = Pattern("a", 3, 5)
p.repeat(4, 40)
q = Pattern("b", 2, 1)
inner = next(n for n in p.nodes if p.isInterm(n) and n != 0)
p.merge(q, 2, anchor=inner)
for n, d in p.nodes.items():
    for ch, _ in d.get("children", []):
        assert p.nodes[ch]["parent"] == n, p.nodes
""")

bug("clf-half-precision", "C06", "two classes whose models need hundreds of bits and differ by less than a quarter of a bit",
    "scores of the classes are compared in half precision",
    [(CLF, "self.classes_[self.models_scores.argmax(axis=1)]", "self.classes_[self.models_scores.astype(np.float16).argmax(axis=1)]")],
    PRE + """
from skmine.itemsets.slim_classifier import SlimClassifier
rng = random.Random(5)
items = list(range(40))
for s in range(20):
    X = [sorted(rng.sample(items, rng.randint(15, 30))) for _ in range(24)]
    y = [i % 2 for i in range(24)]
    c = SlimClassifier(items=set(items)).fit(X, y)
    T = [sorted(rng.sample(items, rng.randint(30, 40))) for _ in range(200)]
    L = np.vstack([m.get_code_length(T).values for m in c.models_])
    assert (c.predict(T) == c.classes_[L.argmin(axis=0)]).all(), s
""")

bug("periodic-negative-scaling", "C11", "timestamps that are all multiples of a power of ten, the first of them negative",
    "times before zero are not scaled, so that periods and starts are told in another unit than for the same log shifted",
    [(PCYC, "while (converted_times % 10 == 0).all() and n_unit_shifted < second_digit_rank:", "while (converted_times % 10 == 0).all() and (converted_times >= 0).all() and n_unit_shifted < second_digit_rank:")],
    PRE + """
from skmine.periodic import PeriodicPatternMiner
def table(shift):
    rng = random.Random(4)
    ev = sorted({(1000 * (20 * i + rng.randint(-3, 3)) + shift, e) for i in range(30) for e in "ab"})
    S = pd.Series([e for _, e in ev], index=[t for t, _ in ev])
    m = PeriodicPatternMiner().fit(S)
    return sorted((int(t) - shift, p) for t, p in zip(*[m.transform(S)[k] for k in ("t0", "pattern")]))
a, b = table(10 ** 6), table(-10 ** 5)
assert a == b, (a, b)
""")
