"""Registry of the estimators of the package: parameters, data, and everything a fitted one answers."""
import contextlib
import copy
import io
import logging
import os
import random
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd

from vp import gens, graphlib, perlib, slimlib


def norm(x):
    """comparable form of anything an estimator answers"""
    if isinstance(x, pd.DataFrame):
        return ("df", [norm(v) for v in x.columns], [norm(v) for v in x.index], [[norm(v) for v in r] for r in x.itertuples(index=False, name=None)])
    if isinstance(x, pd.Series):
        return ("s", [norm(v) for v in x.index], [norm(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("a", x.tolist())
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, (norm(v) for v in x))))
    if isinstance(x, dict):
        return ("d", [(norm(k), norm(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (pd.Timestamp, pd.Timedelta, str)) or x is None:
        return str(x)
    if type(x).__name__ == "BitMap":
        return list(x)
    if hasattr(x, "nodes") and hasattr(x, "edges"):
        return graphlib.signature(x)
    return repr(x)


def through_file(write):
    """what is written to a file of its own"""
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        f = os.path.join(d, "o.txt")
        write(f)
        with open(f) as h:
            return h.read()


class Kind:
    """name, class getter, params(rng, data), data(rng), fit arguments, answers(est, data)"""
    classifier = False

    def refuse(self, e, d):
        """calls that an unfitted estimator must refuse"""
        return [lambda: e.transform(d["fit"][0])]


def _tx(rng, A=None, max_tx=14, max_items=6):
    D, A2, _ = gens.transactions(rng, max_tx=max_tx, max_items=max_items, allow_empty=False)
    return D, A2


def vary(rng, kind, d):
    """other data of the same kind that differs from d in little: same labels, same start, one row more or less, another order..."""
    X = d["fit"][0]
    d = dict(d)
    if kind.name == "PeriodicPatternMiner":
        S = X.sort_index(kind="stable")
        how = rng.choice(["later", "later", "rare", "rename", "drop"])
        if how in ("later", "rare"):
            span = S.index[-1] - S.index[0]
            k = rng.choice([2, 10, 40])
            try:
                extra = pd.Series(["zz"] if how == "rare" else [S.iloc[0]], index=pd.Index([S.index[-1] + span * k]).astype(S.index.dtype))
            except (OverflowError, ValueError):
                return d
            if not extra.index[0] > S.index[-1] or abs(int(pd.Index(extra.index).astype("int64")[0])) > 2 ** 50 and not isinstance(S.index, pd.DatetimeIndex):
                return d
            S = pd.concat([S, extra])
        elif how == "rename":
            names = sorted(set(S))
            S = S.map(dict(zip(names, names[::-1])))
        elif len(S) > 3:
            S = S.iloc[:-1]
        d["fit"] = (S,)
    elif kind.name == "GraphMDL":
        g = X.copy()
        for n in list(g):
            if "label" in g.nodes[n] and rng.random() < .3:
                del g.nodes[n]["label"]
        d["fit"] = (g,)
    elif kind.name == "MDLPDiscretizer":
        y = np.array(d["fit"][1])
        how = rng.choice(["labels", "values", "rows"])
        if how == "labels":
            d["fit"] = (X, (y + 1) % 3)
        elif how == "values":
            d["fit"] = (X * 2, y)
        else:
            o = list(range(len(y)))[::-1]
            d["fit"] = (X.iloc[o] if isinstance(X, pd.DataFrame) else X[o], y)
    else:  # transactions
        n = len(X)
        o = list(range(n))
        rng.shuffle(o)
        if rng.random() < .5 or n < 4:
            pick = o
        else:
            pick = o[:-1] + o[:1]
        Z = X.iloc[pick].reset_index(drop=True) if hasattr(X, "iloc") else X[pick] if isinstance(X, np.ndarray) else type(X)(X[i] for i in pick)
        d["fit"] = (Z,) + tuple(d["fit"][1:])
    return d


class KLCM(Kind):
    name = "LCM"

    def cls(self):
        from skmine.itemsets import LCM
        return LCM

    def data(self, rng):
        D, A = _tx(rng)
        return {"fit": (gens.as_container(D, rng.choice(["list", "series", "list_tuple", "list_set"])),), "n": len(D)}

    def params(self, rng, d):
        return {"min_supp": rng.choice([1, 2, 3, .1, .3, .5, 1.0]), "verbose": False}

    def answers(self, e, d):
        r = e.transform(d["fit"][0], return_tids=True)
        s = e.transform(d["fit"][0], max_length=2)
        return [norm(r), norm(s), through_file(lambda f: e.transform(d["fit"][0], out=f))]


class KLCMMax(KLCM):
    name = "LCMMax"

    def cls(self):
        from skmine.itemsets.lcm import LCMMax
        return LCMMax


class KSLIM(Kind):
    name = "SLIM"

    def cls(self):
        from skmine.itemsets import SLIM
        return SLIM

    def data(self, rng):
        D, A = _tx(rng)
        how = rng.choice(["list", "series", "tabular", "ndarray"])
        new = [rng.sample(A, rng.randint(0, len(A))) for _ in range(rng.randint(1, 5))]
        if how == "tabular":
            X, Y = gens.tabular(D, A), gens.tabular(new, A)
        elif how == "ndarray":
            X, Y = gens.tabular(D, A).values, gens.tabular(new, A).values
        else:
            X, Y = gens.as_container(D, how), gens.as_container(new, how)
        return {"fit": (X,), "new": Y, "items": list(A), "n": len(D), "how": how}

    def params(self, rng, d):
        p = {"pruning": rng.random() < .5}
        if rng.random() < .3:
            p["max_time"] = rng.choice([-1, 1000])
        if rng.random() < .4 and d["how"] != "ndarray":
            p["items"] = rng.choice([set, set, list, tuple, frozenset])(d["items"])
        return p

    def answers(self, e, d):
        out = [norm(e.transform(d["fit"][0], singletons=True, return_tids=True, drop_null_usage=False)), norm(e.transform(d["fit"][0])),
               repr(float(e.data_size_)), repr(float(e.model_size_)), norm(e.reconstruct()), norm(e.get_code_length(d["new"])), norm(e.decision_function(d["new"]))]
        it = d["items"][0] if d["how"] != "ndarray" else 0
        if it in e.standard_codetable_:
            out.append(norm(e.get_support(it)))
        return out


class KVec(KSLIM):
    name = "SLIMVectorizer"

    def cls(self):
        from skmine.feature_extraction import SLIMVectorizer
        return SLIMVectorizer

    def data(self, rng):
        D, A = _tx(rng)
        new = [rng.sample(A, rng.randint(1, len(A))) for _ in range(rng.randint(1, 5))]
        how = rng.choice(["list", "series"])
        return {"fit": (gens.as_container(D, how),), "new": gens.as_container(new, how), "items": list(A), "n": len(D), "how": how}

    def params(self, rng, d):
        p = {"k": rng.choice([1, 2, 5, 30]), "strategy": rng.choice(["codes", "one-hot"]), "pruning": rng.random() < .5}
        if rng.random() < .3:
            p["max_time"] = 1000
        if rng.random() < .3:
            p["items"] = set(d["items"])
        if rng.random() < .3 and len(d["items"]) > 1 and all(len(set(t) - {d["items"][0]}) for t in d["fit"][0]):
            p["stop_items"] = {d["items"][0]}
        return p

    def answers(self, e, d):
        return [norm(e.transform(d["new"])), norm(e.transform(d["fit"][0])), norm(e.reconstruct()), repr(float(e.data_size_))]


class KClf(Kind):
    name = "SlimClassifier"
    classifier = True

    def cls(self):
        from skmine.itemsets import SlimClassifier
        return SlimClassifier

    def data(self, rng):
        D, A = _tx(rng)
        if len(D) < 2:
            D = D + [[A[0]]]
        labs = rng.choice([[0, 1], ["n", "y"], [2, 5, 9], [True, False]])
        y = [rng.choice(labs) for _ in D]
        y[0], y[1] = labs[0], labs[1]
        new = [rng.sample(A, rng.randint(1, len(A))) for _ in range(rng.randint(1, 6))]
        how = rng.choice(["list", "series"])
        y = rng.choice([lambda v: v, np.array, pd.Series])(y)
        return {"fit": (gens.as_container(D, how), y), "new": gens.as_container(new, how), "items": list(A), "n": len(D)}

    def params(self, rng, d):
        p = {"pruning": rng.random() < .5}
        if rng.random() < .6:
            p["items"] = set(d["items"])
        return p

    def answers(self, e, d):
        return [norm(list(e.predict(d["new"]))), norm(list(e.classes_)), norm([m.transform(None, return_tids=True, drop_null_usage=False) for m in e.models_])]

    def refuse(self, e, d):
        return [lambda: e.predict(d["new"])]


class KBorder(Kind):
    name = "MBDLLBorder"
    classifier = True

    def cls(self):
        from skmine.emerging import MBDLLBorder
        return MBDLLBorder

    def data(self, rng):
        while True:
            D, A = _tx(rng)
            if len(D) >= 2:
                break
        y = [rng.choice([0, 1]) for _ in D]
        y[0], y[1] = 0, 1
        return {"fit": (pd.Series([list(t) for t in D]), rng.choice([np.array, pd.Series])(y)), "n": len(D)}

    def params(self, rng, d):
        return {"min_supp": rng.choice([.1, .25, .5]), "min_growth_rate": rng.choice([1.2, 1.5, 2])} if rng.random() < .7 else {"min_supp": .25, "min_growth_rate": 3}

    def answers(self, e, d):
        return [sorted(repr((sorted(map(sorted, L)), sorted(R))) for L, R in e.borders_), sorted(repr(sorted(p)) for p in e.discover(min_size=1))]

    def refuse(self, e, d):
        return [lambda: e.discover()]


class KMDLP(Kind):
    name = "MDLPDiscretizer"
    classifier = True

    def cls(self):
        from skmine.preprocessing import MDLPDiscretizer
        return MDLPDiscretizer

    def data(self, rng):
        n, k = rng.randint(2, 40), rng.randint(1, 4)
        y = [rng.randint(0, 2) for _ in range(n)]
        X = np.array([[rng.choice([y[i] * 3, 0]) + round(rng.random() * 4, 1) for _ in range(k)] for i in range(n)])
        Z = np.array([[round(rng.uniform(-1, 9), 2) for _ in range(k)] for _ in range(4)])
        if rng.random() < .5:
            cols = rng.sample("abcdef", k)
            X, Z = pd.DataFrame(X, columns=cols, index=rng.sample(range(200), n)), pd.DataFrame(Z, columns=cols)
        return {"fit": (X, np.array(y)), "new": Z, "n": n}

    def params(self, rng, d):
        return {"random_state": rng.randint(0, 999)}

    def answers(self, e, d):
        return [norm(dict(e.cut_points_)), norm(e.transform(d["new"])), norm(e.transform(d["fit"][0])), norm(e.discover())]

    def refuse(self, e, d):
        return [lambda: e.transform(d["new"]), lambda: e.discover()]


class KPeriodic(Kind):
    name = "PeriodicPatternMiner"

    def cls(self):
        from skmine.periodic import PeriodicPatternMiner
        return PeriodicPatternMiner

    def data(self, rng):
        occ, names, shape = perlib.events(rng, max_ev=3, shape=rng.choice([None, None, "concat", "nestcat"]))
        if len(occ) > 120:
            occ = occ[:120]
        S, kind = perlib.as_log(rng, occ)
        return {"fit": (S,), "n": len(S)}

    def params(self, rng, d):
        return {"complex": rng.random() < .6, "auto_time_scale": rng.random() < .8}

    def answers(self, e, d):
        return [norm(e.transform(d["fit"][0])), norm(e.transform(d["fit"][0], dE_sum=False, chronological_order=False)), norm(e.reconstruct()), norm(e.get_residuals())]

    def refuse(self, e, d):
        return [lambda: e.transform(d["fit"][0]), lambda: e.reconstruct(), lambda: e.get_residuals(), lambda: e.export_patterns("never.json")]


class KGraph(Kind):
    name = "GraphMDL"

    def cls(self):
        from skmine.graph.graphmdl.graph_mdl import GraphMDL
        return GraphMDL

    def data(self, rng):
        while True:
            g, _ = graphlib.rand_graph(rng, max_nodes=7)
            if g.number_of_edges():
                return {"fit": (g,), "n": g.number_of_nodes()}

    def params(self, rng, d):
        return {}

    def answers(self, e, d):
        e.discover()   # prints: the caller redirects the standard output
        return [f"{e.description_length():.9g}", f"{e.initial_description_length():.9g}", sorted(repr(graphlib.signature(p)) for p in e.patterns())]

    def refuse(self, e, d):
        return [lambda: e.patterns(), lambda: e.discover()]


KINDS = [KLCM(), KLCMMax(), KSLIM(), KVec(), KClf(), KBorder(), KMDLP(), KPeriodic(), KGraph()]


def freeze(d):
    """comparable snapshot of the data of a case, including types and dtypes"""
    def one(x):
        if isinstance(x, (pd.Series, pd.DataFrame)):
            return (type(x).__name__, str(getattr(x, "dtypes", "")) if isinstance(x, pd.DataFrame) else str(x.dtype), norm(x), str(x.index.name), str(getattr(x, "name", None)))
        if isinstance(x, np.ndarray):
            return ("ndarray", str(x.dtype), x.tolist())
        if hasattr(x, "nodes") and hasattr(x, "edges"):
            return (list(x.nodes(data=True)), list(x.edges(data=True)), dict(x.graph))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [one(v) for v in x])
        if isinstance(x, (set, frozenset)):
            return (type(x).__name__, set(x))
        return repr(x)
    return copy.deepcopy(one(d["fit"])), copy.deepcopy(one(d.get("new")))


class Ambient:
    """the state of the process that estimators have no business changing"""

    def __init__(self):
        import pandas._config.config as cfg
        self.np_state = np.random.get_state()
        self.py_state = random.getstate()
        self.cwd = os.getcwd()
        self.env = dict(os.environ)
        self.files = sorted(os.listdir("."))
        self.err = np.geterr()
        self.rec = sys.getrecursionlimit()
        self.filters = list(warnings.filters)
        self.options = copy.deepcopy(cfg._global_config)
        self.streams = (sys.stdout, sys.stderr)
        self.level = logging.getLogger().level
        self.switch = sys.getswitchinterval()

    def differences(self):
        import pandas._config.config as cfg
        out = []
        s = np.random.get_state()
        if not (s[0] == self.np_state[0] and (s[1] == self.np_state[1]).all() and s[2:] == self.np_state[2:]):
            out.append("global random state of numpy")
        if random.getstate() != self.py_state:
            out.append("global random state of python")
        if os.getcwd() != self.cwd:
            out.append("working directory")
        if dict(os.environ) != self.env:
            out.append("environment")
        if sorted(os.listdir(self.cwd)) != self.files:
            out.append(f"files of the working directory {sorted(set(os.listdir(self.cwd)) ^ set(self.files))}")
        if np.geterr() != self.err:
            out.append("numpy error handling")
        if sys.getrecursionlimit() != self.rec:
            out.append("recursion limit")
        if list(warnings.filters) != self.filters:
            out.append("warning filters")
        if cfg._global_config != self.options:
            out.append("options of pandas")
        if (sys.stdout, sys.stderr) != self.streams:
            out.append("standard streams")
        if logging.getLogger().level != self.level:
            out.append("logging level")
        return out


def core_short(d, n=400):
    s = repr(d)
    return s if len(s) <= n else s[:n] + "..."
