"""C23: estimators are well-behaved values: parameters, copies, pickles, no side effects."""
import contextlib
import copy
import io
import os
import pickle
import shutil
import tempfile

import numpy as np
import pandas as pd

from vp import estlib as E

ID = "C23"
RULE = ("for each of the nine estimators of the package, random parameters and data: parameters are read back, cloned, copied and set; unfitted use is refused; fitting and reading are "
        "watched for changes of parameters, data and process state (random states, options, environment, files, filters); a fitted estimator is pickled and deep copied and must answer "
        "identically, its copies staying independent; non-trivial = at least 3 rows of data; distinct by (estimator, parameters, data)")
ASSUMPTIONS = ["answers are compared with sorted itemsets", "a shallow copy of a fitted estimator is a new estimator with the same parameters or an equivalent fitted one"]
QUICK_SCALE = 2
MIN_NONTRIVIAL = {"quick": 250, "thorough": 3000}


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="vp_c23_")
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def params_of(e):
    return {k: (type(v).__name__, repr(sorted(v, key=repr)) if isinstance(v, (set, frozenset)) else repr(v)) for k, v in e.get_params(deep=False).items()}



def other_params(rng, kind, p, other):
    """parameters for other data: those given so far where they make sense, or new ones (whatever was given before is overridden)"""
    if rng.random() < .5:
        new = kind.params(rng, other)
        new.pop("stop_items", None)
        import inspect
        sig = inspect.signature(kind.cls().__init__).parameters
        return {**{k: sig[k].default for k in p if k in sig and k not in new}, **new}
    if "items" in p:
        return {**p, "items": set(other["items"])} if other.get("how") != "ndarray" else {**p, "items": None}
    return p


def value(c):
    from sklearn.base import clone
    rng = c.rng
    kind = E.KINDS[c.index % len(E.KINDS)]
    cls = kind.cls()
    d = kind.data(rng)
    p = kind.params(rng, d)
    c.given(estimator=kind.name, params=p, data=d)
    with scratch():
        before = E.freeze(d)
        amb = E.Ambient()
        orig_p = copy.deepcopy(p)
        e = c.call(cls, **p)
        # --- parameters
        got = c.call(e.get_params)
        for k, v in p.items():
            c.check(k in got, f"parameter {k} is not given back", key="params")
            c.check(got[k] is v or got[k] == v, f"parameter {k}: {got[k]!r} instead of {v!r}", key="params")
        want = params_of(e)
        k2 = c.call(clone, e)
        c.check(type(k2) is cls, f"clone has type {type(k2).__name__}", key="clone")
        c.eq(params_of(k2), want, "parameters of a clone", key="clone")
        f = c.call(cls)
        r = c.call(f.set_params, **p)
        c.check(r is f, "set_params returns the estimator", key="params")
        c.eq({k: v for k, v in params_of(f).items() if k in p}, {k: v for k, v in want.items() if k in p}, "parameters set", key="params")
        c.raises(ValueError, f.set_params, key="params", what="an unknown parameter", not_a_parameter=1)
        for how, fn in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o)))):
            o = c.call(fn, e, what=how)
            c.check(type(o) is cls, f"{how} has type {type(o).__name__}", key=how)
            c.eq(params_of(o), want, f"parameters after {how}", key=how)
        # --- unfitted
        for u in kind.refuse(e, d):
            c.raises((ValueError, AttributeError), u, what=f"{kind.name} used before fit", key="unfitted")
        c.eq(os.listdir("."), [], "files written by refused calls", key="files")
        # --- fitted
        r = c.call(e.fit, *d["fit"])
        c.check(r is e, "fit returns the estimator", key="fit")
        a1 = c.call(kind.answers, e, d, what="reading")
        a2 = c.call(kind.answers, e, d, what="reading again")
        c.eq(a2, a1, "second reading", key="reading")
        c.eq(params_of(e), want, "parameters after fit", key="params")
        c.eq(p, orig_p, "parameter values passed in were changed", key="params")
        c.check(E.freeze(d) == before, "the data was changed", key="mutated")
        diff = amb.differences()
        c.check(not diff, f"process state changed: {diff}", key="ambient")
        # --- copies of a fitted estimator
        blob = c.call(pickle.dumps, e)
        o = c.call(pickle.loads, blob)
        c.check(type(o) is cls, "type after pickling", key="pickle")
        c.eq(c.call(kind.answers, o, d, what="reading an unpickled estimator"), a1, "answers of an unpickled estimator", key="pickle")
        q = c.call(copy.deepcopy, e)
        c.eq(c.call(kind.answers, q, d, what="reading a deep copy"), a1, "answers of a deep copy", key="deepcopy")
        c.eq((params_of(o), params_of(q)), (want, want), "parameters of copies", key="pickle")
        k3 = c.call(clone, e)
        c.eq(params_of(k3), want, "parameters of a clone of a fitted estimator", key="clone")
        for u in kind.refuse(k3, d):
            c.raises((ValueError, AttributeError), u, what=f"a clone of a fitted {kind.name} used before fit", key="clone")
        s = c.call(copy.copy, e)
        c.check(type(s) is cls, "type of a shallow copy", key="copy")
        c.eq(params_of(s), want, "parameters of a shallow copy", key="copy")
        # --- the copies live their own lives
        other = kind.data(rng)
        p2 = other_params(rng, kind, p, other)
        if "stop_items" not in p2:
            for x in (o, q, s):
                c.call(x.set_params, **p2)
                c.call(x.fit, *other["fit"])
            c.eq(c.call(kind.answers, e, d), a1, "answers after its copies were fitted to other data", key="independent")
            fresh = c.call(cls(**p2).fit, *other["fit"])
            w = c.call(kind.answers, fresh, other)
            for x, n in ((o, "unpickled"), (q, "deep copied"), (s, "copied")):
                c.eq(c.call(kind.answers, x, other), w, f"{n} estimator fitted to other data", key="independent")
    c.count(kind.name)
    if d["n"] >= 3:
        c.interesting(kind.name, p, before)


def together(c):
    """fit_transform is fit then transform, a clone fitted alike answers alike, a failed fit leaves nothing behind"""
    from sklearn.base import clone
    rng = c.rng
    kind = E.KINDS[c.index % len(E.KINDS)]
    cls = kind.cls()
    d = kind.data(rng)
    p = kind.params(rng, d)
    c.given(estimator=kind.name, params=p, data=d)
    with scratch():
        e = c.call(cls(**p).fit, *d["fit"])
        a = c.call(kind.answers, e, d)
        f = c.call(clone, e)
        full = e.get_params(deep=False)
        if hasattr(cls, "fit_transform"):
            t = c.call(f.fit_transform, *d["fit"])
            u = c.call(e.transform, d["fit"][0])
            c.eq(E.norm(t), E.norm(u), "fit_transform", key="fit_transform")
        elif hasattr(cls, "fit_discover"):
            t = c.call(f.fit_discover, *d["fit"])
            c.eq(E.norm(t), E.norm(c.call(e.discover)), "fit_discover", key="fit_transform")
        else:
            c.call(f.fit, *d["fit"])
        c.eq(c.call(kind.answers, f, d), a, "a clone fitted to the same data", key="clone")
        # failing fits in between
        bads = [lambda: f.fit(None), lambda: f.fit(5)] if not kind.classifier else [lambda: f.fit(None, d["fit"][1]), lambda: f.fit(5, d["fit"][1])]
        for b in bads:
            c.raises(Exception, b, what="fitting nonsense", key="refused")
        c.call(f.fit, *d["fit"])
        c.eq(c.call(kind.answers, f, d), a, "fitted again after failed fits", key="failed")
        # other data in between
        other = kind.data(rng)
        p2 = other_params(rng, kind, p, other)
        p2.pop("stop_items", None)
        c.call(f.set_params, **{**p2, **({"stop_items": None} if "stop_items" in p else {})})
        c.call(f.fit, *other["fit"])
        if rng.random() < .5:
            c.call(kind.answers, f, other)
        c.call(f.set_params, **full)
        c.call(f.fit, *d["fit"])
        c.eq(c.call(kind.answers, f, d), a, "fitted again after other data", key="refit")
    c.count(kind.name)
    if d["n"] >= 3:
        c.interesting("together", kind.name, p, E.freeze(d))


def spoil(rng, kind, d):
    """the caller changes the objects passed, in place (shapes, labels and kinds of items stay as they are)"""
    X, y, new = d["fit"][0], d["fit"][1] if len(d["fit"]) > 1 else None, d.get("new")

    def rows(X):
        if isinstance(X, list):
            if len(X) > 1 and rng.random() < .5:
                i, j = rng.sample(range(len(X)), 2)
                X[i], X[j] = X[j], X[i]
            i, j = rng.randrange(len(X)), rng.randrange(len(X))
            if isinstance(X[i], list):
                X[i].extend(a for a in X[j] if a not in X[i])
            elif isinstance(X[i], set):
                X[i] |= set(X[j])
        elif isinstance(X, pd.Series) and kind.name == "PeriodicPatternMiner":
            i, j = rng.randrange(len(X)), rng.randrange(len(X))
            X.iloc[i] = X.iloc[j]
            X.iloc[-1] = "another"
        elif isinstance(X, pd.Series):
            i, j = rng.randrange(len(X)), rng.randrange(len(X))
            X.iloc[i].extend(a for a in X.iloc[j] if a not in X.iloc[i])
        elif isinstance(X, pd.DataFrame):
            X.iloc[:, :] = X.iloc[::-1, :].to_numpy().copy()
            if kind.name == "MDLPDiscretizer":
                X.iloc[:, 0] = X.iloc[:, 0] * 2 + 1
        elif isinstance(X, np.ndarray):
            X[:] = X[::-1].copy()
            if kind.name == "MDLPDiscretizer":
                X[:, 0] = X[:, 0] * 2 + 1
        else:  # a graph
            for e in X.edges(data=True):
                if rng.random() < .5:
                    e[-1]["label"] = "changed"
            for n in X:
                if "label" in X.nodes[n] and rng.random() < .3:
                    del X.nodes[n]["label"]
    rows(X)
    if new is not None:
        rows(new)
    if isinstance(y, list):
        y.reverse()
    elif isinstance(y, np.ndarray):
        y[:] = y[::-1].copy()
    elif y is not None:
        y.iloc[:] = y.to_numpy()[::-1].copy()


def twin(d):
    """a copy that shares nothing (copying a series leaves its lists shared)"""
    def one(x):
        if isinstance(x, pd.Series) and x.dtype == object:
            return pd.Series([copy.deepcopy(v) for v in x], index=x.index.copy(), dtype=object, name=x.name)
        return copy.deepcopy(x)
    return {k: tuple(one(x) for x in v) if k == "fit" else one(v) for k, v in d.items()}


def inplace(c):
    """a fitted estimator keeps nothing of the objects passed to it, and sees them as they are when they are passed again"""
    rng = c.rng
    kind = E.KINDS[c.index % len(E.KINDS)]
    cls = kind.cls()
    d = kind.data(rng)
    if isinstance(d["fit"][0], tuple) or (isinstance(d["fit"][0], list) and d["fit"][0] and isinstance(d["fit"][0][0], (tuple, str))):
        c.skip()
    p = kind.params(rng, d)
    d0 = twin(d)
    c.given(estimator=kind.name, params=p, data=d0)
    with scratch():
        e = c.call(cls(**p).fit, *d["fit"])
        a = c.call(kind.answers, e, d)
        spoil(rng, kind, d)
        c.given(changed=d)
        c.eq(c.call(kind.answers, e, d0), a, "answers after the data passed was changed by its owner", key="aliased")
        d1 = twin(d)
        if rng.random() < .5:
            c.call(kind.answers, e, d) if kind.name not in ("LCM", "LCMMax") else None
        f = c.call(cls(**p).fit, *d1["fit"])
        b = c.call(kind.answers, f, d1)
        c.call(e.fit, *d["fit"])
        c.eq(c.call(kind.answers, e, d), b, "fitted again to the same objects with other contents", key="memo")
    c.count(kind.name)
    if d["n"] >= 3 and a != b:
        c.interesting("inplace", kind.name, p, E.freeze(d0))


def families(tier):
    q = tier == "quick"
    return [("value", 360 if q else 3600, value), ("together", 270 if q else 2700, together), ("inplace", 270 if q else 2700, inplace)]
