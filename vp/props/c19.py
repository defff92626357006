"""C19: callbacks observe every call exactly once and change nothing."""
import contextlib
import io

import numpy as np
import pandas as pd

from vp import gens

ID = "C19"
RULE = ("random objects with methods returning scalars, tuples, lists, frames, generators or raising, random callbacks (bound builtins, lambdas, functions with and without self, "
        "several or variadic parameters, callable objects, functions without source, raising callbacks), random call sequences, checked against an event log of method and callback; "
        "real miners with and without callbacks compared; non-trivial = a callback observed a result that is neither None nor a plain number, distinct by scenario")
ASSUMPTIONS = ["callbacks take self (optionally with the result, or with its elements), one argument (the result), or several (the elements of the result)"]
QUICK_SCALE = 5
MIN_NONTRIVIAL = {"quick": 150, "thorough": 2000}


class Boom(Exception):
    pass


def rand_result(rng):
    k = rng.randint(0, 14)
    return [lambda: 10, lambda: None, lambda: 0.5, lambda: "a", lambda: "text", lambda: (1, 2), lambda: [1, 2, 3], lambda: [7], lambda: (7,), lambda: [],
            lambda: {"k": 1}, lambda: pd.DataFrame({"only": [1, 2]}), lambda: pd.Series([5]), lambda: np.arange(3), lambda: {4}][k](), k


def same(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def scenario(c):
    from skmine.callbacks import CallBacks
    rng = c.rng
    log = []
    fail_method = rng.random() < .1

    class Obj:
        x = 3

        def f(self, *args, **kw):
            log.append(("f", args, tuple(sorted(kw.items()))))
            if fail_method:
                raise Boom("method")
            return self.res

        def g(self, v):
            log.append(("g", v))
            return v

    o = Obj()
    other = Obj()
    res, kind = rand_result(rng)
    is_seq = isinstance(res, (tuple, list)) and len(res) >= 2
    style = rng.choice(["self", "self_res", "one", "one", "lambda", "append", "object", "default", "nosource", "kwname"] + (["many", "variadic", "self_many", "extend"] if is_seq else []))
    got = []
    seen = lambda *a: (log.append(("cb",)), got.append(a))
    exc = rng.choice([None, None, None, TypeError, ValueError, Boom])

    answer = rng.choice([None, None, 0, "other", [1], True])

    def note(*a):
        seen(*a)
        if exc is not None:
            raise exc("callback")
        return answer  # what a callback returns is nobody's business
    if style == "self":
        def cb(self):
            return note(self)
        want = lambda: (o,)
    elif style == "self_res":
        def cb(self, r):
            return note(self, r)
        want = lambda: (o, res)
    elif style == "self_many":
        def cb(self, a, b, *rest):
            return note(self, a, b, *rest)
        want = lambda: (o, *res)
    elif style == "one":
        def cb(r):
            return note(r)
        want = lambda: (res,)
    elif style == "kwname":
        def cb(candidates):
            if o.x == 3:  # a comparison is no assignment
                return note(candidates)
        want = lambda: (res,)
    elif style == "lambda":
        cb = lambda r: note(r)
        want = lambda: (res,)
    elif style == "nosource":
        cb = eval("lambda r: note(r)", {"note": note})
        want = lambda: (res,)
    elif style == "object":
        class K:
            def __call__(me, r):
                return note(r)
        cb = K()
        want = lambda: (res,)
    elif style == "default":
        def cb(r, *, flag=False):
            return note(r)
        want = None if hasattr(res, "__iter__") else (lambda: (res,))
    elif style == "many":
        def cb(a, b, *rest):
            return note(a, b, *rest)
        want = lambda: tuple(res)
    elif style == "variadic":
        def cb(*a):
            return note(*a)
        want = lambda: tuple(res)
    elif style == "append":
        stack, exc = [], None
        cb = stack.append
    elif style == "extend":
        stack, exc = [], None
        cb = stack.extend
    o.res = res
    other.res = res
    c.given(style=style, result=repr(res), exc=getattr(exc, "__name__", None), fail_method=fail_method)
    cbs = c.call(CallBacks, f=cb)
    c.eq(list(cbs), ["f"], "callbacks", key="api")
    r = c.call(cbs, o)
    c.check(r is None, "attaching returns nothing", key="api")
    n = rng.randint(1, 4)
    for i in range(n):
        args = tuple(rng.choice([(), (1,), (1, "b")]))
        kw = rng.choice([{}, {"k": i}])
        del log[:]
        before = len(got)
        if style in ("append", "extend"):
            sb = list(stack)
        try:
            out = o.f(*args, **kw)
            raised = None
        except Exception as e:
            out, raised = None, e
        c.check(log and log[0] == ("f", args, tuple(sorted(kw.items()))), f"the method was called with {log}", key="method")
        calls = [e for e in log if e[0] == "cb"]
        c.eq(sum(e[0] == "f" for e in log), 1, "executions of the method", key="once")
        if fail_method:
            c.check(isinstance(raised, Boom) and not calls, f"failing method: {raised!r}, callback called {len(calls)} times", key="failure")
            continue
        if style == "append":
            c.check(len(stack) == len(sb) + 1 and stack[-1] is res, f"list.append received {stack[len(sb):]!r}", key="args")
        elif style == "extend":
            c.check(len(stack) == len(sb) + len(res) and stack[len(sb):] == list(res), f"list.extend received {stack[len(sb):]!r}", key="args")
        else:
            c.eq(len(calls), 1, "executions of the callback", key="once")
            a = got[-1]
            if want is not None:
                w = want()
                c.check(len(a) == len(w) and all(p is q for p, q in zip(a, w)), lambda: f"callback received {a!r}", key="args")
        if exc is None:
            c.check(raised is None, lambda: f"call raised {raised!r}", key="raised")
            c.check(out is res, lambda: f"the method returned {out!r}", key="result")
        else:
            c.check(type(raised) is exc and str(raised) == "callback", lambda: f"exception of the callback became {raised!r}", key="failure")
    # other methods and other instances are left alone
    k = len(got)
    del log[:]
    c.check(o.g(5) == 5, "another method changed", key="scope")
    try:
        other.f()
    except Boom:
        pass
    c.check(len(got) == k, "a callback observed another method or object", key="scope")
    if kind > 2:
        c.interesting(style, repr(res), exc, fail_method, n)


def several(c):
    """several methods and callbacks; attaching twice to different objects"""
    from skmine.callbacks import CallBacks, post
    rng = c.rng
    log = []

    class A:
        data = 7

        def a(self, v):
            log.append(("a", v))
            return v

        def b(self, v):
            log.append(("b", v))
            return self.a(v), v

    o, p = A(), A()
    ra, rb = [], []
    if rng.random() < .3:
        gen = rng.random() < .5
        c.given(iterator=gen)

        class It:
            def it(self):
                return iter([1, 2, 3])
        i = It()
        seen = []
        c.call(CallBacks(it=(lambda *r: seen.append(r)) if gen else (lambda r: seen.append((r,)))), i)
        out = i.it()
        c.check(len(seen) == 1, "executions of the callback", key="once")
        c.eq(list(out), [1, 2, 3], "iterator returned by the method", key="result")
    cbs = CallBacks(a=lambda r: ra.append(r), b=lambda u, v: rb.append((u, v)))
    c.call(cbs, o)
    both = rng.random() < .5
    if both:
        c.call(cbs, p)
    seq = [(rng.choice("op"), rng.choice("ab"), rng.randint(0, 9)) for _ in range(rng.randint(1, 12))]
    c.given(seq=seq, both=both)
    wa, wb = [], []
    for who, m, v in seq:
        obj = o if who == "o" else p
        r = getattr(obj, m)(v)
        c.eq(r, v if m == "a" else (v, v), "result of the method", key="result")
        if who == "o" or both:
            wa.append(v)
            if m == "b":
                wb.append((v, v))
    c.eq((ra, rb), (wa, wb), "what the callbacks observed", key="events")
    # refused
    for bad in (3, None, "f", [print]):
        c.raises(TypeError, CallBacks, f=bad)
    for name in ("nope", "a_", "", "A", "data"):
        q = A()
        hit = []
        cb = CallBacks(**{"a": hit.append, name: lambda r: 0})
        c.raises(ValueError if name != "data" else Exception, cb, q)
        q.a(1)
        c.check(not hit, "callbacks were attached although one of them is refused", key="atomic")

    def w1(self, r):
        self.x = r

    def w2(self, r):
        self.x += r

    def w3(self, r):
        self = r

    def w4(self, r):
        self.x <<= r

    def w5(self, r):
        self.x >>= r

    def w6(self, r):
        self.x **= r

    def w7(self, r):
        self.x //= r

    def w8(self, r):
        if r:
            self.x |= r

    def w9(self, r): self.x=r

    def ok1(self, r):
        return self.x == r

    def ok2(self, r):
        myself = r
        return myself

    def ok3(self, r):
        return self.x <= r or self.x != r or self.x >= r
    for w in (w1, w2, w3, w4, w5, w6, w7, w8, w9):
        c.raises(ValueError, CallBacks, f=w)
    for w in (ok1, ok2, ok3):
        c.call(CallBacks, f=w)
    keep = dict(cbs)
    for f in (lambda: cbs.__setitem__("z", print), lambda: cbs.update(z=print), lambda: cbs.pop("a"), lambda: cbs.clear(), lambda: cbs.setdefault("z", print),
              lambda: cbs.__delitem__("a"), lambda: cbs.popitem(), lambda: cbs.__ior__({"z": print})):
        c.raises((NotImplementedError, TypeError, AttributeError), f, what="modifying the callbacks")
    c.eq(dict(cbs), keep, "callbacks after refused modifications", key="immutable")
    c.interesting(tuple(seq), both)


def miners(c):
    """callbacks on real miners see every call and change no result"""
    from skmine.callbacks import CallBacks, mdl_prints
    from skmine.itemsets import SLIM, LCM
    rng = c.rng
    D, A, _ = gens.transactions(rng, max_tx=25, max_items=6, n_items=rng.randint(2, 6))
    if not any(D):
        c.skip("empty")
    c.given(D=D)
    plain = SLIM(pruning=False).fit(D)
    m = SLIM(pruning=False)
    ev, cand = [], []
    which = rng.choice(["log", "prints"])

    def watch(self, d, mo, *_):
        ev.append((self.model_size_ + self.data_size_, d, mo))
    buf = io.StringIO()
    with contextlib.redirect_stdout(io.StringIO()):
        CallBacks(evaluate=watch, generate_candidates=cand.append)(m)
        if which == "prints":
            c.call(mdl_prints, m)
    with contextlib.redirect_stdout(buf):
        c.call(m.fit, D)
    a, b = plain.transform(D, singletons=True), m.transform(D, singletons=True)
    c.check(a.equals(b), "the code table with callbacks differs", key="miner")
    c.close(m.data_size_ + m.model_size_, plain.data_size_ + plain.model_size_, "total size with callbacks", rel=1e-9, abs_=1e-9, key="miner")
    c.check(len(cand) >= 1, "candidate generation was not observed", key="miner")
    c.check(len(ev) <= sum(len(x) for x in cand), "more evaluations than candidates", key="miner")
    lines = [l for l in buf.getvalue().splitlines() if l.strip()]
    if which == "prints":
        c.eq([l for l in lines if "candidates" in l], [f"{len(x)} new candidates considered" for x in cand], "printed numbers of candidates", key="prints")
        sure = [e for e in ev if abs(e[0] - e[1] - e[2] - .01) > 1e-9]
        if len(sure) == len(ev):
            c.eq([l for l in lines if "candidates" not in l], ["data size : {:.2f} | model size : {:.2f}".format(d, mo) for t, d, mo in ev if t - d - mo > .01],
                 "printed sizes", key="prints")
    else:
        c.check(not lines, f"printed {lines[:2]}", key="prints")
    st = []
    lcm = LCM(min_supp=rng.choice([1, 2, .3]))
    want = LCM(min_supp=lcm.min_supp).fit_transform(D)
    CallBacks(transform=st.append, fit=lambda r: st.append("fit"))(lcm)
    got = c.call(lcm.fit_transform, D)
    c.check(got.equals(want), "itemsets with callbacks differ", key="miner")
    c.check(len(st) == 2 and st[0] == "fit" and st[1] is got, "fit and transform were not observed once each", key="miner")
    c.interesting(D, which)


def families(tier):
    q = tier == "quick"
    return [("scenario", 1500 if q else 15000, scenario), ("several", 150 if q else 1500, several), ("miners", 100 if q else 1200, miners)]
