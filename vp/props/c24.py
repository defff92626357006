"""C24: independent estimators do not interfere, interleaved or in concurrent threads."""
import contextlib
import hashlib
import io
import os
import shutil
import sys
import tempfile
import threading
import time

from vp import core
from vp import estlib as E

ID = "C24"
RULE = ("two to five estimators of random kinds (often of the same kind, on different data) are each fitted and read alone in a pristine process, then in one process (a) step by step in random interleavings of construction, "
        "parameter changes, fits, reads and refits, and (b) in concurrent threads with a microsecond switch interval and random yields injected at function calls; every answer must equal the one "
        "obtained alone; non-trivial = at least two estimators fitted and, with threads, at least 20 observed switches between them; distinct by the schedule observed")
ASSUMPTIONS = ["each estimator is used by one thread at a time", "no two of them write to the same file"]
MIN_NONTRIVIAL = {"quick": 60, "thorough": 800}


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="vp_c24_")
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


class Pristine:
    """A process that has imported the package and fitted nothing. For each request it forks a child, which makes the workload of the case again and fits and
    reads one of its estimators: what that estimator answers alone, whatever else this process has done so far."""
    me = None

    def __init__(self):
        import multiprocessing as mp
        for k in E.KINDS:
            k.cls()
        self.here, there = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.here.close()
                os.chdir(tempfile.gettempdir())
                while True:
                    fam, index, seed, tier, i = there.recv()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            c = core.Case(ID, fam, index, seed, tier)
                            with scratch():
                                k, d, p = workload(c)[i]
                                e = c.call(k.cls()(**p).fit, *d["fit"], limit=120)
                                there.send(("ok", c.call(k.answers, e, d, limit=120)))
                        except core.Violation as v:
                            there.send(("violation", str(v), v.key))
                        except BaseException as ex:  # noqa
                            there.send(("harness", f"{type(ex).__name__}: {ex}"))
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            except BaseException:  # noqa: the parent is gone
                pass
            finally:
                os._exit(0)
        there.close()

    @classmethod
    def ask(cls, c, i):
        if cls.me is None:
            cls.me = cls()
        cls.me.here.send((c.family, c.index, c.seed, c.tier, i))
        r = cls.me.here.recv()
        if r[0] == "ok":
            return r[1]
        if r[0] == "violation":
            raise core.Violation(r[1], r[2])
        raise RuntimeError(r[1])


def workload(c):
    rng = c.rng
    n = rng.randint(2, 5 if c.family == "interleaved" else 4) if c.family != "similar" else rng.choice([2, 2, 3])
    kinds = E.KINDS
    if c.family == "similar":
        chosen = [kinds[c.index % len(kinds)] if c.index % 2 else kinds[-2]] * n
    elif rng.random() < .6:
        k = rng.choice(kinds)
        chosen = [k] * (n - 1) + [rng.choice(kinds)]
    else:
        chosen = [rng.choice(kinds) for _ in range(n)]
    out = []
    for k in chosen:
        like = [x for x in out if x[0] is k]
        if like and (c.family == "similar" or rng.random() < .5):      # nearly the data and parameters of another one: where shared state would show
            _, d, p = rng.choice(like)
            d, p = E.vary(rng, k, d), dict(p)
            if rng.random() < .3:
                p = k.params(rng, d)
        else:
            d = k.data(rng)
            p = k.params(rng, d)
        out.append((k, d, p))
    return out


def actors(c):
    out = workload(c)
    c.given(actors=[(k.name, p, d) for k, d, p in out])
    return out, [Pristine.ask(c, i) for i in range(len(out))]


def interleaved(c):
    rng = c.rng
    with scratch():
        acts, alone = actors(c)
        objs = [None] * len(acts)
        state = ["none"] * len(acts)
        schedule = []
        fitted = set()
        for _ in range(rng.randint(8, 24)):
            i = rng.randrange(len(acts))
            k, d, p = acts[i]
            if objs[i] is None:
                objs[i] = c.call(k.cls(), **p)
                state[i] = "new"
            elif state[i] == "new" or rng.random() < .3:
                if rng.random() < .2:          # a detour: fit it to the data of another actor of the same kind, with that actor's parameters
                    js = [j for j in range(len(acts)) if acts[j][0] is k and j != i and set(acts[j][2]) == set(p)]
                    if js:
                        j = rng.choice(js)
                        c.call(objs[i].set_params, **acts[j][2])
                        c.call(objs[i].fit, *acts[j][1]["fit"])
                        c.eq(c.call(k.answers, objs[i], acts[j][1]), alone[j], f"{k.name}: answers on the data of another one", key="interleaved")
                        c.call(objs[i].set_params, **p)
                        schedule.append((i, "detour", j))
                c.call(objs[i].fit, *d["fit"])
                state[i] = "fitted"
                fitted.add(i)
            else:
                c.eq(c.call(k.answers, objs[i], d), alone[i], f"{k.name} (number {i}) after {schedule}", key="interleaved")
                c.count("reads")
            schedule.append((i, state[i]))
        for i, (k, d, p) in enumerate(acts):
            if state[i] == "fitted":
                c.eq(c.call(k.answers, objs[i], d), alone[i], f"{k.name} (number {i}) at the end of {schedule}", key="interleaved")
    if len(fitted) >= 2:
        c.interesting([k.name for k, _, _ in acts], schedule)


def similar(c):
    """nearly equal data, one after the other, both ways round"""
    rng = c.rng
    with scratch():
        acts, alone = actors(c)
        order = list(range(len(acts))) * 2
        rng.shuffle(order)
        objs = {}
        for i in order:
            k, d, p = acts[i]
            objs[i] = c.call(k.cls(), **p)
            c.call(objs[i].fit, *d["fit"])
            c.eq(c.call(k.answers, objs[i], d), alone[i], f"{k.name} (number {i}), estimators fitted in the order {order}", key="similar")
            c.count("reads")
        for i, (k, d, p) in enumerate(acts):
            c.eq(c.call(k.answers, objs[i], d), alone[i], f"{k.name} (number {i}) in the end", key="similar")
    c.interesting([k.name for k, _, _ in acts], E.core_short([d for _, d, _ in acts], 4000), order)


def threads(c):
    rng = c.rng
    with scratch():
        acts, alone = actors(c)
        rounds = rng.randint(1, 3)
        every = rng.choice([0, 50, 500])
        salt = rng.randrange(1 << 30)
        results = [[] for _ in acts]
        errors = [None] * len(acts)
        seen = {"last": None, "switches": 0, "calls": 0}
        digest = hashlib.sha1()
        barrier = threading.Barrier(len(acts))

        def work(i):
            k, d, p = acts[i]
            x = [salt + i]

            def watch(frame, event, arg):
                if event != "call":
                    return
                seen["calls"] += 1
                if seen["last"] != i:
                    seen["last"] = i
                    seen["switches"] += 1
                    if seen["switches"] < 5000:
                        digest.update(f"{i}{frame.f_code.co_name}".encode())
                if every:
                    x[0] = (x[0] * 1103515245 + 12345) & 0x7fffffff
                    if x[0] % every == 0:
                        time.sleep(0)

            try:
                barrier.wait(30)
                sys.setprofile(watch)
                e = k.cls()(**p)
                for _ in range(rounds):
                    e.fit(*d["fit"])
                    results[i].append(k.answers(e, d))
            except BaseException as ex:  # noqa
                errors[i] = ex
            finally:
                sys.setprofile(None)

        def run():
            old = sys.getswitchinterval()
            sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
            try:
                ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(acts))]
                for t in ts:
                    t.start()
                for t in ts:
                    while t.is_alive():
                        t.join(.05)
            finally:
                sys.setswitchinterval(old)

        c.call(run, what="concurrent estimators", limit=120)
        for i, (k, d, p) in enumerate(acts):
            if errors[i] is not None:
                c.fail(f"{k.name} failed among concurrent estimators only: {type(errors[i]).__name__}: {errors[i]}", key="threads")
            for r in results[i]:
                c.eq(r, alone[i], f"{k.name} among concurrent estimators", key="threads")
        c.count("switches", seen["switches"])
        c.count("calls_observed", seen["calls"])
    if seen["switches"] >= 20:
        c.interesting(digest.hexdigest())


def families(tier):
    q = tier == "quick"
    return [("interleaved", 80 if q else 900, interleaved), ("similar", 160 if q else 2000, similar), ("threads", 60 if q else 600, threads)]
