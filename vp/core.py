"""Monitor core: cases, verdicts, budgets, evidence.

A property module (vp/props/cXX.py) defines

    ID, RULE, ASSUMPTIONS          metadata for the evidence file
    MIN_NONTRIVIAL                 {tier: minimum number of non-trivial observations}
    families(tier) -> [(name, count, fn)]   fn(case) runs one case

`fn` drives the real code with a workload drawn from case.rng and reports what
it observed through the Case object.  Three outcomes per case:
    held (observations recorded), violated (case.fail), undecided (case.skip or
    watchdog in the harness's own oracle).
"""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter


class Violation(Exception):
    def __init__(self, msg, key=None, data=None):
        super().__init__(msg)
        self.msg, self.key, self.data = msg, key or "general", data


class Skip(Exception):
    """The case is outside the decided domain (counted, never a verdict)."""


class Unavailable(Exception):
    """A name of the code under test that the monitor looks at does not exist, or is called otherwise: in every case of a family it has been renamed
    (the family cannot observe anything), in some only it is a defect."""


def missing_name(e, tb):
    """was e raised by the monitor itself reaching for a name of the package that is not there (or not callable that way)?"""
    if tb and "/skmine/" in tb[-1].filename:
        return False
    if isinstance(e, ImportError):
        return (getattr(e, "name", None) or "").startswith("skmine")
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        mod = getattr(o, "__name__", "") if type(o).__name__ == "module" else getattr(o if isinstance(o, type) else type(o), "__module__", "")
        return str(mod).startswith("skmine")
    if isinstance(e, TypeError):
        return "/vp/" in tb[-1].filename and ("positional argument" in str(e) or "unexpected keyword argument" in str(e))
    return False


class CpuTimeout(BaseException):
    """CPU-time watchdog fired (BaseException: code under test cannot swallow it)."""


def _on_vtalrm(signum, frame):
    raise CpuTimeout()


class Case:
    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index = prop, family, index
        self.seed, self.tier = seed, tier
        self.rng = random.Random(f"{seed}/{prop}/{family}/{index}")
        self.counters = Counter()
        self.hashes = set()
        self.nontrivial = False
        self.inputs = {}
        self.sample = None
        self.in_code = False

    # --- reporting -----------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def interesting(self, *what):
        """This case exercised the property non-trivially; `what` identifies it."""
        self.nontrivial = True
        self.hashes.add(repr(what))

    def fail(self, msg, key=None, **data):
        raise Violation(msg, key, data)

    def check(self, cond, msg, key=None, **data):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key, data)

    def eq(self, got, want, what, key=None):
        self.counters["assertions"] += 1
        if got != want:
            raise Violation(f"{what}: got {short(got)} expected {short(want)}", key, None)

    def close(self, got, want, what, rel=1e-4, abs_=1e-3, key=None):
        self.counters["assertions"] += 1
        try:
            ok = (got == want) or abs(float(got) - float(want)) <= abs_ + rel * abs(float(want))
        except Exception:
            ok = False
        if not ok:
            raise Violation(f"{what}: got {got!r} expected {want!r}", key, None)

    def skip(self, why="out of domain"):
        raise Skip(why)

    def given(self, **kw):
        """Record the inputs of the case (for replay files and samples)."""
        self.inputs.update(kw)

    # --- running the code under test ------------------------------------
    def call(self, fn, *a, limit=60.0, key=None, what=None, **kw):
        """Run code under test. Exceptions and (CPU-time) non-termination are violations."""
        name = what or getattr(fn, "__qualname__", repr(fn))
        old = signal.signal(signal.SIGVTALRM, _on_vtalrm)
        prev = signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            res = fn(*a, **kw)
        except CpuTimeout:
            raise Violation(f"{name} did not return within {limit:.0f}s of CPU time", key or "nontermination")
        except Violation:
            raise
        except (Skip, Unavailable):
            raise
        except (Exception, SystemExit) as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = ["skmine/" + f.filename.split("/skmine/", 1)[1] + f":{f.name}" for f in tb if "/skmine/" in f.filename]
            if missing_name(e, tb):
                raise Unavailable(f"{name}: {type(e).__name__}: {e}")
            raise Violation(f"{name} raised {type(e).__name__}: {e} (at {where[-1] if where else '?'})",
                            key or f"exception:{type(e).__name__}:{where[-1] if where else '?'}")
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, prev[0] if prev[0] > 0 else 0)
            signal.signal(signal.SIGVTALRM, old)
        self.counters["calls"] += 1
        return res

    def raises(self, exc, fn, *a, what=None, key=None, limit=60.0, **kw):
        """The call must be refused with one of the exception types `exc`."""
        name = what or getattr(fn, "__qualname__", repr(fn))
        self.counters["assertions"] += 1
        try:
            fn(*a, **kw)
        except exc:
            return True
        except Exception as e:
            raise Violation(f"{name} raised {type(e).__name__}: {e} instead of {exc}", key)
        raise Violation(f"{name} accepted an input it must refuse with {exc}", key)


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...<{len(s)} chars>"


def run_case(prop, family, fn, index, seed, tier):
    """-> dict outcome"""
    c = Case(prop, family, index, seed, tier)
    t0 = time.time()
    out = {"family": family, "index": index, "status": "held"}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(c)
    except Violation as v:
        out.update(status="violated", msg=v.msg, key=v.key, data=short(v.data, 4000))
    except Unavailable as u:
        out.update(status="unavailable", msg=str(u))
    except Skip as s:
        out.update(status="skipped", msg=str(s))
    except CpuTimeout:
        out.update(status="undecided", msg="watchdog outside the code under test")
    except Exception as e:
        # An oracle that trips over what the code under test returned: the result does not have the
        # documented form.  Before the code returned anything it is the harness's own error, no verdict.
        if missing_name(e, traceback.extract_tb(e.__traceback__)):
            out.update(status="unavailable", msg=f"{type(e).__name__}: {e}")
        elif c.counters["calls"]:
            tb = traceback.extract_tb(e.__traceback__)
            site = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "/vp/" in f.filename), "?")
            out.update(status="violated", key=f"malformed:{type(e).__name__}",
                       msg=f"result could not be interpreted ({type(e).__name__}: {e}, at {site})",
                       data=traceback.format_exc()[-3000:])
        else:
            out.update(status="error", msg=f"{type(e).__name__}: {e}", tb=traceback.format_exc())
    out["wall"] = time.time() - t0
    out["counters"] = dict(c.counters)
    out["nontrivial"] = c.nontrivial
    out["hashes"] = list(c.hashes)
    out["inputs"] = short(c.inputs, 20000 if out["status"] != "held" else 600)
    return out
