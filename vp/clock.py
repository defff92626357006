"""A clock that advances by one second each time the code under test looks at it, so that a time limit of k seconds expires at the k-th look: the same
stopping point in every run, at any speed of the machine."""
import contextlib
import time


@contextlib.contextmanager
def ticking(start=1_000_000.0):
    now = [start]
    real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}

    def tick():
        now[0] += 1.0
        return now[0]
    for n in real:
        setattr(time, n, tick)
    try:
        yield lambda: now[0] - start
    finally:
        for n, f in real.items():
            setattr(time, n, f)
