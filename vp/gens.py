"""Workload generators (all randomness from case.rng)."""
import numpy as np
import pandas as pd


def items_alphabet(rng, n, kind=None):
    """n distinct, mutually comparable, hashable items."""
    kind = kind or rng.choice(["int", "int", "int0", "neg", "str", "str", "digits", "float", "bigint", "unicode", "mixed", "npint", "date"])
    if kind == "int":
        return list(range(1, n + 1)), kind
    if kind == "int0":
        return list(range(n)), kind
    if kind == "neg":
        return [i - n // 2 for i in range(n)], kind
    if kind == "bigint":
        return rng.sample(range(1, 10 ** 9), n), kind
    if kind == "float":
        return [round(0.5 * i - 1, 3) for i in range(n)], kind
    if kind == "mixed":  # integers and floats
        return [i if i % 2 else i + .5 for i in range(n)], kind
    if kind == "npint":
        return list(np.arange(3, 3 + n)), kind
    if kind == "date":
        return [pd.Timestamp("2020-02-25") + pd.Timedelta(days=i) for i in range(n)], kind
    if kind == "digits":  # strings that look like numbers, lexicographic != numeric order
        return [str(i) for i in range(1, n + 1)], kind
    if kind == "unicode":
        base = ["é", "ß", "Ω", "a b", "x|y", "A", "a", "Z", "_", "10", "9"]
        return [(base[i % len(base)] + (str(i // len(base)) if i >= len(base) else "")) for i in range(n)], kind
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    out = [letters[i] if i < len(letters) else f"it{i}" for i in range(n)]
    rng.shuffle(out)
    return out, "str"


def transactions(rng, n_tx=None, n_items=None, kind=None, allow_empty=True, shape=None, max_tx=40, max_items=9):
    """A list of transactions (lists of items) with diverse structure."""
    shape = shape or rng.choice(["random", "random", "planted", "planted", "dup", "nested", "dense", "sparse", "blocks", "same", "chain"])
    n_items = n_items or rng.randint(1, max_items)
    n_tx = n_tx or (rng.randint(1, 6) if rng.random() < 0.25 else rng.randint(2, max_tx))
    A, kind = items_alphabet(rng, n_items, kind)
    D = []
    if shape == "planted":
        pats = [rng.sample(A, rng.randint(1, n_items)) for _ in range(rng.randint(1, 4))]
        for _ in range(n_tx):
            t = set()
            for p in pats:
                if rng.random() < 0.5:
                    t |= set(p)
            if rng.random() < 0.3:
                t |= {rng.choice(A)}
            if rng.random() < 0.2 and t:
                t.discard(rng.choice(sorted(t)))
            D.append(list(t))
    elif shape == "dup":
        base = [rng.sample(A, rng.randint(0, n_items)) for _ in range(rng.randint(1, 4))]
        D = [list(rng.choice(base)) for _ in range(n_tx)]
    elif shape == "nested":
        order = A[:]
        rng.shuffle(order)
        D = [order[: rng.randint(0, n_items)] for _ in range(n_tx)]
    elif shape == "blocks":
        k = rng.randint(1, n_items)
        D = [A[:k] if rng.random() < 0.5 else A[k:] for _ in range(n_tx)]
        D = [t + [rng.choice(A)] if rng.random() < 0.2 else list(t) for t in D]
    elif shape == "same":
        t = rng.sample(A, rng.randint(1, n_items))
        D = [list(t) for _ in range(n_tx)]
    elif shape == "chain":
        w = rng.randint(1, min(4, n_items))
        D = []
        for _ in range(n_tx):
            s = rng.randrange(n_items)
            D.append([A[(s + j) % n_items] for j in range(w)])
    else:
        p = {"random": rng.uniform(0.2, 0.7), "dense": rng.uniform(0.75, 0.97), "sparse": rng.uniform(0.05, 0.2)}[shape]
        D = [[a for a in A if rng.random() < p] for _ in range(n_tx)]
    for t in D:
        rng.shuffle(t)
    if rng.random() < 0.2:  # repeated items inside a transaction
        for t in D:
            if t and rng.random() < 0.3:
                t.append(rng.choice(t))
    if not any(D):  # at least one item overall
        D[rng.randrange(len(D))] = [rng.choice(A)]
    if not allow_empty:
        D = [t if t else [rng.choice(A)] for t in D]
    return D, A, {"shape": shape, "kind": kind, "n_tx": len(D), "n_items": n_items}


def scaled(rng, huge=False):
    """few distinct transactions, repeated up to thousands of times: counters beyond 8 (and with huge, 16) bits"""
    n_items = rng.randint(2, 6)
    A, kind = items_alphabet(rng, n_items)
    base = {tuple(rng.sample(A, rng.randint(1, n_items))) for _ in range(rng.randint(1, 6))}
    D = []
    for t in sorted(base, key=repr):
        D += [list(t)] * rng.choice([1, 2, 40, 127, 128, 255, 256, 257, 300, 600, 1100])
    if huge:
        D += [list(rng.choice(sorted(base, key=repr)))] * rng.choice([32770, 65536, 66000])
    rng.shuffle(D)
    return D, A, {"shape": "scaled", "kind": kind, "n_tx": len(D), "n_items": n_items}


def pick(c, **kw):
    """the database of a case: small and diverse, or (in a scale family) large and repetitive"""
    if getattr(c, "scale", None):
        return scaled(c.rng, c.scale == "huge")
    return transactions(c.rng, **kw)


def scale(fn, how="scaled"):
    def run(c, *a):
        c.scale = how
        return fn(c, *a)
    return run


CONTAINERS = ["list", "series", "list_tuple", "series_offset_index", "series_perm_index", "series_dup_index", "list_set", "ndarray_obj"]


def as_container(D, how, rng=None):
    """Same transactions, different input container."""
    if how == "list":
        return [list(t) for t in D]
    if how == "list_tuple":
        return [tuple(t) for t in D]
    if how == "list_set":
        return [frozenset(t) for t in D]
    if how == "series":
        return pd.Series([list(t) for t in D])
    if how == "series_offset_index":
        return pd.Series([list(t) for t in D], index=[100 + 3 * i for i in range(len(D))])
    if how == "series_perm_index":  # labels are other positions
        return pd.Series([list(t) for t in D], index=list(range(len(D)))[::-1])
    if how == "series_dup_index":
        return pd.Series([list(t) for t in D], index=[i // 2 for i in range(len(D))])
    if how == "ndarray_obj":
        a = np.empty(len(D), dtype=object)
        for i, t in enumerate(D):
            a[i] = list(t)
        return a
    raise ValueError(how)


def tabular(D, A, dtype=bool):
    cols = list(A)
    df = pd.DataFrame([[a in t for a in cols] for t in D], columns=cols)
    return df.astype(dtype)
