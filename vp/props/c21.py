"""C21: loaders return exactly what the file says, and the cache is transparent."""
import gzip
import io
import os
import shutil
import tempfile
import urllib.error
import urllib.request
import urllib.response
from collections import Counter
from contextlib import redirect_stdout
from datetime import datetime, timedelta
from email.message import Message

import pandas as pd

ID = "C21"
RULE = ("random transaction files (integers or strings, separators, blank lines, repeated and trailing separators, missing final newline), random event logs (dates in several formats, "
        "integers, duplicated and unsorted timestamps, one column, events spelt like missing values) and random lifelogging dumps are written to scratch folders, loaded and compared with what "
        "was written; the named data sets are fetched through an in-process stand-in for the web server that counts requests and injects failures (refused, truncated); non-trivial = at least 3 "
        "lines loaded; distinct by content")
ASSUMPTIONS = ["no real network: the standard library's URL opener is replaced by one that serves generated files and logs every request", "separators do not occur in items"]
QUICK_SCALE = 5
MIN_NONTRIVIAL = {"quick": 250, "thorough": 3000}

WORDS = ["a", "b", "Zed", "item", "42", "é", "x-1", "NA", "null", "None", "nan", "N/A", "true", "1e5", "a:b", "µ", "", "NULL", "#N/A", "-", "0x10", "1.0"]


# --- stand-in for the web ---------------------------------------------------------------------
class Web(urllib.request.BaseHandler):
    handler_order = 1

    def __init__(self):
        self.content, self.log, self.fault = {}, [], None

    def open_(self, req):
        url = req.full_url
        self.log.append(url)
        if self.fault == "refused" or url not in self.content:
            raise urllib.error.URLError("connection refused")
        data = self.content[url]
        h = Message()
        h["Content-Length"] = str(len(data))
        body = io.BytesIO(data)
        if self.fault == "truncated":
            body = Truncated(data[: len(data) // 2])
        r = urllib.response.addinfourl(body, h, url, 200)
        r.msg = "OK"
        return r

    http_open = https_open = open_


class Truncated(io.BytesIO):
    """Connection dropped half-way."""

    def read(self, *a):
        d = super().read(*a)
        if not d or not a or a[0] in (-1, None):
            raise ConnectionResetError("connection reset by peer")
        return d


def web():
    w = Web()
    urllib.request.install_opener(urllib.request.build_opener(w))
    return w


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_c21_")
        self.old = os.getcwd()
        os.mkdir(os.path.join(self.d, "cwd"))
        os.chdir(os.path.join(self.d, "cwd"))
        self.env = {k: os.environ.get(k) for k in ("SCIKIT_MINE_DATA", "HOME")}
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        urllib.request.install_opener(None)
        shutil.rmtree(self.d, ignore_errors=True)


def snapshot(d):
    return sorted((os.path.relpath(os.path.join(r, f), d), open(os.path.join(r, f), "rb").read()) for r, _, fs in os.walk(d) for f in fs)


def quiet(c, fn, *a, **kw):
    with redirect_stdout(io.StringIO()):
        return c.call(fn, *a, **kw)


def faulty(c, fn, *a, **kw):
    """The call must fail (the download does)."""
    try:
        with redirect_stdout(io.StringIO()):
            fn(*a, **kw)
    except Exception:
        c.count("failed downloads reported")
        return
    c.fail(f"{fn.__name__}: a failed download went unnoticed", key="fault")


# --- transactions -------------------------------------------------------------------------------
def dat_lines(rng, ints, sep=" ", blanks=True, n=None):
    n = n or rng.choice([1, 2, rng.randint(3, 12), rng.randint(12, 60)] * 4 + [rng.randint(300, 1500)])
    words = [w for w in WORDS if w]
    D = []
    for _ in range(n):
        k = 0 if blanks and rng.random() < .1 else rng.randint(1, 8)
        D.append([rng.choice([rng.randint(0, 9), rng.randint(-50, 10 ** 6)]) if ints else rng.choice(words) + (rng.choice([" ", "_"]) + "z" if sep.strip() and rng.random() < .2 else "")
                  for _ in range(k)])
    lines = []
    for t in D:
        s = (sep * rng.choice([1, 1, 1, 1, 2] if blanks else [1])).join(str(i) for i in t)
        if rng.random() < .2 and blanks:
            s += sep
        if rng.random() < .05 and t and blanks:
            s = sep + s
        if sep.strip() and t and not ints and rng.random() < .05:  # blanks belong to the items when they do not separate
            t[0] = " " + t[0]
            s = " " + s if not s.startswith(sep) else s.replace(sep, sep + " ", 1) if s.startswith(sep) and not s.startswith(sep * 2) else s.replace(sep * 2, sep * 2 + " ", 1)
        if not t and rng.random() < .5:
            s = rng.choice(["", sep, "  "]) if not sep.strip() else rng.choice(["", sep])
        lines.append(s)
    text = "\n".join(lines)
    if not text.endswith("\n") and rng.random() < .7 or not lines[-1]:
        text += "\n"
    return D, text


def transactions(c):
    from skmine.datasets import fimi
    rng = c.rng
    ints = rng.random() < .5
    sep = rng.choice([" ", " ", ",", ";", "\t", "|", "::"])
    D, text = dat_lines(rng, ints, sep)
    name = rng.choice(["data.dat", "my.data.txt", "noext", "ünï.dat"])
    c.given(text=text, sep=sep, ints=ints)
    with Scratch() as d:
        p = os.path.join(d, name)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        kw = {} if sep == " " and rng.random() < .5 else {"separator": sep}
        if ints or rng.random() < .5:
            kw["int_values"] = ints
        S = c.call(fimi.fetch_file, p, **kw)
        c.check(isinstance(S, pd.Series), "a Series is returned", key="api")
        c.eq([list(t) for t in S], D, "transactions", key="transactions")
        c.check(all(type(i) is (int if ints else str) for t in S for i in t), "types of the items", key="types")
        c.eq(list(S.index), list(range(len(D))), "index", key="index")
        c.eq(S.name, os.path.splitext(name)[0], "name", key="name")
        c.eq(open(p, encoding="utf-8").read(), text, "the file was changed", key="mutated")
        if ints and D and any(D):
            bad = os.path.join(d, "bad.dat")
            open(bad, "w").write(text.rstrip("\n") + f"\n1{sep}x\n")
            c.raises(ValueError, fimi.fetch_file, bad, separator=sep, int_values=True, key="refused")
        c.raises(OSError, fimi.fetch_file, os.path.join(d, "missing.dat"), key="refused")
    if len(D) >= 3:
        c.interesting("tx", text)


NAMED = {"chess": "chess.dat", "connect": "connect.dat", "mushroom": "mushroom.dat", "pumsb": "pumsb.dat", "pumsb_star": "pumsb_star.dat", "kosarak": "kosarak.dat", "retail": "retail.dat",
         "accidents": "accidents.dat", "iris": "iris.D19.N150.C3.num.gz", "breast": "breast.D20.N699.C2.num", "tictactoe": None}


def fetched(c):
    from skmine.datasets import fimi
    rng = c.rng
    which = rng.sample(sorted(NAMED), 2)
    with Scratch() as d:
        w = web()
        home = where = os.path.join(d, *rng.choice([["h"], ["a", "b", "c"], ["with space", "x$HOME"], ["a~", "é%s{0}"]]))
        arg = {"data_home": home}
        mode = rng.choice(["explicit", "env", "tilde", "relative"])
        if mode == "env":
            os.environ["SCIKIT_MINE_DATA"] = home
            arg = {} if rng.random() < .5 else {"data_home": None}
        elif mode == "tilde":
            os.environ["HOME"] = d
            arg = {"data_home": "~" + home[len(d):]}
        elif mode == "relative":
            arg = {"data_home": "rel/home"}
            where = os.path.join(d, "cwd", "rel", "home")
        if rng.random() < .3:
            os.makedirs(where)
        total = 0
        truth = {}
        for name in which + rng.sample(which, rng.randint(0, 2)):
            fetch = getattr(fimi, f"fetch_{name}")
            labelled = name in ("mushroom", "iris", "breast", "tictactoe")
            zipped = name in ("iris", "breast", "tictactoe")
            if name not in truth:
                D, text = dat_lines(rng, True, " ", blanks=not labelled)
                if labelled and name == "mushroom":
                    D = [[rng.choice([1, 2])] + t + [rng.choice([1, 2])] * (rng.random() < .2) for t in D]
                elif labelled:
                    D = [t + [rng.choice([17, 18])] for t in D]
                    D = [t[-1:] * (rng.random() < .2) + t for t in D]
                if labelled:
                    text = "".join(" ".join(map(str, t)) + rng.choice([" \n", "\n"]) for t in D)
                truth[name] = D
                data = gzip.compress(text.encode()) if zipped else text.encode()
                c.given(name=name, text=text, mode=mode)
                w.content = AnyUrl(data)
                if rng.random() < .5:
                    w.fault = rng.choice(["refused", "truncated"]) if len(data) > 1 else "refused"
                    faulty(c, fetch, **arg)
                    w.fault = None
                    c.count("injected failures")
                first = True
            else:
                first = False
            D = truth[name]
            w.log.clear()
            for call in range(rng.choice([2, 3])):
                y = None
                if labelled and rng.random() < .6:
                    X, y = quiet(c, fetch, return_y=True, **arg)
                else:
                    X = quiet(c, fetch, **arg)
                c.eq(len(w.log), int(first), f"{name}: downloads after call {call + 1}", key="cache")
                w.content = AnyUrl(b"9 9 9\n")    # whoever asks again gets something else
                if y is None:
                    c.eq([list(t) for t in X], D, f"{name}", key="content")
                elif name == "mushroom":
                    c.eq([list(t) for t in X], [t[1:] for t in D], "mushroom data", key="labels")
                    c.eq([int(v) for v in y], [0 if t[0] == 2 else 1 for t in D], "mushroom labels", key="labels")
                else:
                    c.eq([list(t) for t in X], [t[:-1] for t in D], f"{name} data", key="labels")
                    c.eq([int(v) for v in y], [t[-1] for t in D], f"{name} labels", key="labels")
                if y is not None:
                    c.eq(list(X.index), list(y.index), "data and labels aligned", key="labels")
                c.count("fetches")
            total += len(D)
            if first:
                c.check(name in w.log[0].lower(), f"{name} was downloaded from {w.log[0]}", key="url")
                c.check(w.log[0].startswith(fimi.BASE_URL_CGI if zipped else fimi.BASE_URL_FIMI), f"{name} was downloaded from {w.log[0]}", key="url")
        c.eq(len([f for f in os.listdir(where) if not f.endswith(".tmp")]), len(truth), "files in the cache folder", key="cache")
        c.eq([f for f in os.listdir(os.path.join(d, "cwd")) if not f.endswith(".tmp") and f != "rel"], [], "files left in the working directory", key="stray")
    if total >= 3:
        c.interesting("fetch", truth, mode)


class AnyUrl(dict):
    def __init__(self, data):
        super().__init__()
        self.data = data

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.data


# --- event logs ----------------------------------------------------------------------------------
FORMATS = ["%Y-%m-%d %H:%M:%S", "%d/%m/%Y %H:%M:%S", "%Y%m%d-%H:%M:%S:%f", "%d.%m.%Y", "%Y-%m-%dT%H:%M", "%H:%M %d-%m-%y"]


def when(rng):
    return datetime(rng.randint(1990, 2035), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), 1000 * rng.randint(0, 999))


def logs(c):
    from skmine.datasets import periodic
    rng = c.rng
    n = rng.choice([1, 2, rng.randint(3, 12), rng.randint(12, 60)] * 3 + [rng.randint(300, 2500)])
    kind = rng.choice(["int", "years", "dates", "format", "single"])
    sep = rng.choice([",", ";", "|", "\t"])
    evs = [rng.choice(WORDS if kind != "single" else [w for w in WORDS if w]) + rng.choice(["", "", " tail", ":1"]) for _ in range(n)]
    evs = [e.strip() for e in evs]
    kw = {} if sep == "," else {"separator": sep}
    if kind in ("int", "years"):
        ts = [rng.randint(1900, 2100) if kind == "years" else rng.choice([rng.randint(0, 50), rng.randint(-10 ** 4, 10 ** 9), rng.randint(20100101, 20351231), -rng.randint(1, 10 ** rng.randint(1, 12))][:3 + (n % 2)]) for _ in range(n)]
        text = [str(t) for t in ts]
    elif kind == "single":
        ts, text = list(range(n)), None
    else:
        f = rng.choice(FORMATS) if kind == "format" else "%Y-%m-%d %H:%M:%S"
        ts = [when(rng) for _ in range(n)]
        text = [t.strftime(f) for t in ts]
        ts = [datetime.strptime(s, f) for s in text]
        if kind == "format":
            kw["format"] = f
    if rng.random() < .4 and text:
        o = sorted(range(n), key=lambda i: ts[i])
        ts, text = [ts[i] for i in o], [text[i] for i in o]
    if rng.random() < .3 and text and n > 1:      # duplicated timestamps
        for _ in range(rng.choice([1, 2, n // 4 + 1])):
            i, j = rng.sample(range(n), 2)
            ts[i], text[i] = ts[j], text[j]
    pad = rng.choice(["", " "]) if text and sep != "\t" else ""
    lines = [s + sep + pad + e for s, e in zip(text, evs)] if text else evs
    body = "\n".join(lines) + rng.choice(["", "\n"])
    c.given(body=body, kind=kind, kw=kw)
    with Scratch() as d:
        p = os.path.join(d, "log.csv")
        open(p, "w", encoding="utf-8").write(body)
        S = c.call(periodic.fetch_file, p, **kw)
        c.check(isinstance(S, pd.Series), "a Series is returned", key="api")
        c.eq([None if pd.isna(e) else str(e) for e in S], evs, "events", key="events")
        if kind in ("dates", "format"):
            c.check(isinstance(S.index, pd.DatetimeIndex), "dates are expected", key="timestamps")
            c.eq([t.to_pydatetime() for t in S.index], ts, "timestamps", key="timestamps")
        else:
            c.eq([int(t) for t in S.index], ts, "timestamps", key="timestamps")
            c.check(pd.api.types.is_integer_dtype(S.index), f"index of type {S.index.dtype}", key="timestamps")
        c.eq(S.index.name, "timestamp", "index name", key="api")
        c.eq(str(S.dtype), "string", "type of the events", key="api")
        c.eq(open(p, encoding="utf-8").read(), body, "the file was changed", key="mutated")
    if n >= 3:
        c.interesting("log", body)


def remote_logs(c):
    from skmine.datasets import periodic
    rng = c.rng
    n = rng.choice([1, 2, rng.randint(3, 12), rng.randint(12, 60)] * 3 + [rng.randint(300, 1500)])
    which = rng.choice(["health", "tv"])
    evs = [rng.choice([w for w in WORDS if w]) + rng.choice(["", " tail", ", x", "; y", ":1"]) for _ in range(n)]
    ts = [when(rng) for _ in range(n)]
    if rng.random() < .4:  # simultaneous events
        ts = [rng.choice(ts) for _ in ts]
    if which == "health":
        text = [t.strftime("%Y%m%d-%H:%M:%S:") + str(t.microsecond // 1000).zfill(rng.choice([1, 3])) for t in ts]
        ts = [datetime.strptime(s, "%Y%m%d-%H:%M:%S:%f") for s in text]
        body = "".join(f"{s}|{e}|{rng.randint(0, 99)}|some, message {rng.randint(0, 99)}\n" for s, e in zip(text, evs))
        fetch, default = periodic.fetch_health_app, "health_app.csv"
    else:
        ts = [t.replace(microsecond=0) for t in ts]
        body = "".join(f'{t:%Y-%m-%d %H:%M:%S},"{e}"\n' if "," in e or rng.random() < .3 else f"{t:%Y-%m-%d %H:%M:%S},{e}\n" for t, e in zip(ts, evs))
        fetch, default = periodic.fetch_canadian_tv, "canadian_tv.txt"
    c.given(which=which, body=body)
    with Scratch() as d:
        w = web()
        w.content = AnyUrl(body.encode())
        home = os.path.join(d, "home", "deep")
        kw = dict(data_home=home)
        if rng.random() < .4:
            kw["filename"] = default = "other.csv"
        if rng.random() < .3:
            os.environ["SCIKIT_MINE_DATA"] = home
            del kw["data_home"]
        if rng.random() < .5:
            w.fault = rng.choice(["refused", "truncated"])
            faulty(c, fetch, **kw)
            w.fault = None
            c.count("injected failures")
        w.log.clear()
        prev = None
        for call in range(3):
            S = c.call(fetch, **kw)
            c.eq(len(w.log), 1, f"downloads after call {call + 1}", key="cache")
            c.eq([None if pd.isna(e) else str(e) for e in S], evs, f"events of call {call + 1}", key="events")
            c.eq([t.to_pydatetime() for t in S.index], ts, f"timestamps of call {call + 1}", key="timestamps")
            c.eq(S.index.name, "timestamp", "index name", key="api")
            if prev is not None:
                c.check(prev.equals(S) and prev.name == S.name and prev.dtype == S.dtype, "the cached data differs from the downloaded data", key="cache")
            prev = S
            w.content = AnyUrl(b"20200101-00:00:00:0|x|1|y\n")
        c.eq(os.listdir(home), [default], "files in the cache folder", key="cache")
    if n >= 3:
        c.interesting("remote", body)


# --- lifelogging dumps ---------------------------------------------------------------------------
def ubiq(c):
    from skmine.datasets import periodic
    rng = c.rng
    users = [f"{i}_{rng.choice('FM')}" for i in rng.sample(range(40), rng.randint(1, 4))]
    procs = ["com.android.phone", "org.my_app", "x", "NA", "a_b_c"][: rng.randint(1, 5)]
    mocc = rng.choice([0, 0, 1, 3, 10])
    raw = {u: [] for u in users}
    lines, dropped = [], set()
    n = rng.choice([rng.randint(1, 8), rng.randint(10, 150)])
    start = when(rng).replace(microsecond=0)
    cur = start
    for _ in range(n):
        u = rng.choice(users)
        cur = cur + timedelta(seconds=rng.choice([0, 1, 30, 61, rng.randint(0, 10 ** 4)]))
        a = cur if rng.random() < .8 else start + timedelta(seconds=rng.randint(0, 10 ** 5))
        b = a + timedelta(seconds=rng.choice([0, 5, 59, 60, 61, rng.randint(0, 5000)] * 4 + [86400, 86405, 2 * 86400 + 59, 86400 + rng.randint(0, 100), -5, -400]))
        p = rng.choice(procs)
        s0, s1 = a.strftime("%m-%d-%Y %H:%M:%S"), b.strftime("%m-%d-%Y %H:%M:%S")
        if rng.random() < .01:
            s0 = rng.choice(["", "1-1", "13-40-2013 00:00:00"])
            dropped.add(u)
        else:
            raw[u].append((a, b, p))
        lines.append(f'UbiqLog4UCI/{u}/log_{a:%m-%d-%Y}.txt:{{"Application":{{"ProcessName":"{p}","Start":"{s0}","End":"{s1}"}}}}')
        if rng.random() < .05:
            lines.append(rng.choice([f"UbiqLog4UCI/{u}/log_1-1-2013.txt:{{\"Location\":1}}", "garbage", ""]))
    c.given(lines=lines, min_occ=mocc)
    want = {}
    for u in users:
        if u in dropped:
            continue
        E = []
        for a, b, p in raw[u]:
            E += [(a, p + "_I")] if (b - a).total_seconds() < 60 else [(a, p + "_S"), (b, p + "_E")]
        cnt = Counter(e for _, e in E)
        E = [(t, e) for t, e in E if cnt[e] > mocc]
        if len(E) > mocc:
            t0 = min(t for t, _ in E)
            M = sorted((int((t - t0).total_seconds() // 60), e) for t, e in E)
            full = [x for i, x in enumerate(M) if i == 0 or M[i - 1] != x]
            S = [(m, e[:-2]) for m, e in M if e[-2:] != "_E"]
            seq = [x for i, x in enumerate(S) if i == 0 or S[i - 1] != x]
            want[u] = t0, full, seq
    with Scratch() as d:
        inp, out = os.path.join(d, "all.txt"), os.path.join(d, "out")
        os.mkdir(out)
        open(inp, "w").write("\n".join(lines) + "\n")
        quiet(c, periodic.parse_all_user, inp, out, min_occ=mocc)
        c.eq(sorted(os.listdir(out)), sorted(f"{u}_{k}_data.dat" for u in want for k in ("IS", "ISE")), "files written", key="users")
        for u, (t0, full, seq) in want.items():
            S, user, st = c.call(periodic.read_ubiq_user, os.path.join(out, f"{u}_ISE_data.dat"))
            c.eq((user, st), (u, t0), "user and start", key="user")
            c.eq([(t.to_pydatetime(), str(e)) for t, e in S.items()], [(t0 + timedelta(minutes=m), e) for m, e in full], f"events of {u}", key="events")
            if seq:
                S, user, st = c.call(periodic.read_ubiq_user, os.path.join(out, f"{u}_IS_data.dat"))
                c.eq((user, st), (u, t0), "user and start", key="user")
                c.eq([(int(t), str(e)) for t, e in S.items()], [(i + 1, e) for i, (m, e) in enumerate(seq)], f"sequence of {u}", key="events")
            c.count("users")
        if want:  # users parsed before are read from the cache folder, without any download
            home = os.path.join(d, "home")
            shutil.copytree(out, os.path.join(home, "UbiqLog", "users_ubiq"))
            kept = snapshot(home)
            u = rng.choice(sorted(want))
            t0, full, seq = want[u]
            ran, system = [], os.system
            os.system = ran.append
            try:
                S = quiet(c, periodic.fetch_ubiq, f"{u}_ISE_data.dat", data_home=home)
                c.eq([(t.to_pydatetime(), str(e)) for t, e in S.items()], [(t0 + timedelta(minutes=m), e) for m, e in full], f"events of {u} fetched", key="events")
                if seq:
                    S = quiet(c, periodic.fetch_ubiq, f"{u}_IS_data.dat", data_home=home)
                    c.eq([(int(t), str(e)) for t, e in S.items()], [(i + 1, e) for i, (m, e) in enumerate(seq)], f"sequence of {u} fetched", key="events")
                faulty(c, periodic.fetch_ubiq, "99_F_ISE_data.dat", data_home=home)
            finally:
                os.system = system
            c.check(not ran, f"commands run although the data is there: {ran[:2]}", key="cache")
            c.eq(snapshot(home), kept, "cache folder after reading", key="cache")
    if any(len(f) >= 3 for _, f, _ in want.values()):
        c.interesting("ubiq", lines)


def graphs(c):
    """graph files: three lines of header, then vertices (v number name label) and edges (e from to label), numbered from zero"""
    from skmine.graph.graphmdl import utils
    rng = c.rng
    n = rng.randint(1, 12)
    names = ["a", "b", "label1", "C-C", "0", "17", "v", "e", "\u00e9t\u00e9", "x:y"]
    V = [(i, rng.choice(names)) for i in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    E = [(i, j, rng.choice(names)) for i, j in rng.sample(pairs, min(len(pairs), rng.randint(0, 20)))]
    rows = [f"v {i} {rng.choice(names)} {l}" for i, l in V] + [f"e {i} {j} {l}" for i, j, l in E]
    if rng.random() < .2:
        k = len(V)
        tail = rows[k:]
        rng.shuffle(tail)
        rows[k:] = tail
    head = ["# graph", "t # 0", "#"] if rng.random() < .5 else [f"v {n} {n} header", "e 0 1 header", f"{n} {len(E)}"]
    text = "\n".join(head + rows) + ("\n" if rng.random() < .7 else "")
    c.given(text=text)
    with open("g.txt", "w", encoding="utf8") as f:
        f.write(text)
    for _ in range(2):
        g = c.call(utils.get_graph_from_file, "g.txt")
        c.eq(sorted((i, d.get("label")) for i, d in g.nodes(data=True)), [(i + 1, l) for i, l in V], "vertices of the graph", key="graph")
        c.eq(sorted((i, j, d.get("label")) for i, j, d in g.edges(data=True)), sorted((i + 1, j + 1, l) for i, j, l in E), "edges of the graph", key="graph")
        c.check(g.is_directed(), "the graph is directed", key="graph")
    c.eq(open("g.txt", encoding="utf8").read(), text, "the file was changed", key="graph")
    c.raises(OSError, utils.get_graph_from_file, "nowhere.txt", key="graph")
    if E:
        c.interesting(text)


def families(tier):
    q = tier == "quick"
    return [("transactions", 150 if q else 2500, transactions), ("fetched", 80 if q else 800, fetched), ("logs", 150 if q else 2500, logs), ("remote_logs", 80 if q else 800, remote_logs),
            ("ubiq", 80 if q else 800, ubiq), ("graphs", 40 if q else 400, graphs)]
