#!/opt/venv/bin/python
"""Entry point of every check.

    run.py CHECK_ID                run the check (tier from VERIF_TIER, seed from VERIF_SEED)
    run.py --replay FILE           re-run the single case recorded in a replay file
    run.py --worker ...            internal

The parent starts N worker processes (each a fresh interpreter importing skmine from
/repo's working tree, each with its own string-hash seed), collects their observations,
decides, and writes evidence/<ID>.json.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
NWORKERS = 8


def load(pid):
    sys.path.insert(0, HERE)
    import importlib
    return importlib.import_module(f"vp.props.{pid.lower()}")


def families(mod, tier):
    """what to run: in the quick tier QUICK_SCALE times the counts of the module, up to those of the thorough one"""
    fams = mod.families(tier)
    scale = getattr(mod, "QUICK_SCALE", 1)
    if tier == "quick" and scale > 1:
        most = {f: n for f, n, _ in mod.families("thorough")}
        fams = [(f, max(n, min(n * scale, most.get(f, n))), fn) for f, n, fn in fams]
    return fams


def hashseed(seed, k):
    return 0 if k == 0 else int(hashlib.sha256(f"{seed}/{k}".encode()).hexdigest()[:7], 16)


def child_env(scratch, hs):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "VERIF_SEED", "VERIF_TIER", "VERIF_REPO")}
    env.update(PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               MPLCONFIGDIR="/opt/venv/mplconfig" if os.path.isdir("/opt/venv/mplconfig") else scratch,
               SCIKIT_MINE_DATA=os.path.join(scratch, "skdata"), LC_ALL="C.UTF-8", TZ="UTC",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=scratch, JOBLIB_TEMP_FOLDER=scratch,
               PYTHONPATH=REPO, PYTHONFAULTHANDLER="1")
    return env


def known_findings():
    """(property, key) -> description, from KNOWN_FINDINGS.txt"""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                head, _, desc = line[len("known: "):].partition(" -- ")
                kv = dict(p.split("=", 1) for p in head.split(" ") if "=" in p)
                out[(kv["property"], kv["key"])] = desc
    return out


def worker(pid, seed, tier, k, n, outfile):
    scratch = os.getcwd()
    mod = load(pid)
    from vp import core
    import skmine
    assert os.path.realpath(skmine.__file__).startswith(os.path.realpath(REPO) + os.sep), skmine.__file__
    known = {key for (p, key) in known_findings() if p == pid}
    with open(outfile, "w") as f:
        nviol = 0
        j = 0
        for fam, count, fn in families(mod, tier):
            for i in range(count):
                j += 1
                if j % n != k:
                    continue
                cwd = tempfile.mkdtemp(dir=scratch)
                os.chdir(cwd)
                f.write(json.dumps({"start": [fam, i]}) + "\n")
                f.flush()
                res = core.run_case(pid, fam, fn, i, seed, tier)
                os.chdir(scratch)
                shutil.rmtree(cwd, ignore_errors=True)
                f.write(json.dumps(res) + "\n")
                f.flush()
                if res["status"] == "violated" and res["key"] not in known:
                    nviol += 1
                    if nviol >= 3:
                        break
            if nviol >= 3:
                break
        f.write(json.dumps({"done": True}) + "\n")


def replay(path):
    r = json.load(open(path))
    if os.environ.get("PYTHONHASHSEED") != str(r["hashseed"]) or os.environ.get("VERIF_IN_REPLAY") != "1":
        scratch = tempfile.mkdtemp(prefix="vp_replay_")
        env = child_env(scratch, r["hashseed"])
        env["VERIF_IN_REPLAY"] = "1"
        try:
            return subprocess.call([PY, os.path.abspath(__file__), "--replay", os.path.abspath(path)], env=env, cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    mod = load(r["property"])
    from vp import core
    fn = {f: g for f, _, g in mod.families(r["tier"])}[r["family"]]
    res = core.run_case(r["property"], r["family"], fn, r["index"], r["seed"], r["tier"])
    print(json.dumps({k: v for k, v in res.items() if k not in ("hashes",)}, indent=1))
    return 1 if res["status"] == "violated" else 0


def main():
    if sys.argv[1] == "--worker":
        pid, seed, tier, k, n, outfile = sys.argv[2:8]
        return worker(pid, int(seed), tier, int(k), int(n), outfile)
    if sys.argv[1] == "--setup":  # nothing to build: checks import /repo's working tree; fail early if they cannot
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        return subprocess.call([PY, "-c", "import skmine, numpy, pandas, networkx; print(skmine.__file__)"],
                               env=child_env(tempfile.gettempdir(), 0))
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = load(pid)
    limit = 780 if tier == "quick" else getattr(mod, "THOROUGH_LIMIT", 5400)
    scratch = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    results, problems, unfinished = [], [], []
    try:
        procs = []
        for k in range(NWORKERS):
            d = os.path.join(scratch, f"w{k}")
            os.makedirs(d)
            hs = hashseed(seed, k)
            errf = open(os.path.join(scratch, f"w{k}.err"), "wb")
            p = subprocess.Popen([PY, os.path.abspath(__file__), "--worker", pid, str(seed), tier, str(k), str(NWORKERS),
                                  os.path.join(scratch, f"w{k}.jsonl")], env=child_env(d, hs), cwd=d,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
            procs.append((k, hs, p))
        for k, hs, p in procs:
            try:
                p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                problems.append(f"worker {k} stopped at the wall limit")
                import signal
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            done, last = False, None
            path = os.path.join(scratch, f"w{k}.jsonl")
            for line in (open(path) if os.path.exists(path) else []):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "done" in r:
                    done = True
                elif "start" in r:
                    last = r["start"]
                else:
                    r["hashseed"], r["worker"] = hs, k
                    results.append(r)
                    last = None
            if not done:
                err = open(os.path.join(scratch, f"w{k}.err"), errors="replace").read()[-1500:]
                problems.append(f"worker {k} (rc={p.returncode}) did not finish; last case {last}; stderr: {err}")
                unfinished.append((k, hs, last, p.returncode))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings()
    gone = {}
    for fam in {r["family"] for r in results}:
        rs = [r for r in results if r["family"] == fam and r["status"] != "skipped"]
        un = [r for r in rs if r["status"] == "unavailable"]
        if un and len(un) == len(rs):
            gone[fam] = un[0]["msg"]
        else:   # there in other cases
            for r in un:
                r.update(status="violated", key="missing", msg=r["msg"])
    viol = [r for r in results if r["status"] == "violated"]
    errors = [r for r in results if r["status"] == "error"]
    new = [r for r in viol if (pid, r["key"]) not in known]
    old = [r for r in viol if (pid, r["key"]) in known]
    counters = Counter()
    hashes, fams = set(), {}
    for r in results:
        counters.update(r["counters"])
        hashes.update(r["hashes"])
        f = fams.setdefault(r["family"], Counter())
        f["cases"] += 1
        f[r["status"]] += 1
        f["nontrivial"] += bool(r["nontrivial"])
    slow = sorted(results, key=lambda r: -r["wall"])[:3]
    samples = []
    seen = set()
    for r in results:
        if r["nontrivial"] and r["family"] not in seen:
            seen.add(r["family"])
            samples.append({"family": r["family"], "index": r["index"], "inputs": r["inputs"], "observed": r["counters"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:12] or [{"note": "no non-trivial case"}],
            "families": {k: dict(v) for k, v in fams.items()},
            "observed": dict(counters),
            "hash_seeds": sorted({r["hashseed"] for r in results}),
            "slowest": [[r["family"], r["index"], round(r["wall"], 2)] for r in slow],
            "known_findings_seen": len(old),
            "unobservable_families": gone,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    tmp = os.path.join(evdir, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, f"{pid}.json"))

    for key in sorted({r["key"] for r in old}):
        print(f"KNOWN-FINDING: property={pid} {known[(pid, key)]}")
    print(f"{pid} {tier} seed={seed}: {len(results)} cases, {len(hashes)} distinct non-trivial, "
          f"{counters.get('assertions', 0)} assertions, {len(new)} violations, {len(errors)} harness errors, {ev['wall_s']}s")
    for fam, msg in gone.items():
        print(f"NOTE: family {fam} could not observe anything: {msg}")
    if new:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        byk = {}
        for r in new:
            byk.setdefault((r["key"], r["family"]), r)
        for r in list(byk.values())[:8]:
            path = os.path.join(rdir, f"{pid}-{r['family']}-{r['index']}-s{seed}.json")
            json.dump({"property": pid, "family": r["family"], "index": r["index"], "seed": seed, "tier": tier,
                       "hashseed": r["hashseed"], "message": r["msg"], "key": r["key"], "data": r.get("data"),
                       "inputs": r["inputs"]}, open(path, "w"), indent=1)
            print(f"  [{r['family']}#{r['index']}] key={r['key']} {r['msg'][:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for e in errors[:5]:
        print(f"HARNESS-ERROR [{e['family']}#{e['index']}] {e['msg']}\n{e['tb']}", file=sys.stderr)
    for p in problems:
        print(f"PROBLEM {p}", file=sys.stderr)
    if errors or problems:
        print("INCONCLUSIVE: the monitor could not decide every case")
        return 2
    need = mod.MIN_NONTRIVIAL[tier] if isinstance(getattr(mod, "MIN_NONTRIVIAL", 1), dict) else getattr(mod, "MIN_NONTRIVIAL", 1)
    if len(hashes) < need:
        print(f"INCONCLUSIVE: only {len(hashes)} distinct non-trivial observations, {need} required")
        return 2
    for fam, c in fams.items():
        if not c["nontrivial"] and c["cases"] >= 16 and fam not in gone:
            print(f"INCONCLUSIVE: family {fam} observed nothing non-trivial")
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
