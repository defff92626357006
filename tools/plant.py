#!/opt/venv/bin/python
"""Develop planted bugs: plant.py [--check] [ids...]. For each bug of tools/bugs.py: make the change in a scratch copy of /repo's HEAD, confirm that it
builds, passes the stable tests, that the demonstration passes without and fails with it, write seeded/<id>/, and with --check run its property's check on it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import bugs  # noqa
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nwork=$(mktemp -d) || exit 3\ntrap \'rm -rf "$work"\' EXIT\n' \
       'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work" SCIKIT_MINE_DATA="$work/data"\ncd "$work" && /opt/venv/bin/python "$here/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", TZ="UTC", LC_ALL="C.UTF-8")


def run_tests(tree):
    w = tree + "_junit.xml"
    e = dict(ENV, SCIKIT_MINE_DATA=tree + "_data", PYTHONPATH=tree)
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--doctest-modules",
                    "-o", "junit_family=xunit2", "--junitxml=" + w, "skmine"], cwd=tree, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["python3", "/opt/vp/results.py", w + ".json", "junit:" + w], stdout=subprocess.DEVNULL)
    d = json.load(open(w + ".json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(d.get("passed", []))
    for f in (w, w + ".json"):
        os.remove(f)
    shutil.rmtree(tree + "_data", ignore_errors=True)
    return sorted(stable - passed)


def main():
    check = "--check" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    summary = []
    for b in bugs.B:
        if ids and b["id"] not in ids and b["property"] not in ids:
            continue
        tree = f"/tmp/bug_{b['id']}"
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", tree])
        problems = []
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                problems.append(f"{f}: {s.count(old)} matches of {old!r}")
                continue
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(HERE, "seeded", b["id"])
        if not problems:
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", tree, "diff"]).decode()
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            # lines changed must be the original repository's
            for ln in subprocess.check_output(["git", "-C", tree, "diff", "-U0"]).decode().splitlines():
                if ln.startswith("-") and not ln.startswith("---"):
                    f = b["edits"][0][0]
                    if not any(ln[1:] in subprocess.run(["git", "-C", tree, "show", f"{bugs.BASE}:{f}"], capture_output=True, text=True).stdout.splitlines()
                               for f in {e[0] for e in b["edits"]}):
                        problems.append("changes a line that is not of the original repository: " + ln)
            a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
            z = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, capture_output=True, text=True)
            if a.returncode:
                problems.append("demo fails on the clean tree: " + a.stderr[-600:])
            if not z.returncode:
                problems.append("demo passes with the bug")
            lost = run_tests(tree)
            if lost:
                problems.append("tests lost: " + ", ".join(lost))
        caught = None
        if check and not problems:
            r = subprocess.run([PY, "run.py", b["property"]], cwd=HERE, env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")), capture_output=True, text=True)
            caught = r.returncode == 1 and f"VIOLATION property={b['property']} " in r.stdout
            why = [x for x in r.stdout.splitlines() if x.startswith("  [")][:2]
        line = f"{b['id']:32s} {b['property']} {'OK' if not problems else 'BROKEN'} " + ("" if caught is None else ("CAUGHT " + (why[0][:120] if why else "") if caught else f"MISSED rc={r.returncode}"))
        print(line, flush=True)
        for p in problems:
            print("    " + p, flush=True)
        if problems:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tree, ignore_errors=True)
        summary.append(line)
    return 0


main()
