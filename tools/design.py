"""Writes DESIGN.md: the general part and the notes below, with titles, families and planted bugs taken from the machinery."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from bugs import B          # noqa: E402
from meta import P          # noqa: E402

NOTES = {
    "C01": """The monitor enumerates the closed sets independently (all intersections of transactions, support counted by scanning) and compares the set of
itemsets, each support, each transaction list, the absence of duplicates, the sorting, the effect of length restrictions, and the file written. `large`, `scale` and `huge` go
beyond what the quadratic oracle does naively (up to thousands of transactions, few items); `jobs` runs real process pools; `refit` replays histories of fits on one miner; `invalid` both sides of the
accepted range. Reaches what tests cannot: thresholds whose float product rounds, branches whose closure jumps over several items, parallel merge order.""",
    "C02": """Same workload as C01; the oracle keeps the maximal elements of the independent enumeration.""",
    "C03": """After each fit the code table is read through every view; the invariant (disjoint, union = transaction) is evaluated per transaction, the input being its own oracle.
Representations: lists, tuples, sets, Series, boolean/int/float tables, bitmaps; parameters: pruning, items, max_time, tol.""",
    "C04": """`update`, `evaluate` and the candidate generator are wrapped at run time: after each accepted step sizes are recomputed in 64-bit arithmetic from the table. The singleton description is
computed from the data. `scale` and `huge` give usages over 255 / 65535 and several hundred items. Tolerance 1e-4 relative, because the code uses single-precision logarithms.""",
    "C05": """A reference encoder (greedy in standard cover order, Laplace-smoothed usages) runs beside the real one for every row; rows are also encoded alone, permuted and in other representations.""",
    "C06": """Per class a separate SLIM is fitted on the rows of that class and the code length of each row under each recomputed; the prediction must be a minimiser (ties within 1e-3 bits accept either).""",
    "C07": """Columns are re-derived from the code table of an identical SLIM, cells from the disjoint cover by the columns; which of equally used patterns makes the cut at k is left free.""",
    "C08": """Online checker of operation histories (4-14 operations) against a reference state; after each operation the partition invariant, sizes, supports and (for queries) an unchanged snapshot.""",
    "C09": """Conservation: multiset of records = reconstruction of all + residuals, and the same for random selections of identifiers (in random order, repeated). Oracle: the log itself.
Indexes: integers (negative, huge, multiples of ten, ranges), dates of all resolutions before and after 1970, mixed units, unsorted, repeated records. Families for combined structure, refits and refused indexes.""",
    "C10": """An independent implementation of the encoding (`vp/perlib.py`) recomputes each pattern's length, residual length and the totals; perfect cycles are planted and must come out as one cycle.""",
    "C11": """Each table row is parsed by an independent interpreter of the notation and expanded; compared with the reconstruction of that identifier. Rescaling by powers of ten is metamorphic. Drawings are parsed from DOT.""",
    "C12": """Random histories of fit/export/import over several miners, compared read by read with the exporting miner, files compared byte-wise as JSON.""",
    "C13": """Random trees and random operation sequences, compared with a recursive interpreter of 40 lines; inverse (corrections from occurrences), counts, keys, copies (mutated afterwards), factorisation.""",
    "C14": """Both extraction methods on single events against a quadratic reference DP over the cost function (up to 200 occurrences: minimal cost; above: partition only); the complete pool of whole runs is captured by
wrapping the selection and each candidate replayed and costed.""",
    "C15": """A recursive reference of the criterion accepts every tie-break (set of admissible cut lists); structural clauses hold on all data, also with conflicting ties, where several classes share a value.""",
    "C16": """Full lattice of itemsets over up to 8 items; left borders, discover and the border difference are compared with brute force.""",
    "C17": """After fit the rewritten graph is decoded with the code table (each embedding vertex replaced by its pattern, ports glued) and compared with the data up to isomorphism; both description lengths are recomputed
from closed forms; the sequence of lengths over accepted steps must not grow; a hang limit decides termination.""",
    "C18": """Embeddings against exhaustive backtracking, prequential/binomial code lengths against exact integers, candidates against all pairs of embeddings sharing a port, merging against a glued graph. Directed and
undirected graphs and multigraphs, many labels, odd label values.""",
    "C19": """An event log of method calls and callback calls; exactly-once and order are checked on it. Refused collections must leave the object untouched. Real miners are run with and without callbacks.""",
    "C20": """Shape, alphabet, distinctness and reproducibility exactly; sizes by 6-sigma bounds; descriptions against independent counts; global random state snapshotted.""",
    "C21": """Files with known content are written to scratch folders and loaded. The web is an in-process stand-in that records requests and injects failures and truncation at each point of a download; no socket is opened.""",
    "C22": """Definitions by brute force; inputs snapshotted; validators on both sides of each bound; options of pandas compared before/after.""",
    "C23": """Snapshots (deep digests) of data, parameters, random states, numpy/pandas options, warning filters, environment, working directory and open files around each call, for all nine estimators.""",
    "C24": """Baseline answers are obtained in a pristine forked process that has never fitted anything; then the same operations run interleaved at random in one process, or each estimator in its own thread with a
microsecond switch interval and yields injected at calls through a profile hook; the number of switches observed and distinct schedules are recorded. Process-wide memos show because pristine and shared answers differ;
the family `similar` uses nearly equal data and parameters to make keys collide.""",
    "C25": """Metamorphic: each database or log is mined as drawn and in another presentation and the results mapped back; fresh interpreters with other hash seeds compare whole outputs.""",
}

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()


def main():
    out = [HEAD.rstrip(), "", "## Properties", ""]
    for p in P:
        m = importlib.import_module("vp.props." + p["id"].lower())
        fq, ft = m.families("quick"), {f[0]: f[1] for f in m.families("thorough")}
        out += [f"### {p['id']} {p['title']}", "", " ".join(NOTES[p["id"]].split()), "",
                "- Workload: " + " ".join(m.RULE.split()) + ".",
                "- Families (cases quick / thorough): " + ", ".join(f"{f[0]} {f[1]}/{ft.get(f[0], '-')}" for f in fq) + ".",
                "- Assumptions: " + ("; ".join(m.ASSUMPTIONS) or "none") + ".",
                f"- Technique: {p['technique']}. {p['note']}",
                "- Planted bugs caught by this check: " + (", ".join(b["id"] for b in B if b["property"] == p["id"]) or "none planted") + ".", ""]
    out += [TAIL.rstrip(), ""]
    out += ["", "## Planted bugs", "", "Each is kept in `seeded/<id>/` and was run with `tools/plant.py --check`; every one is caught by the quick check of its property.", "",
            "| bug | property (check that catches it) | needs |", "|---|---|---|"]
    out += [f"| {b['id']} | {b['property']} | {' '.join(b['needs'].split())} |" for b in sorted(B, key=lambda b: (b["property"], b["id"]))]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
