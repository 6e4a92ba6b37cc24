"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "C03-own-register": "readouts into the caller's registers added to the words",
    "C09-prefix-marker": "twelve qubits whose names share prefixes",
    "C09-shared-round-counter": "programs with different numbers of rounds and parsing after every one",
    "C11-list-width": "",
    "C13-class-level-keys": "every order of kinds in one process against a process with one kind",
    "C13-layout-memo": "lattices of equal size and other sides in one process",
    "C13-params-list": "registers built repeatedly from the same lists",
    "C18-chain-count-cache": "both bases decoded by one decoder with an error probability",
    "C18-matched-graph-edits": "graphs compared before and after matching and drawing",
    "C18-sorts-callers-list": "hits passed in every order, arguments compared with deep copies",
    "C19-rounded-posterior": "tables one shot apart",
    "C22-default-merge": "sweeps without named rates in the words",
    "C24-zip-short": "free runs with more rates than workers and than eight",
    "C16-short-memory": "fault sets in neighbouring rounds of long memories",
    "C23-points-in-memory": "words of saves by several benchmarks and processes",
    "C24-resume": "a second parallel sweep whose results differ from the first",
    "C27-path-counts-on-decoder": "error graphs of both bases with weights made at the same time",
    "C26-one-per-size": "directories with two files of one height",
}
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
d = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    note = f" (first missed: {MISSED[s]})" if MISSED.get(s) else ""
    rows.append(f"| {s} | {m['needs']} | {m.get('caught', m['property'])}{note} |")
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k[1] + f"{len(rows) - 2} planted bugs.\n\n" + "\n".join(rows) + "\n" + k[2], t, flags=re.S)
open(p, "w").write(t)
