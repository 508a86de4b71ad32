"""Rewrites MANIFEST.json and the per-property part of DESIGN.md from notes/text.py and the contract registry.
Run from /verif: /opt/veriftools/pyvenv/bin/python tools_manifest.py"""
import json
from notes.text import TEXT
from dv.main import registry

NA = {
 "D01": "a relation between two runs of the whole program that depends on set and dictionary iteration order and on the random module; no contract of one function call can state it and no prover here models those orders",
 "D02": "an isolation guarantee between processes that SQLite's WAL mode provides; it is not a contract of any function in /repo, and the verifier has no model of concurrent processes",
 "D03": "escaping is done by the Jinja2 and dominate libraries over template files and string markup; no contract within the verifier's reach (strings are uninterpreted) can express absence of markup injection",
}
reg = registry()
title = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("properties.jsonl")}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
doc = []
for p, (spec, proved, bounded) in TEXT.items():
    units = reg.props.get(p, [])
    assert bool(units) == bool(proved), p
    note = ("Proved for all inputs: " + proved + " ") if proved else "No function of this property is under contract yet. "
    note += " ".join(f"Bounded stand-in (run-time oracle on the real code, not counted as proved): {f} - {b}." for f, b in bounded)
    m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                        "technique": "contract-based deductive verification of the real code (SMT)" + ("; bounded stand-ins for the rest" if bounded else "")
                        if units else "bounded stand-in for contracts on the real code",
                        "level": "proof" if units else "exploration", "level_note": note.strip()})
    doc += [f"### {p} - {title[p]}", "", "*Specified.* " + spec, "", "*Proved, without bound.* " + (proved or "nothing yet."), ""]
    if units:
        doc += ["Units: " + ", ".join(f"`{u}`" for u in units) + ".", ""]
    if bounded:
        doc += ["*Bounded stand-ins.* " + " ".join(f"{f}: {b}." for f, b in bounded), ""]
doc += ["### Not applicable", ""] + [f"* **{k}** ({title[k]}): {v}." for k, v in NA.items()] + [""]
json.dump(m, open("MANIFEST.json", "w"), indent=1)
s = open("DESIGN.md").read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(doc) + "\n" + s[s.index(b):]
open("DESIGN.md", "w").write(s)
