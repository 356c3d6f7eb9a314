#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the property modules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp import env  # noqa: E402

PY = "/opt/venv/bin/python -B"


def main():
    env.setup()
    props = [env.load(i) for i in env.all_ids()]
    with open(os.path.join(HERE, "vp", "not_applicable.json")) as f:
        na = json.load(f)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p.TITLE) <= 80, (p.ID, len(p.TITLE))
            n = p.STATEMENT.strip().count(". ") + 1
            assert n <= 3, (p.ID, n)
            f.write(json.dumps({"id": p.ID, "title": p.TITLE, "statement": p.STATEMENT, "quantifier": p.QUANTIFIER,
                                "why_tests_cant": p.WHY, "anchors": dict(p.ANCHORS, hook_needed=None)}) + "\n")
        for x in na:
            f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    man = {"version": 1,
           "setup_cmd": PY + " tools/selftest.py",
           "checks": [{"property": p.ID,
                       "quick_cmd": "{} check.py {} --tier quick".format(PY, p.ID),
                       "thorough_cmd": "{} check.py {} --tier thorough".format(PY, p.ID),
                       "evidence_file": "evidence/{}.json".format(p.ID),
                       "technique": "property-based testing: " + p.TECHNIQUE,
                       "level": "exploration", "level_note": p.LEVEL_NOTE} for p in props],
           "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in na],
           "notes": "One property-based harness (Hypothesis generators, Amaranth's own simulator driven in lock-step). See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    out = []
    for p in props:
        out.append("### {} - {}\n".format(p.ID, p.TITLE))
        out.append(p.STATEMENT + "\n")
        out.append("* Where: {}. Decided by: {}.".format(", ".join(p.ANCHORS["files"]), p.TECHNIQUE))
        out.append("* Bounds and trust: " + p.LEVEL_NOTE)
        out.append("* Why tests cannot: " + p.WHY)
        for c in p.CHECKS:
            out.append("* `{}`: {} ({} cases quick, {} thorough{})".format(
                c.name, c.rule, c.n["quick"], c.n["thorough"], ", plus an exhaustive enumeration" if c.enumerate else ""))
        for l in getattr(p, "NOTES", []):
            out.append("* Note: " + l)
        out.append("")
    for x in na:
        out.append("### {} - {} (not claimed)\n\n{}\n\n* Why not: {}\n".format(x["id"], x["title"], x["statement"], x["reason"]))
    path = os.path.join(HERE, "DESIGN.md")
    txt = open(path).read()
    a, rest = txt.split("<!-- generated by tools/gen.py -->")
    b = rest.split("<!-- end -->", 1)[1]
    with open(path, "w") as f:
        f.write(a + "<!-- generated by tools/gen.py -->\n\n" + "\n".join(out) + "<!-- end -->" + b)
    print(len(props), "properties,", len(na), "not applicable")


main()
