#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  `python3 props.py` regenerates both."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, observe=(), technique="runtime monitoring: randomized workload under ASan+UBSan with an independent oracle", level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()), files=files, mech=mech, note=" ".join(note.split()), observe=list(observe), technique=technique, level=level))

I, S, F, H, C = "inputs", "schedules", "fault_sequences", "histories", "configurations"
exec(open(os.path.join(V, "props_data.py")).read())
NA = globals().get("NOT_APPLICABLE", {})

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"] or ["public API return values, exceptions and sanitizer reports"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in NA: na.append({"property": p["id"], "reason": NA[p["id"]]}); continue
        if not os.path.exists(os.path.join(V, "checks", p["id"], "check.json")):
            na.append({"property": p["id"], "reason": "no check built yet"}); continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": {"guard": "MML_VERIF_HOOKS", "enable": "no hooks were needed: every monitored effect is visible at the public API, and the sanitizers instrument the headers as they are", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Every check compiles its harnesses from /repo's working tree into a scratch directory that it removes; known findings are in known_findings.txt; DESIGN.md describes oracles and bounds."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties,", len(checks), "claimed,", len(na), "not applicable")
main()
