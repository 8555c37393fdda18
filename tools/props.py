"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe), state=list(state)))


exec(open(os.path.join(HERE, "tools", "props_data.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"],
                       "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks: every check uses public API only. Repaired defects and known findings: "
                  "KNOWN_FINDINGS.txt."}
    skip = {n["property"] for n in NOT_APPLICABLE}
    for p in P:
        if p["id"] in skip:
            continue
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
