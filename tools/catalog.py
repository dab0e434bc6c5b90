"""The catalogue of properties: one source for properties.jsonl, MANIFEST.json
and the property section of DESIGN.md.  Run: python tools/catalog.py"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from entries import ENTRIES, NOTES, NOT_APPLICABLE  # noqa: E402

PY = "/opt/venv/bin/python"
B = "moving_mesh_transport/"


def put(mark, body):
    """Replace the section of DESIGN.md between two marks."""
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    a, b = f"<!-- {mark}: begin -->", f"<!-- {mark}: end -->"
    i, j = text.index(a) + len(a), text.index(b)
    with open(path, "w") as f:
        f.write(text[:i] + "\n\n" + body + "\n\n" + text[j:])


def main():
    props, checks, design = [], [], []
    for e in ENTRIES:
        pid = e["id"]
        path = os.path.join(VERIF, "pbt", "props", pid.lower() + ".py")
        ready = os.path.exists(path)
        if not ready and pid not in NOT_APPLICABLE:
            print("no module for", pid)
            continue
        props.append({
            "id": pid, "title": e["title"], "statement": e["statement"],
            "quantifier": {"over": e["over"], "text": e["text"]},
            "why_tests_cant": e["why"],
            "anchors": {"files": [B + f for f in e["files"]],
                        "mechanism": [{"name": n, "where": B + w}
                                      for n, w in e["mech"]],
                        "observe_at": e.get("observe", []),
                        "hook_needed": None}})
        assert len(e["title"]) <= 80, pid
        assert len(re.findall(r"[.!?](?:\s|$)", e["statement"])) <= 3, pid
        if not ready:
            continue
        checks.append({
            "property": pid, "quick_cmd": f"{PY} check.py {pid}",
            "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": e["tech"], "level": "exploration",
            "level_note": e["note"]})
        design.append(f"### {pid} {e['title']}\n\n{e['statement']}\n\n"
                      f"*Quantified over.* {e['text']}\n\n"
                      f"*Decided by.* {e['tech']}. {e['design']}\n\n"
                      f"*Assurance and assumptions.* {e['note']}\n")
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": f"{PY} tools/setup.py",
                   "checks": checks, "not_applicable": na, "notes": NOTES},
                  f, indent=1)
        f.write("\n")
    put("properties", "\n".join(design))
    found, fixed = [], []
    for line in open(os.path.join(VERIF, "known_findings.jsonl")):
        line = line.strip()
        if line.startswith("fixed: property="):
            pid, commit, what = line[len("fixed: property="):].split(" ", 2)
            fixed.append(f"| {pid} | {commit} | {what} |")
        elif line:
            k = json.loads(line)
            found.append(f"| {k['property']} | {k['what']} |")
    put("findings", "| Property | What fails |\n|---|---|\n"
        + "\n".join(found))
    put("fixes", "| Property | Commit | What failed |\n|---|---|---|\n"
        + "\n".join(fixed))
    caught = json.load(open(os.path.join(HERE, "seeded.json")))
    rows = []
    root = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(root)):
        m = {k: v.replace('|', '\\|') for k, v in json.load(open(
            os.path.join(root, name, "meta.json"))).items()}
        rows.append(f"| {name} | {m['property']} | {m['what_it_breaks']} | "
                    f"{m['needs']} | {caught.get(name, 'not run')} |")
    put("seeded", "| Name | Property | What it breaks | Needs | Caught by |\n"
        "|---|---|---|---|---|\n" + "\n".join(rows))
    print(len(props), "properties,", len(checks), "checks")


main()
