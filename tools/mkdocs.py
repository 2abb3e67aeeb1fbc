#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": p["mechanism"]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe_at"]:
                a["observe_at"] = p["observe_at"]
            a["hook_needed"] = p["hook"]
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    na = {x["property"] for x in props.NOT_APPLICABLE}
    m = {
        "version": 1,
        "setup_cmd": "./run --setup",
        "hooks": {
            "guard": "QLEVER_TESTABLE_LIMITS",
            "enable": "-DADDITIONAL_COMPILER_FLAGS=-DQLEVER_TESTABLE_LIMITS "
                      "(lib/vbuild.py defines it for all builds); the limits "
                      "are then read from environment variables QLEVER_*",
            "source_commits": props.HOOK_COMMITS},
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./run %s" % p["id"],
            "thorough_cmd": "./run %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"]}
            for p in props.PROPS if p["id"] not in na],
        "not_applicable": props.NOT_APPLICABLE,
        "notes": "Each command builds what it needs from /repo into the "
                 "git-ignored folder build/ (compiler cache in build/ccache); "
                 "see DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    with open(os.path.join(HERE, "DESIGN.in.md")) as f:
        text = f.read()
    parts = []
    for p in props.PROPS:
        parts.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["design"]))
        if p["id"] in na:
            parts[-1] += "\nNot claimed: %s\n" % [
                x["reason"] for x in props.NOT_APPLICABLE
                if x["property"] == p["id"]][0]
    rows = ["| %s | %s | %s |" % (a, json.load(open(os.path.join(
        ROOT, "seeded", a, "meta.json")))["property"], b)
        for a, b in props.SEEDED]
    assert sorted(a for a, _ in props.SEEDED) == sorted(
        os.listdir(os.path.join(ROOT, "seeded"))), "SEEDED is not current"
    known = open(os.path.join(ROOT, "known-findings.txt")).read()
    text = text.replace("@@PROPS@@", "\n".join(parts))
    text = text.replace("@@SEEDED@@", "\n".join(rows))
    text = text.replace("@@KNOWN@@", "".join(
        "* " + x + "\n" for x in known.splitlines() if x))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text)


main()
