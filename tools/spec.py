#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one source for both)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level_note=None, na=None, technique=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, level_note=level_note, na=na, technique=technique, observe=observe))


KANI = "bounded symbolic execution of the Rust code (Kani/CBMC, SAT) with native replay of counterexamples"
SYMX = "symbolic execution of the LLVM IR rustc emits for the Rust code (own executor symx, z3 queries) with native replay of counterexamples"
D = "src/datetime/"
MODEL = ("Trusts Kani/CBMC and, where the real chrono is too large to encode, a small chrono stand-in "
         "(chrono-model) whose behaviour C01 checks against the real one. Outside the stated bounds nothing is claimed.")

SYMX_MODEL = ("Trusts symx (/verif/symx, an LLVM IR executor; every counterexample is replayed natively, every harness has "
              "witnesses), z3, and the chrono stand-in C01 checks. Outside the stated bounds nothing is claimed.")

exec(open(os.path.join(V, "tools", "properties.py")).read())


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"] or [], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "technique": p["technique"] or KANI,
            "level": "other",
            "level_note": p["level_note"] + " " + (SYMX_MODEL if p["technique"] == SYMX else MODEL),
        } for p in P if not p["na"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
