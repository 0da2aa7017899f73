#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TEST = "TLA+ specification checked with TLC; TLC's behaviours replayed on the library and recorded behaviours validated by TLC"
NOTE = {
 "default": "Every behaviour of the specified session machine within small bounds is explored by TLC (design check) and replayed on the real library; "
            "further seeded behaviours of the real library with larger operands are validated step by step against the specification. ",
 "value": "Values are compared as residues modulo a 16-bit prime under three positive assignments; a value the specification cannot determine "
          "(irrational powers, powers outside the stated domain) is not compared. ",
 "tower": "In addition values are compared in two towers of finite fields, where powers with any exponent and logarithms of positive (square) values are determined. ",
 "trust": "Trusted: TLC, the harness's encoding of expressions, and the specification's semantics.",
}
TOWER = {"C01", "C02", "C03", "C05", "C08", "C15", "C19"}
VALUE = {"C08", "C01", "C02", "C03", "C05", "C06", "C07", "C11", "C12", "C15", "C19", "C20"}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TEST, "level": "model_checking",
                   "level_note": NOTE["default"] + (NOTE["value"] if p in VALUE else "") + (NOTE["tower"] if p in TOWER else "") + NOTE["trust"]})
m = {"version": 1, "setup_cmd": "cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir .work/target",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks: the public API exposes the whole state of a session (the expressions). Repairs in /repo are the fix: commits listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
