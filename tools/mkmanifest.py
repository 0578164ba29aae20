#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(f"{here}/harness/src/main.rs").read()
done = set(re.findall(r'"(C\d\d)" =>', src))
TECH = {
 "C01": ("structure-aware fuzzing of the command line with crash/hang/exit-status oracle", "token soups, mutated valid trees, raw bytes and mutated Solidity"),
 "C02": ("metamorphic property test: two layouts of one abstract tree", "abstract trees rendered under two independent random layouts"),
 "C03": ("model-based property test of scaffold against a reference model", "random abstract trees"),
 "C04": ("model-based property test of scaffold against a reference model", "random abstract trees biased to nesting"),
 "C05": ("model-based property test of scaffold against a reference model", "random trees with hostile action and description text"),
 "C06": ("invariant over scaffold's output read by an independent lexer, plus formatter fixpoint", "random trees, also with name clashes"),
 "C07": ("metamorphic property test over option combinations", "random lists of files and options"),
 "C08": ("metamorphic property test: one file of several trees against its trees alone", "random multi-tree files and root faults"),
 "C09": ("mutation-based property test with the expected diagnosis as oracle", "one grammar rule broken at a random place of a random tree"),
 "C10": ("model-based property test of duplicate detection", "random trees over a small vocabulary with spelling variants"),
 "C11": ("mutation-based property test with the expected position as oracle", "random trees with faults at known positions under random layouts"),
 "C12": ("round-trip property test: scaffold, then check", "random trees and options"),
 "C13": ("model-based property test of check against a reference model", "random trees with edited Solidity files"),
 "C14": ("model-based property test of check against a reference model", "random trees with permuted Solidity files"),
 "C15": ("metamorphic property test: check before and after adding unrelated code", "random Solidity files and random unrelated code"),
 "C16": ("model-based property test of check against a reference model", "random contract names, missing and broken files"),
 "C17": ("model-based property test of the whole report", "random trees with edited Solidity files"),
 "C18": ("stateful property test: check, check --fix, check, check --fix", "random trees with edited Solidity files"),
 "C19": ("invariant over the tokens and comments before and after check --fix", "random trees with edited Solidity files"),
 "C20": ("stateful model-based test over command histories and injected write failures", "random histories of commands and edits"),
 "C21": ("differential property test: joint against single runs", "random lists of valid and invalid files"),
 "C24": ("model-based property test of the parser's result, and structure-aware fuzzing with invariants over positions", "random abstract trees and layouts, broken trees, mutated trees and token soups"),
 "C23": ("metamorphic property test over spellings of command lines, and mutation-based test of wrong ones", "random commands, options, orders and spellings, and faults in them"),
 "C22": ("repeat-run property test over fresh processes", "random inputs, repeated and from other directories"),
}
checks, na = [], []
for l in open(f"{here}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    t, what = TECH[i]
    if i not in done:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t,
        "level": "exploration",
        "level_note": f"Generated-input search ({what}) on the real {'library' if i == 'C24' else 'binary'} built from /repo; failures are shrunk to a replay file. "
                      "It shows the property on the cases explored, not on all; it trusts the harness's own model and Solidity reader.",
    })
m = {"version": 1, "setup_cmd": "bash bin/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Black-box property-based testing of the bulloak binary (C24: of the bulloak-syntax library); no hooks in /repo. See DESIGN.md."}
open(f"{here}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
