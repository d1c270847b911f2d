#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, built=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, built=built))

prop("C01", "Recognition accepts exactly the words RFC 5234 says a rule derives",
 "For every grammar, rule and input, validation reports true exactly when the rule derives the whole input under RFC 5234/7405 (ASCII-only case folding of strings, UTF-8 characters for num-vals, repetition bounds, core rules, case-insensitive rule names), with left, hidden and mutual recursion, nullable elements and ambiguity included. "
 "The three engines (IsValid, Parse/ParseForest, ParseBSR) agree with that verdict and with each other, and an unknown rule is reported as such. (The two forest engines refuse, as ErrGrammarTooLarge, repetition bounds above 65536 over elements that may be empty.)",
 ["programs", "inputs"], "every grammar, start rule and input byte string",
 "The suite tries some dozens of fixed grammar/input pairs; the verdict is a relation between an arbitrary context-free grammar and an arbitrary string.",
 ["recognize.go", "leftrec.go", "sppf.go", "bsr.go", "grammar.go", "utils.go"],
 [("reachable end positions with seed growing for left recursion", "recognize.go"), ("GLL descriptors, GSS and SPPF", "sppf.go"), ("GLL with binary subtree representation", "bsr.go")],
 "property-based testing: random grammars and inputs against a reference fixpoint recogniser",
 "Sampled grammars (1-8 rules) and inputs (up to 400 bytes); trusts the harness's own fixpoint recogniser.")

prop("C02", "Tree counts and the ambiguity flag are exact",
 "For every grammar, rule and input, the number of trees reported by the shared forest and by the binary-subtree forest is the exact number of distinct derivations of the input (a choice of alternative, repetition count and split at every step): 0 when the input is rejected, -1 when there are infinitely many. "
 "The ambiguity flag is set exactly when that number is infinite or larger than one.",
 ["programs", "inputs"], "every grammar, start rule and input byte string",
 "Tests pin a handful of ambiguous grammars; counts depend on how spans, alternatives and repetition counts interact in arbitrary grammars.",
 ["sppf.go", "bsr.go"],
 [("packed forest counting with cycle detection", "sppf.go"), ("counting over BSR elements", "bsr.go")],
 "property-based testing: random grammars and inputs against a reference derivation counter",
 "Sampled grammars, inputs up to 18 bytes; counting work capped at 300000 items (cases above are skipped and counted).")

prop("C03", "Extracted parse trees are genuine derivations of the input",
 "The tree handed out for an accepted input is a derivation of the whole input from the requested rule: every node's span is tiled in order by its children, every rule node's children realise one alternative of that rule within its repetition bounds, every leaf is the text of a terminal of that rule, and a rejected input has no tree. "
 "When the input has exactly one derivation, the shared forest and the binary-subtree forest hand out the same tree.",
 ["programs", "inputs"], "every grammar, start rule and input",
 "Tests compare trees of a few fixed inputs; validity of a tree is a relation to arbitrary grammars and inputs.",
 ["sppf.go", "bsr.go"],
 [("first-derivation extraction", "sppf.go"), ("first-derivation extraction", "bsr.go")],
 "property-based testing: random grammars and inputs, trees judged by an independent derivation checker",
 "Sampled grammars, inputs up to 40 bytes; trusts the harness's tree checker.")
exec(open(os.path.join(ROOT, "meta", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "meta", "more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])), ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if not p["built"]:
        na.append(dict(property=p["id"], reason="check not built yet")); continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: every check drives the public API, the command-line tools, or parsers generated from grammars. Seeds come from VERIF_SEED; see DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
