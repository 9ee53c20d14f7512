#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the property modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: generated domain texts against a reference model of their meaning",
    "C02": "property-based testing: generated problem texts against a reference model of their meaning",
    "C03": "property-based testing: print/parse round trip on parsed and built domains",
    "C04": "property-based testing: print/parse round trip on parsed and built problems",
    "C05": "property-based testing: plan round trip and equality against a step list",
    "C06": "metamorphic testing: random relayout and comments of valid and invalid token lists",
    "C07": "metamorphic testing: permuted content, other processes and hash seeds",
    "C08": "property-based testing: differential against an independent substitution",
    "C09": "property-based testing: truth tables of generated expressions",
    "C10": "property-based testing: exact rational evaluation of generated expressions",
    "C11": "property-based testing: twins and single-edit mutants of generated objects",
    "C12": "property-based testing: copy and pickle round trips across interpreters",
    "C13": "property-based testing: injected typing faults against a coherence predicate",
    "C14": "property-based testing: injected domain/problem mismatches against a predicate",
    "C15": "property-based testing: injected plan faults against a predicate",
    "C16": "property-based testing: feature x place x requirements against a grant table",
    "C17": "stateful property-based testing: parse histories against fresh parsers",
    "C18": "fuzzing: token soup, corrupted and raw texts; exception families and an independent recogniser",
    "C19": "property-based testing: generated file triples, command line process against the library",
    "C20": "property-based testing: generated names x positions against a name predicate",
    "C21": "property-based testing: generated hierarchies and heads against a subtype relation",
    "C22": "property-based testing: nested re-binding against a scoping resolver",
    "C23": "stateful property-based testing: operation histories against an untouched twin",
    "C24": "property-based testing: generated typed lists against a grouping model",
    "C25": "property-based testing: order axioms and sorting on generated collections",
    "C26": "property-based testing: generated contents in every kind of collection against the reference model",
    "C27": "metamorphic testing: single-edit corruptions in two layouts, viable prefixes",
    "C28": "property-based testing: single injected faults, the names in the error message against the culprit",
    "C29": "metamorphic testing: random injective renamings of generated documents, valid and edited",
    "C30": "metamorphic testing: generated documents with and without unrelated declarations",
}
NOTE = (
    "Searches generated inputs for a counterexample against an independent oracle; silence means none was found "
    "within the explored sizes (see evidence), not a proof. Trusts the generators, renderer and reference model in pv/."
)
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "pv", "props", p.lower() + ".py")):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append(
        {
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"./check.sh {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH[p],
            "level": "exploration",
            "level_note": NOTE,
        }
    )
out = {"version": 1, "setup_cmd": "./check.sh --help", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
