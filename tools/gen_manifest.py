#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks built into the harness."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
built = [l.split()[0] for l in open(f"{here}/harness/modules")]
MODEL = "independent model of LNPBP-4/LNPBP-81 written on plain SHA-256"
TECH = {
 "C01": "property-based testing: generated sources, proofs opened by the library and by a reference verifier",
 "C02": "mutation-based property testing of proofs against a reference verifier",
 "C03": "differential property testing of slot computation against big-integer arithmetic",
 "C04": "differential property testing of tree construction against a reference search",
 "C05": "differential and metamorphic property testing of commitment ids against a reference model",
 "C06": "stateful (model-based) property testing of conceal histories",
 "C07": "stateful (model-based) property testing of merge histories and algebraic laws",
 "C08": "round-trip property testing of block/proof conversions against a reference model",
 "C09": "metamorphic non-disclosure property testing over all serialised forms",
 "C10": "differential property testing of merklization against a reference model",
 "C11": "property testing of near-miss input pairs (search for collisions and preimage confusion)",
 "C12": "stateful property testing of commit engine programs against a reference stream",
 "C13": "property testing of derived encodings over generated values of many type shapes",
 "C14": "property testing of layouts: value independence, comparison with a reference, parsing of the rendering",
 "C15": "differential property testing of tagged and length-prefixed hashing",
 "C16": "property testing of verification over generated (instrumented) schemes and sources",
 "C17": "property testing of verification over generated instrumented schemes",
 "C18": "property testing of verification over generated instrumented schemes",
 "C19": "round-trip, byte-mutation and differential property testing of binary encodings",
 "C20": "differential property testing of encodings against the compiled type system",
 "C21": "round-trip and malformed-input property testing over JSON, CBOR and bincode",
 "C22": "exhaustive and random property testing of reserved bytes",
 "C23": "structured fuzzing of decoders followed by random operation sequences with panic detection",
 "C24": "property testing of seal verification over generated link outcomes (call-recording doubles)",
 "C25": "round-trip and differential property testing of seal witnesses",
 "C26": "stateful (model-based) property testing of status histories",
 "C27": "model-based property testing of validation over generated data sets with recorded calls",
 "C28": "round-trip and malformed-input property testing of text forms",
 "C29": "stateful property testing of the tracker against a stack model",
 "C30": "differential testing of generated scenarios across sixteen builds of the libraries (features x profiles)",
 "C31": "property testing of matching over generated pairs of disclosures",
 "C32": "property testing of entropy handling, statistical freshness test",
 "C34": "stateful property testing of a program over generated directory contents, against the published files",
 "C35": "property testing of the texts, sources and debugging forms of generated failures, pairwise comparison",
 "C33": "property testing of a macro over generated programs (type definitions compiled and run, results compared to a reference model)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        note = (f"Randomised and (for small domains) exhaustive search over generated cases, {TECH[i]}; "
                "no proof of absence. Trusts SHA-256 (sha2 crate) and the reference model in harness/src/model.rs.")
        if i == "C30":
            note = "Compares outcomes of the same generated requests in sixteen builds (eight feature sets, two profiles); trusts the compiler, cannot see other targets."
        if i == "C33":
            note = "Search over generated type definitions, compiled by the installed rustc against the built libraries and run; trusts the compiler and the generator's own expected encodings."
        if i == "C34":
            note = "Search over generated histories of runs of the built generator in scratch directories; trusts the files published in stl/ and the argument parser of strict_types."
        if i == "C13":
            note += " One known finding (known_findings.json): the conceal strategy conceals twice."
        if i == "C31":
            note += " One known finding (known_findings.json): matching of proofs compares the first path element only."
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"bash run.sh {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: all checks use the public API. See DESIGN.md.")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
