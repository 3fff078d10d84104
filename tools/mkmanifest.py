#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # deciding method per property
"P01": "property-based testing: random expression trees against a 64-bit fixed-point reference evaluator",
"P02": "property-based testing: random string expressions against a character-sequence model",
"P03": "stateful property-based testing: string-manipulating histories against a value-store model plus a storage-count invariant",
"P04": "stateful property-based testing: variable/array histories against a map model",
"P05": "property-based testing: generated programs, differential against a reference interpreter",
"P06": "metamorphic property-based testing: same program under different options and layouts; size bound on every accepted program",
"P07": "property-based testing: generated label sets and references against a name table model",
"P08": "property-based testing: generated DATA layouts and READ/RESTORE sequences against a list model",
"P09": "fuzzing: grammar-based, token-soup and byte-mutation programs under AddressSanitizer/UBSan with a probe program afterwards",
"P10": "property-based testing plus exhaustive enumeration: number/text round trips against exact decimal arithmetic, all 256 character codes",
"P11": "stateful property-based testing: console command histories against a terminal model, all cells compared",
"P12": "stateful property-based testing: BG command histories against a 64x64 grid model",
"P13": "stateful property-based testing: drawing histories against a pixel-array model and metamorphic relations",
"P14": "stateful property-based testing: sprite command/frame histories against a per-sprite model",
"P15": "property-based testing: random sprite configurations against an exact polygon-overlap oracle and metamorphic relations",
"P16": "stateful property-based testing: save/load/modify histories against a model of banks and files in a scratch folder",
"P17": "property-based testing: compress/decompress round trips on structured and random data",
"P18": "property-based testing: SORT/RSORT/SWAP on random arrays against a sorted-permutation oracle",
"P19": "stateful property-based testing: memory-access histories against a byte-array model",
"P20": "stateful property-based testing: interleaved typing/reading histories against a queue model, press histories against a button model",
"P21": "stateful property-based testing: system-variable read/write histories against a model",
"P22": "stateful property-based testing: COL/CHR definition histories against a table model",
"P25": "differential stateful testing: whole DIRECT mode sessions against the same lines and programs run one by one",
"P27": "model-based property-based testing: main() with a scripted window against the same system driven directly by the modelled input",
"P29": "differential property-based testing: the same program on cleared, used and random memory with the real allocator, with resource accounting over a second run",
"P28": "model-based property-based testing of the converter in-process under AddressSanitizer, generated, cut and damaged files",
"P26": "differential property-based testing: pictures rasterized from the real vertex arrays and the real shader against a composition of the layers' contents",
"P24": "stateful property-based testing: touch scripts interleaved with panel statements against a keyboard model",
"P23": "fuzzing: mutated and random resource files under AddressSanitizer with a before/after comparison",
}
NOTE = "Bounded by the generated cases (counts in the evidence file); trusts the model in harness/{f}.cc, the plain-C view in harness/shim.c and AddressSanitizer. The interpreter is compiled from /repo's working tree with its printf debugging silenced and allocations wrapped; assertions stay enabled."
EXTRA = {}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]; f = i.lower()
    if os.path.exists(os.path.join(V, "harness", f + ".cc")) and i not in NA:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
                       "level_note": (EXTRA.get(i, "") + " " if i in EXTRA else "") + NOTE.format(f=f)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
