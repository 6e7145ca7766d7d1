#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Bounded: the compiled LLVM IR of the module's functions is executed symbolically, every value of the window of "
        "arbitrary bytes or characters is covered in every listed surrounding, buffer length and flag, and the verdict is Z3's. "
        "Nothing is claimed for longer windows, other surroundings or larger sizes. ")
X = {
    "C01": "Window of up to 7 (quick 5) bytes, buffers of 0..23 bytes, surroundings up to 5,000 bytes.",
    "C02": "Window of up to 3 (quick 2) characters, buffers of 0..23 bytes, surroundings up to 5,000 characters.",
    "C03": "Oracle: the well-formedness table of the Unicode standard, written out in harness/src/spec.rs.",
    "C04": "Oracle: the UTF-16 definition, written out in harness/src/spec.rs.",
    "C05": "Oracle: the UTF-32 definition, written out in harness/src/spec.rs.",
    "C06": "Oracle: the UTF definitions, written out in harness/src/spec.rs.",
    "C07": "Oracle: the published tables in oracle/tables, kept apart from /repo.",
    "C08": "Oracle: the published tables in oracle/tables, kept apart from /repo.",
    "C09": "Oracle: index-big5 in oracle/tables and the WHATWG decoder steps in harness/src/spec.rs.",
    "C10": "Oracle: index-big5 in oracle/tables and the WHATWG encoder steps in harness/src/spec.rs.",
    "C11": "Oracle: index-jis0208 in oracle/tables and the WHATWG decoder steps in harness/src/spec.rs.",
    "C12": "Oracle: index-jis0208 in oracle/tables and the WHATWG encoder steps in harness/src/spec.rs.",
    "C13": "Three characters of Shift JIS are recorded findings (known-findings.json); every other loss is reported.",
    "C14": "Encoder and decoder of the crate against each other.",
    "C15": "Every cut inside and next to the window, and selected cuts far from it.",
    "C16": "Every cut inside and next to the window.",
    "C17": "Buffers of 0..29 bytes and around 256 and the length of the text.",
    "C18": "Buffers of 0..29 bytes and around 256 and the length of the encoded form.",
    "C23": "Runs of up to 64 (thorough 120) arbitrary ASCII characters.",
    "C24": "Old contents arbitrary in buffers of up to 100 bytes, and in the last 100 bytes of longer ones.",
    "C25": "Input and buffer moved by 0..8 bytes against each other and against 64-byte boundaries.",
    "C26": "One call in between: of the same encoding, UTF-8, UTF-16BE, Big5, Shift JIS or a code page, in either direction.",
    "C27": "Oracle: the unit by unit model of harness/src/spec.rs.",
    "C28": "Oracle: the unit by unit model of harness/src/spec.rs.",
    "C30": "UTF-16 windows of 1..6 bytes and UTF-32 windows of 1..8, pairs of characters, buffers of 0..60 bytes and around block sizes.",
    "C31": "Buffers of 0..29 bytes, ample ones and 65,536 bytes.",
    "C32": "Inputs of up to about 300 characters around the window.",
    "C29": "Chunks of 1..8 bytes, buffers of 4..32 bytes.",
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled LLVM IR, every verdict and decision by Z3 over all values within the bounds, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": NOTE + X.get(i, "") + " Trusted: rustc's lowering to IR, the executor's reading of the IR (checked on every run by replaying sampled path models natively), Z3.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is decided at the crate's public functions. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
