#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, and how."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CLAIMS = {
 "C02": ("value-graph equivalence (gated SSA from MIR vs. ISA reference graph), normal forms + decision diagrams, random interpretation for residue",
         "other",
         "For all operand values and machine states: each opcode's handler, helper and register arithmetic has the same value graph as the ISA definition. Residual comparisons that normalisation does not close (counted in the evidence) are decided by random interpretation only. Trusts rustc MIR, the std-callee table and the reference."),
 "C01": ("value graph of the decoder (MIR) compared as decision diagrams with the ISA encoding tables", "proof",
         "For every 32-bit instruction word and every fetch outcome: what the configured factories return (or reject) equals the encoding tables of sa/isa.py, for RV64, RV32 parcels, the optional extensions and the three versions. Exhaustive over the word by decision diagram. Trusts rustc MIR, the std-callee table and the tables."),
 "C06": ("value graph of decode() with fusion, enumeration of the opcode tests in it, per-alias-class value-graph equivalence of the fused operation with the sequential composition", "other",
         "All opcode sequences whose fusion the graph admits, both versions, all operands; comparisons not closed by normal form or diagram (counted) are decided by random interpretation."),
}
PENDING = "check under construction"
NA = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 sa/setup.py", checks=[], not_applicable=[],
         notes="Static analysis only: a rustc_private driver dumps the MIR of /repo's current tree, the .S files are preprocessed and parsed, and every check decides its property on those. See DESIGN.md.")
for i in ids:
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 sa/run.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 sa/run.py " + i,
                                technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
