#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
P = "contracts/halo-pair/src/contract.rs"
ST = "contracts/halo-pair/src/state.rs"
F = "contracts/halo-factory/src/contract.rs"
FS = "contracts/halo-factory/src/state.rs"
FQ = "contracts/halo-factory/src/query.rs"
R = "contracts/halo-router/src/contract.rs"
RO = "contracts/halo-router/src/operations.rs"
RS = "contracts/halo-router/src/state.rs"
T = "contracts/halo-token/src/contract.rs"
A = "packages/haloswap/src/asset.rs"
Q = "packages/haloswap/src/querier.rs"
B = "packages/bignumber/src/math.rs"
out = []
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_body.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in out: f.write(json.dumps(d) + "\n")
