#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
TECH = "contract-based deductive verification: own VC generator over go/ssa of the current source, z3 and cvc5"
NOTE = {
 "C01": "proved for all credentials, networks and pointers",
 "C02": "proved for all byte strings; hex.DecodeString and cbor.Unmarshal by assumed contracts",
 "C03": "proved for all addresses and all texts against the contracts of the bech32 codec, which are proved",
 "C04": "proved for all prefixes, data and texts of any length (loop invariants); strings functions by assumed contracts",
 "C05": "proved for all 64-bit numbers and all inputs",
 "C06": "proved for all addresses and all byte strings; cbor, CRC-32 and base58 by assumed contracts",
 "C07": "proved for all address kinds and values; cbor.Marshal by assumed contract",
 "C08": "proved for all transactions with lists of any length; cbor by assumed contract",
 "C09": "proved for all transactions; cbor and blake2b by assumed contracts",
 "C10": "proved for all transactions and metadata; cbor and blake2b by assumed contracts",
 "C11": "proved for all transactions and parameters",
 "C12": "proved for all transactions whose amounts, sizes and fees stay below 2^64",
 "C13": "proved for all transactions whose totals stay below 2^64",
 "C14": "proved for any number of keys; signing by its contract (C19)",
 "C15": "proved for all builders (frame conditions)",
 "C16": "proved for all seeds, entropies and passphrases; hashes by assumed contracts",
 "C17": "proved for all keys and indices; HMAC by assumed contract",
 "C18": "proved for all keys from the contracts of the curve operations",
 "C19": "proved for all keys and messages from the contracts of scalar and curve arithmetic; SHA-512 by assumed contract",
 "C20": "proved for all inputs",
 "C21": "proved for all operands within the limb bounds",
 "C22": "proved for all points",
 "C23": "proved for all inputs; Blake2b by assumed contract",
 "C24": "proved for all configurations; exec and blockfrost client by assumed contracts",
 "C25": "proved for all backend answers; exec, strings, strconv and blockfrost client by assumed contracts",
 "C26": "proved for all transactions and backend answers; exec and HTTP by assumed contracts",
 "C27": "proved for all sources; JSON, files and backends by assumed contracts",
 "C28": "proved for all 32-byte strings from the proved contracts of field arithmetic; that a failure means there is no point rests on Euler's criterion",
}
CLAIMED = open("claimed.txt").read().split()
NA = {}
for i in range(1, 29):
    p = "C%02d" % i
    if p not in CLAIMED:
        NA[p] = "contracts for this property are not finished"
m = {"version": 1,
     "setup_cmd": "python3-vt -c \"import check; check.build_gossa()\"",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                 "technique": TECH, "level": "proof",
                 "level_note": NOTE[p] + "; trusted: engine/, gossa/ with go/ssa, the solvers, and the assumed contracts listed in the evidence; "
                 "a bounded replay harness on the real code accompanies the proof and is not counted as proof"} for p in CLAIMED],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "Every check exports the SSA of /repo's current tree and discharges all obligations of the property's units again."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
