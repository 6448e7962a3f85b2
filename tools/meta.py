#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, level_note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, note=level_note, na=na))


N = "falcon/nistfalcon/src/"
R = "pythonref/"

prop("C01", "SHAKE256 streams equal the standard however input and output are split",
     "For every message and every way of splitting it into absorb calls and the output into squeeze calls (empty and "
     "block-boundary pieces included), the C and the Python SHAKE256 streams produce exactly the bytes FIPS 202 "
     "defines for the concatenated message. Instances used side by side do not influence each other, and "
     "re-initialising an instance forgets everything it held; the Python stream also honours a caller-chosen rate and "
     "domain byte.",
     ["inputs", "histories"], "all messages, all sequences of absorb/flip/squeeze sizes, several instances interleaved",
     "the tests hash a few fixed strings with one absorb and one squeeze",
     [N + "shake.c", R + "shake.py", R + "keccak.py"],
     [("absorb and squeeze through a position pointer", N + "shake.c"), ("KeccakHash.absorb/squeeze/pad", R + "keccak.py")],
     "exhaustive TLC model of the pointer logic for all chunkings at rate 4; its behaviours and seeded random call "
     "sequences replayed on the real code and every output byte compared by TLC with Keccak.tla")
prop("C02", "The Keccak-256 counter generator: phases, capacity and exact stream",
     "The C and the Python generators output the blocks Keccak-256(Keccak-256(inputs) || big-endian 64-bit counter) for "
     "counters 0, 1, 2, ..., for every split of the inputs and of the output requests. Input after finalisation, a "
     "second finalisation, output before finalisation and input beyond 4096 bytes are refused and change nothing: the "
     "stream afterwards is the one of the accepted inputs.",
     ["inputs", "histories"], "all call sequences and sizes, up to counters above 65535",
     "the tests extract a few short outputs from fixed inputs and never check refusals' effect or long streams",
     [N + "keccak_prng.c", R + "keccak_prng.py"],
     [("input buffer, finalised flag and output block buffer", N + "keccak_prng.c"), ("KeccakPRNG", R + "keccak_prng.py")],
     "exhaustive TLC model of all call sequences at toy sizes; behaviours replayed at the real sizes; every byte and "
     "refusal compared by TLC with the specification")
prop("C03", "Keccak-256 digests and the hash-chain generator are exact",
     "The incremental Keccak-256 digest (C) of any message in any split equals Keccak-256 of the whole message, also with "
     "two digests in progress at once. The Python hash-chain generator returns exactly the requested number of bytes of "
     "H(m) || H(H(m)) || ..., for any sequence of read sizes, and refuses input once reading has begun.",
     ["inputs", "histories"], "all messages up to 65538 bytes, all splits and read sizes",
     "the tests compare a handful of digests and only ever read two bytes at a time",
     [N + "keccak256.c", R + "keccaxof.py"],
     [("keccak_init/update/final", N + "keccak256.c"), ("KeccaXOF", R + "keccaxof.py")],
     "TLC behaviours of the absorbing model replayed as digests, all lengths 0..289 enumerated, every digest compared by "
     "TLC with Keccak.tla")
prop("C04", "BLAKE2s generator and the BLAKE2s hash of field elements are exact",
     "The BLAKE2s counter generator outputs BLAKE2s(BLAKE2s(inputs) || big-endian 64-bit counter) blocks for every split "
     "of inputs and outputs and refuses, without effect, calls out of order or beyond 1024 input bytes. The hash of a "
     "list of field elements equals BLAKE2s-256 of their 2-word or 8-word layout (flag and byte order as documented), "
     "read little-endian and reduced modulo the field prime, for every list, both encodings and both word orders.",
     ["inputs", "histories"], "all call sequences; all lists of 256-bit values",
     "the tests use three fixed vectors",
     [R + "blake2s_prng.py", R + "blake2s/blake2s.py"],
     [("Blake2sPRNG", R + "blake2s_prng.py"), ("calculate_blake2s_hash_from_felt252s", R + "blake2s/blake2s.py")],
     "exhaustive TLC model of the call protocol, replayed; outputs compared by TLC with Blake2s.tla")

exec(open(os.path.join(ROOT, "tools", "props2.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props2.py")) else None


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"] or not os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": p["na"] or "its check is not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "TLA+ specification checked with TLC; its behaviours replayed into the code and recorded traces validated by TLC",
            "level": "model_checking", "level_note": p["note"]})
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks: everything the specification talks about is visible at the public interfaces. "
                        "See DESIGN.md."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
