#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json

TRIE = ("TLA+ (TLC): walks of the model's state graph and random histories are executed on the real tries and every "
        "recorded call and answer is validated by TLC against the specification")
MERKLE = TRIE.replace("tries", "Merkle trees")
KEYS = ("TLA+ (TLC): the model's adversary deliveries and histories are executed on the real key pairs and every recorded "
        "call and answer is validated by TLC against the specification")
PATHS = TRIE.replace("tries", "nibble paths and nodes")
HELPERS = TRIE.replace("tries", "helpers")
THREADS = ("TLA+ (TLC): interleavings of storage accesses found by model-checking MCThreads, and random schedules switching "
           "between lines or instructions of the code, are executed on real threads; the record of every thread is "
           "validated by TLC against the specification")
NOTE = {
    "threads": "The model's interleavings of two tries on one storage are checked exhaustively and executed on the code; "
               "schedules at line and instruction level are sampled. An answer counts as disturbed only if the same "
               "thread answers rightly when the threads run one after the other. Trusts TLC and the scheduler.",
    "helpers": "Every recorded answer is decided by the specification; directory trees and running hash objects are explored exhaustively up to a bound, and the code is bound to it on these transitions and on random histories. Trusts TLC, "
               "its operator overrides (digests), the operating system for files and the clock, and the harness.",
    "trie": "Every recorded answer is decided by the specification, which computes contents, canonical roots and required proof "
            "nodes itself. The model's algorithms are checked exhaustively over the universes named in the evidence; the code "
            "is bound to it on all transitions of these universes and on random histories. Trusts TLC, its operator "
            "overrides (Keccak, digests, hex arithmetic) and the harness that records the calls.",
    "keys": "The symbolic model is checked exhaustively for a few users, data and envelopes; the code is bound to it on the "
            "chosen scenarios and on random histories with 1024-bit keys (one full-size pair). Trusts TLC, pycryptodome "
            "primitives and the harness; cryptographic strength itself is assumed, not shown.",
}
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    n = int(i[1:])
    keys = 20 <= n <= 24
    checks.append({
        "property": i,
        "quick_cmd": f"./check.py {i} --tier quick",
        "thorough_cmd": f"./check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": KEYS if keys else MERKLE if 16 <= n <= 19 else PATHS if n == 30 else HELPERS if n == 31 else THREADS if n == 32 else TRIE,
        "level": "model_checking",
        "level_note": NOTE["keys" if keys else "helpers" if n == 31 else "threads" if n == 32 else "trie"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.py setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "Language: TLA+ with TLC. No hooks in /repo: everything is observed through the public interface. "
             "Known findings and repairs: known_findings.txt. Design: DESIGN.md.",
}, open("MANIFEST.json", "w"), indent=1)
