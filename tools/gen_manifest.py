#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # id: (technique, note)
 "C01": ("generated addresses against a layout model; round trip", "CIP-19 layout model written independently"),
 "C02": ("structured mutation fuzzing of the byte decoder; accept-iff-identical oracle, no panic", "acceptance of valid addresses judged by the address model"),
 "C03": ("generated addresses; text round trip against independent bech32/base58", "independent text codecs"),
 "C04": ("mutation fuzzing of address text; rejection oracle", "bech32's guarantee (up to 4 substitutions) and form checks; CRC collisions in Byron text are excluded by recomputation"),
 "C05": ("generated and mutated Byron addresses against a CBOR/CRC model", "independent CBOR reader/writer and CRC-32"),
 "C06": ("generated and enumerated numbers and byte strings; round trip and reference decoder", "all one- and two-byte strings are enumerated"),
 "C07": ("generated base addresses; conversions compared with directly built addresses", "address model"),
 "C08": ("generated values with canaries and later mutation; non-interference oracle", "canaries in spare capacity see writes past a slice's end"),
 "C09": ("generated strings and mutations against an independent bech32; round trip", "independent bech32 from BIP-173"),
 "C10": ("generated entropy, passphrases and seeds; differential against independent PBKDF2", "reference checked on published vectors"),
 "C11": ("generated keys and indices biased to carries; differential against big-integer derivation", "reference is math/big arithmetic"),
 "C12": ("generated keys; differential against big-integer curve arithmetic and BLAKE2b", "reference is affine math/big arithmetic"),
 "C13": ("generated keys and messages; verification by the standard library, reference signer, tampering", "Go's crypto/ed25519 verifies"),
 "C14": ("generated scalars, field elements and points biased to limb edges; differential and algebraic laws", "math/big reference"),
 "C15": ("generated messages of all lengths to several blocks; differential against an independent BLAKE2b", "reference BLAKE2b from RFC 7693"),
 "C16": ("generated transactions; independent strict CBOR decoder compared with the model", "decoder refuses non-minimal heads and trailing bytes"),
 "C17": ("generated query sequences and modifications; invariants over the history", "independent BLAKE2b"),
 "C18": ("model-based metadata histories; decoded data and hash against the model", "independent CBOR and BLAKE2b"),
 "C19": ("model-based builder histories; witnesses verified independently", "Go's crypto/ed25519 and reference public keys"),
 "C20": ("generated funding situations at fee and encoding boundaries; exact value conservation", "coverage of the fee judged by an independent size model"),
 "C21": ("generated funding situations, then built; linear minimum of the final bytes", "fee parameters up to 2^20 per byte and 2^36 fixed, sums below 2^63"),
 "C22": ("metamorphic: histories with and without queries; snapshots and canaries", "auxiliary-data hash field excluded (derived)"),
 "C23": ("generated transactions and parameters; exact formula and independent size model", "products below 2^64"),
 "C24": ("generated and damaged parameter files; model comparison and rejection", "null values are not judged (cardano-cli prints null for absent parameters)"),
 "C25": ("generated operation sequences against a recording stand-in for cardano-cli", "the stand-in records arguments exactly; option order is free"),
 "C26": ("generated, damaged and arbitrary answers from a stand-in for cardano-cli; fault injection", "table layout as printed by cardano-cli"),
 "C27": ("generated transactions submitted to a stand-in for cardano-cli; injected failures; file audit", "temporary files are looked for in TMPDIR"),
 "C28": ("generated server contents and injected failures behind a TLS stand-in for blockfrost", "5xx answers to queries are left out: the client library retries them for many seconds"),
 "C29": ("generated transactions and injected failures behind a TLS stand-in for blockfrost", "every status, dropped connections and cut answers"),
 "C30": ("generated task batches run concurrently under the race detector; alone/together differential", "schedules are the Go scheduler's; the race detector sees races on executed paths whatever their timing"),
 "C31": ("model-based builder histories; earlier results compared after every later step; two builders in turn", "independent decoding and verification"),
 "C33": ("stateful: generated histories of payments through both backends against a model ledger", "ledger model written from the Shelley rules; stand-ins for both backends"),
 "C34": ("generated batches of concurrent backend calls under the race detector; each answer compared with the model of the stand-ins", "stand-ins answer each call by its own arguments; schedules are the Go scheduler's"),
 "C35": ("generated runs of the built example programs; differential against independent implementations, model ledger behind the blockfrost stand-in", "reference checked on published vectors; phrases are encoded by the same BIP-39 library the examples use"),
 "C32": ("generated wallets; end-to-end differential against independent implementations of the standards", "reference checked on published vectors"),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = {
 "version": 1,
 "setup_cmd": "sh tools/setup.sh",
 "checks": [{
    "property": p["id"],
    "quick_cmd": "./check %s --tier quick" % p["id"],
    "thorough_cmd": "./check %s --tier thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"],
    "technique": "property-based testing (rapid): " + T[p["id"]][0],
    "level": "exploration",
    "level_note": "Explores generated cases with shrinking; no case explored broke the property. Trusted: " + T[p["id"]][1] + ".",
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: every property is observed through exported behaviour. Repairs of defects found are the fix: commits, listed in known-findings.txt. A failure is saved under replays/ and run again with ./check ID --replay FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
