#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = lambda *fs: ["src/" + f for f in fs]
def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note, hook=hook)
M = lambda *ps: [{"name": n, "where": "src/" + w} for n, w in ps]
SAMPLED = "Sampling: held on the executions generated by the seed, not a proof over all inputs. "
MODEL = "Trusts an independent model of the protocol specification (harness/src/model.rs) built on the same curve, field and hash primitives crates. "
ROWS = [
P("C01", "Honest bundles always build, prove, sign and verify",
  "Every satisfiable request (any bundle type, any owned notes under the anchor, any recipients, values and memos whose balance is representable) can be built, proven with the proving key, signed by the holders of the spend keys and finalized. The resulting bundle passes proof verification, every spend authorization signature, the binding signature and batch validation under its signature hash, also after its parts are serialized and reassembled.",
  ["inputs", "configurations", "histories"], "all requests: bundle types, 0..n spends and outputs, edge values, tree positions, key scopes, signing orders, random streams",
  "Existing tests build one shielding and one spending bundle with fixed shapes and values.",
  F("builder.rs", "bundle.rs", "circuit.rs", "bundle/batch.rs"),
  M(("Builder::build / bundle", "builder.rs"), ("Bundle::create_proof", "builder.rs"), ("apply_signatures / prepare / sign / finalize", "builder.rs"), ("Bundle::verify_proof", "bundle.rs"), ("BatchValidator::validate", "bundle/batch.rs")),
  ["Bundle<Authorized> bytes", "verify_proof result", "batch verdict"],
  "randomized end-to-end workload with runtime verdict monitors", SAMPLED + "Tens of proofs per quick run, each re-verified by the crate and, for signatures, by the model."),
P("C02", "Value is conserved by every built bundle",
  "The value balance of a built bundle equals exactly the sum of spent values minus the sum of created values over the integers, the value commitments of its actions open to per-action net values that sum to that balance, and the binding validating key is the one whose secret key the builder holds. Requests whose balance cannot be represented are refused rather than wrapped.",
  ["inputs"], "all multisets of 64-bit note values on both sides, including those whose sums exceed 63 and 64 bits, and all balance types",
  "Unit tests use small positive values; overflow and sign edges are reached by none of them end to end.",
  F("value.rs", "builder.rs", "bundle.rs"),
  M(("ValueSum arithmetic", "value.rs"), ("ValueCommitment::derive", "value.rs"), ("value_balance", "builder.rs"), ("binding_validating_key", "bundle.rs")),
  ["value_balance", "cv_net of each action", "bvk"],
  "conservation monitor over randomized builds against exact integer bookkeeping", SAMPLED + MODEL),
P("C03", "A bundle contains exactly what was asked for",
  "For every request, each requested spend appears once with its note's nullifier and each requested output appears once as a note to its recipient with its value and memo, at the positions the bundle metadata reports; padding pays and spends nobody's notes. An output is decryptable by exactly its recipient's incoming key, and recoverable by exactly the outgoing key that was requested, or by none.",
  ["inputs", "configurations"], "all requests, bundle types and random streams; all keys in play",
  "Tests check totals and a single recipient; they never map metadata to content over many shuffles and scopes.",
  F("builder.rs", "note_encryption.rs", "action.rs"),
  M(("shuffle and metadata", "builder.rs"), ("ActionInfo::build", "builder.rs"), ("OutputInfo", "builder.rs")),
  ["actions", "BundleMetadata", "decryption by the model"],
  "trace fidelity monitor: every action decrypted and attributed by an independent model", SAMPLED + MODEL),
P("C04", "The builder refuses exactly what it must",
  "A spend is refused exactly when spends are disabled by the bundle type, the note does not belong to the viewing key or its Merkle path does not lead to the anchor (unless its value is zero); an output is refused exactly when outputs are disabled. The number of actions, the flags, and whether a bundle is made at all follow the bundle type's rules for every combination of request sizes, and coinbase bundles never allow spends.",
  ["inputs", "configurations"], "all bundle types × request sizes; wrong owners, wrong paths, wrong anchors, edge values",
  "Tests exercise a handful of action-count cases and one mismatching anchor.",
  F("builder.rs", "bundle.rs", "tree.rs"),
  M(("BundleType::num_actions", "builder.rs"), ("Builder::add_spend / add_output", "builder.rs"), ("SpendInfo::new / has_matching_anchor", "builder.rs")),
  ["accept/refuse results", "action count", "flags"],
  "differential runtime monitor of accept/refuse decisions against the documented rules; bundle-type × size table enumerated", SAMPLED + "The action-count table is enumerated over small sizes."),
P("C05", "No change to an authorized bundle goes unnoticed",
  "Changing any effecting field, ciphertext, signature, proof byte or the order or number of actions of a valid authorized bundle makes it fail verification under the resulting signature hash. Changes to anything but the ciphertexts fail even under the original signature hash, and a proof verifies only for exactly the public inputs of its actions.",
  ["inputs", "fault_sequences"], "all single alterations (34 kinds, random positions and bits) and splices between valid bundles",
  "Tests verify only untouched bundles.",
  F("bundle.rs", "bundle/commitments.rs", "circuit.rs", "primitives/redpallas.rs"),
  M(("to_instance / Instance public inputs", "circuit.rs"), ("hash_bundle_txid_data", "bundle/commitments.rs"), ("VerificationKey::verify", "primitives/redpallas.rs")),
  ["verify_proof", "signature verdicts", "batch verdict"],
  "fault injection on valid bundles with a rejection oracle", SAMPLED + "Bytes appended after the proof are outside the claim."),
P("C06", "No proof is accepted for a false Action statement",
  "For every assignment of private inputs to an action and every choice of public inputs, the circuit is satisfied only if every clause of the Action statement holds: note commitment, Merkle membership of non-zero notes, nullifier, value commitment, spend authority, address integrity, new note commitment, and the enable flags. Proofs made from false statements never verify.",
  ["inputs"], "all witnesses and public inputs, including witnesses re-fitted consistently around one lie",
  "The circuit test satisfies true statements with random data; it never presents a false one.",
  F("circuit.rs", "circuit/gadget.rs", "circuit/note_commit.rs", "circuit/commit_ivk.rs", "circuit/gadget/add_chip.rs"),
  M(("Circuit::synthesize", "circuit.rs"), ("NoteCommit", "circuit/note_commit.rs"), ("CommitIvk", "circuit/commit_ivk.rs"), ("Instance::to_halo2_instance", "circuit.rs")),
  ["constraint satisfaction of the synthesized circuit", "proof verdict"],
  "constraint monitor on the real circuit's synthesis with mutated witnesses, judged by a statement model; real forged proofs attempted", SAMPLED + MODEL + "Intermediate cells are those the synthesizer assigns; under-constrained cells that only a modified prover could exploit are not observed.",
  "guarded hook builds a circuit from arbitrary private inputs"),
P("C07", "Every true Action statement can be proven",
  "Whenever the Action statement holds for values the API lets a caller construct, including zero and maximal values, edge positions, edge scalars, disabled flags with zero-valued notes, and an identity randomized key or value commitment, the circuit is satisfied and the proof verifies. The witnesses the builder hands to the prover make the statement true for exactly the public inputs of the actions they belong to.",
  ["inputs"], "all true statements reachable through the API, at the edges of every input's range",
  "Tests prove a few random statements; edges of ranges and the pairing of witnesses with actions are not examined.",
  F("circuit.rs", "builder.rs", "circuit/gadget.rs", "circuit/note_commit.rs", "circuit/commit_ivk.rs"),
  M(("Circuit::from_action_context", "circuit.rs"), ("ActionInfo::build", "builder.rs"), ("Action::to_instance", "bundle.rs")),
  ["witness of each built action", "constraint satisfaction", "proof verdict"],
  "constraint and witness monitors on true statements and on every circuit the builder makes", SAMPLED + MODEL,
  "guarded hook reads witnesses out of built bundles and public inputs of instances"),
P("C08", "Signing completes exactly when every signature is right",
  "Along every path of prepare, sign, append and finalize, in any order, with repeated or foreign keys and externally made signatures, a bundle is finalized only if every action carries a signature that verifies under its randomized key for the prepared signature hash, and otherwise an error names what is wrong. No call alters an already valid signature's action, the effects or the proof, and honest completion always succeeds with a valid binding signature.",
  ["histories", "inputs", "fault_sequences"], "all sequences of signing operations, key subsets, external signatures (valid, wrong hash, wrong key, duplicated), and failing random generators",
  "Tests call apply_signatures once with the right keys.",
  F("builder.rs", "primitives/redpallas.rs"),
  M(("prepare", "builder.rs"), ("sign / append_signatures", "builder.rs"), ("finalize", "builder.rs")),
  ["result of each call", "final signatures"],
  "history monitor: random signing histories against an executable state model", SAMPLED + "Signatures are re-verified by the model's own RedPallas verifier."),
P("C09", "Batch validation accepts exactly all-valid batches",
  "A batch of bundles validates if and only if every bundle in it is valid on its own for the signature hash it was added with, wherever an invalid one is and whatever is wrong with it, and regardless of order, repetition and the random generator's output. The empty batch is valid.",
  ["histories", "inputs", "fault_sequences"], "all batches of valid and invalid bundles, positions, orders, defects that cancel one another out",
  "No test runs a batch containing an invalid bundle.",
  F("bundle/batch.rs", "primitives/redpallas.rs", "circuit.rs"),
  M(("BatchValidator::add_bundle / validate", "bundle/batch.rs"), ("batch::Verifier", "primitives/redpallas.rs"), ("Proof::add_to_batch", "circuit.rs")),
  ["batch verdict", "individual verdicts"],
  "differential monitor of batch verdicts against individual verdicts, with cancelling-error attacks", SAMPLED),
P("C10", "Note encryption round-trips for everyone entitled",
  "Every note, memo and sender choice encrypted by the library is recovered in full by the recipient's incoming key, compactly from the first 52 bytes, and by the requested outgoing key, with exactly the original note, address and memo. Ciphertexts equal those of the specification for the same secrets, and batch and multi-key scanning agree with scanning one at a time.",
  ["inputs", "configurations"], "all notes, memos, key scopes, with or without an outgoing key, batch sizes and key orders",
  "Tests use fixed vectors and single keys.",
  F("note_encryption.rs", "note.rs", "bundle.rs", "keys.rs"),
  M(("OrchardDomain", "note_encryption.rs"), ("decrypt_outputs_with_keys / recover_outputs_with_ovks", "bundle.rs"), ("KDF and PRF", "spec.rs / keys.rs")),
  ["ciphertext bytes", "decryption results"],
  "round-trip and differential monitors against an independent implementation", SAMPLED + MODEL),
P("C11", "Hostile ciphertexts never yield a wrong note",
  "Whatever a sender puts in a transmitted note, a recipient or outgoing-key holder obtains a note only if it matches the action's commitment, nullifier and ephemeral key as the specification demands, and otherwise obtains nothing. All decryption paths give the specification's answer.",
  ["inputs", "fault_sequences"], "all attacker-made ciphertexts, ephemeral keys, commitments and plaintexts",
  "Tests decrypt only honest ciphertexts.",
  F("note_encryption.rs", "keys.rs", "note.rs"),
  M(("parse_note_plaintext_without_memo", "note_encryption.rs"), ("Domain::cmstar / epk checks", "note_encryption.rs"), ("EphemeralPublicKey parsing", "keys.rs")),
  ["decryption results"],
  "adversarial ciphertext injection (25 attack families) with a specification oracle", SAMPLED + MODEL),
P("C12", "Keys and addresses derive as specified",
  "For every spending key, all viewing keys, scoped incoming and outgoing keys, diversifiers and addresses equal the specification's derivation, and scopes are never confused. An address is recognised by exactly the key and scope it came from, with its diversifier index, and viewing keys restored from bytes derive identically.",
  ["inputs"], "all spending keys, scopes, diversifier indices and foreign addresses",
  "Tests cover ten fixed vectors of external keys.",
  F("keys.rs", "address.rs", "spec.rs"),
  M(("FullViewingKey::derive_internal / to_ivk / to_ovk", "keys.rs"), ("DiversifierKey", "keys.rs"), ("scope_for_address", "keys.rs"), ("commit_ivk", "spec.rs")),
  ["key and address bytes"],
  "differential runtime monitor against an independent derivation", SAMPLED + MODEL),
P("C13", "Encodings are canonical and strict",
  "Every decoder accepts exactly the canonical encodings of valid values and refuses everything else, and re-encoding what was accepted reproduces the bytes. Streamed reading and writing agrees with that under short reads, write failures and truncation.",
  ["inputs", "fault_sequences"], "all byte strings of each encoding's length, including field elements above the modulus, non-points, sign flips; all flag bytes; all chunkings",
  "Tests round-trip valid values only.",
  F("keys.rs", "address.rs", "note.rs", "note/nullifier.rs", "note/commitment.rs", "tree.rs", "value.rs", "bundle.rs", "primitives/redpallas.rs"),
  M(("from_bytes / to_bytes of each type", "keys.rs, note.rs, value.rs, tree.rs"), ("Flags::from_byte", "bundle.rs"), ("Address::from_raw_address_bytes", "address.rs")),
  ["accept/refuse", "re-encoded bytes"],
  "boundary-value injection with an exact integer oracle (moduli and curve equation); flag bytes enumerated", SAMPLED),
P("C14", "Note commitments and nullifiers follow the specification",
  "The commitment, extracted commitment and nullifier of every note equal the specification's functions of its address, value, rho, seed and the spender's key. Notes are constructible exactly when their commitment exists; distinct notes never share a commitment, nor notes of one key a nullifier.",
  ["inputs"], "all notes over edge-heavy addresses, values, rho and seeds, and all viewing keys",
  "Tests compare ten fixed vectors.",
  F("note.rs", "note/commitment.rs", "note/nullifier.rs", "spec.rs"),
  M(("NoteCommitment::derive", "note/commitment.rs"), ("Nullifier::derive", "note/nullifier.rs"), ("RandomSeed", "note.rs")),
  ["commitment and nullifier bytes"],
  "differential runtime monitor against an independent implementation, with single-field perturbations", SAMPLED + MODEL),
P("C15", "Bundle commitments bind every field as specified",
  "The transaction-id commitment and authorizing commitment of every bundle equal the ZIP 244 digests of its contents, for every number of actions, flags, balance and anchor. Any change of an effecting field changes the former, any change of proof or signatures changes only the latter.",
  ["inputs"], "all bundle contents, including extreme balances and any proof length",
  "No test in the crate compares these digests with ZIP 244.",
  F("bundle/commitments.rs", "bundle.rs"),
  M(("hash_bundle_txid_data", "bundle/commitments.rs"), ("hash_bundle_auth_data", "bundle/commitments.rs")),
  ["digest bytes"],
  "differential digest monitor with single-field perturbations", SAMPLED + MODEL),
P("C16", "The commitment tree is sound at every size and position",
  "Roots, empty roots and authentication paths equal the specification's for every sequence of appended commitments and every position, including positions near powers of two and the last ones; a path yields the anchor for exactly its own commitment and position. Witnesses kept up to date while the tree grows remain valid for every later root.",
  ["inputs", "histories"], "all append histories, positions in 0..2^32, leaves and siblings including edge elements",
  "Tests follow one small vector of paths.",
  F("tree.rs", "constants/sinsemilla.rs"),
  M(("MerkleHashOrchard::combine / empty_root", "tree.rs"), ("MerklePath::root", "tree.rs"), ("Anchor::empty_tree", "tree.rs")),
  ["roots", "paths"],
  "history monitor against a sparse-tree model", SAMPLED + MODEL),
P("C17", "Hierarchical derivation follows ZIP 32",
  "For every seed of admissible length, coin type and account, derivation yields the specified spending key, and coin types out of range are refused with an error. Distinct paths and seeds never give the same key.",
  ["inputs"], "all seeds of 32 to 252 bytes, all coin types and accounts",
  "Tests use one seed and check only inequality of two keys.",
  F("zip32.rs", "keys.rs"),
  M(("ExtendedSpendingKey::from_path", "zip32.rs"), ("SpendingKey::from_zip32_seed", "keys.rs")),
  ["derived keys", "errors"],
  "differential runtime monitor against an independent derivation", SAMPLED + MODEL),
P("C18", "Every secret is fresh, full-entropy and well shuffled",
  "Each blinding value of a bundle (spend randomizers, value trapdoors, note seeds, dummy keys, proof and signature randomness) is drawn from the caller's generator with at least 256 bits of it, is never reused within or across bundles, and is independent of every other. The placement of spends and outputs is uniform and independent.",
  ["inputs", "histories"], "all builds and all random streams",
  "Randomness quality is invisible to example-based tests: every test passes with a constant.",
  F("builder.rs", "note.rs", "value.rs", "keys.rs", "circuit.rs"),
  M(("shuffle", "builder.rs"), ("ValueCommitTrapdoor::random", "value.rs"), ("alpha", "builder.rs"), ("RandomSeed::random / Note::dummy", "note.rs")),
  ["per-action public values", "generator draws"],
  "freshness monitor, generator-dependence tracing by re-execution, chi-squared monitor of placements", SAMPLED + "Dependence is counted in bytes of the generator's output; statistical limits have a false-alarm probability below 1e-8."),
P("C19", "Results do not depend on threads, history or first use",
  "Every operation's result is a function of its arguments and the generator alone: concurrent use from many threads, first use racing lazy initialisation, any earlier calls, and the number of proving threads never change it. Rebuilding keys, concurrently or again, gives keys with the same verdicts.",
  ["schedules", "histories", "configurations"], "thread interleavings of first and later uses, thread counts, earlier operation histories",
  "Tests run each operation once per process from a warm state.",
  F("tree.rs", "spec.rs", "circuit.rs", "constants.rs", "builder.rs", "note_encryption.rs"),
  M(("lazy_static tables", "tree.rs, constants"), ("ProvingKey::build / VerifyingKey::build", "circuit.rs"), ("per-call generators", "builder.rs")),
  ["digests of results across processes and threads"],
  "schedule stress: barrier-released first-use races in fresh processes, digests compared with a sequential reference", SAMPLED + "Interleavings are those the scheduler gave. Rust's thread sanitizer cannot be built offline for this toolchain, and the crate forbids unsafe code."),
P("C20", "Untrusted input never panics and is never accepted",
  "No bytes a peer, sender or file can supply make parsing, scanning, hashing, displaying or verifying panic, including bundles with identity points, extreme balances, any flags, wrong-length or mangled proofs and wrong instance counts. Made-up bundles never verify and never disturb the verdict on others in a batch.",
  ["inputs", "fault_sequences"], "all byte strings into all decoders, all bundles that parse",
  "Tests parse only valid data; the identity key that panicked verification was reached by none.",
  F("circuit.rs", "bundle.rs", "bundle/batch.rs", "note_encryption.rs", "keys.rs", "address.rs", "note.rs", "value.rs", "tree.rs"),
  M(("Instance::to_halo2_instance", "circuit.rs"), ("Proof::verify", "circuit.rs"), ("decoders", "keys.rs, note.rs, value.rs"), ("note plaintext parsing", "note_encryption.rs")),
  ["panics", "verdicts"],
  "hostile-input stress with panic, overflow and debug-assertion monitors compiled in", SAMPLED + "Runs with overflow checks and debug assertions enabled for the crate."),
P("C21", "RedPallas signs and verifies as specified",
  "Every honest signature verifies under its key, as does one by a randomized key under the randomized validating key, and a signature is accepted by the crate, singly or in a batch, exactly when the specification's equation holds for canonical encodings. Changing the message, key or any signature bit makes it fail, and nonces never repeat, not even with a failing generator over different messages.",
  ["inputs", "fault_sequences"], "all keys, randomizers, messages, signatures including malformed and malleated ones, generators with no entropy",
  "The only test is a random sign-and-verify property.",
  F("primitives/redpallas.rs"),
  M(("SigningKey::sign / randomize", "primitives/redpallas.rs"), ("VerificationKey::verify", "primitives/redpallas.rs"), ("batch::Verifier", "primitives/redpallas.rs")),
  ["signature bytes", "verdicts"],
  "differential runtime monitor against an independent RedPallas implementation", SAMPLED + MODEL),
P("C22", "Value arithmetic is exact and commitments are homomorphic",
  "Differences and sums of values equal integer arithmetic or are refused, never wrapped; conversions to integers accept exactly what fits. Value commitments equal the specification's, add and cancel like the values and trapdoors they commit to, and the binding key of a bundle validates exactly at its declared balance.",
  ["inputs"], "all 64-bit values and sums of many, trapdoors including zero and maximal",
  "A property test covers sums inside a bounded range only.",
  F("value.rs", "bundle.rs"),
  M(("NoteValue - NoteValue, ValueSum sums", "value.rs"), ("ValueCommitment", "value.rs"), ("binding_validating_key", "bundle.rs")),
  ["integers", "commitment bytes", "bvk"],
  "differential runtime monitor against exact integer and group arithmetic", SAMPLED + MODEL),
P("C23", "Authorization steps never alter what a bundle does",
  "From building through proving, preparing, signing, finalizing, mapping of authorizations or balances and reassembly, the actions, flags, balance, anchor and transaction-id commitment stay exactly the same. Mapping callbacks see every action once, in order, and errors they return are passed on.",
  ["histories"], "all sequences of lifecycle steps and mappings, with failing callbacks",
  "Tests never compare a bundle before and after a step.",
  F("bundle.rs", "builder.rs", "action.rs"),
  M(("map_authorization / try_map_authorization / try_map_value_balance", "bundle.rs"), ("Action::map / try_map", "action.rs"), ("create_proof / prepare / finalize", "builder.rs")),
  ["effects before and after", "callback log"],
  "history monitor: effects recorded before and after each transition, callback order logged", SAMPLED),
P("C24", "Ledger histories conserve value and never double-spend",
  "Over every history of blocks of honestly built transactions, reorganizations and replays, wallets that see only the chain hold exactly what they were paid and have not spent, and the value of all notes equals what entered the pool minus what left it. Every spend of a note reveals the same nullifier, which no other note shares, so double spends are caught and honest transactions never collide; witnesses stay valid for every later anchor.",
  ["histories", "inputs"], "all histories of coinbase, shielding, transfers, unshielding, reorganizations, replays and double-spend attempts among several wallets",
  "Tests span at most two transactions.",
  F("builder.rs", "bundle.rs", "note_encryption.rs", "note.rs", "tree.rs", "keys.rs"),
  M(("build", "builder.rs"), ("trial decryption", "bundle.rs"), ("nullifier derivation", "note.rs"), ("tree", "tree.rs")),
  ["scanned notes", "nullifiers", "balances", "roots"],
  "offline-style history checker: conservation, exactly-once and uniqueness over simulated chains", SAMPLED + MODEL + "Most histories are unproven; some are proven and batch-validated throughout."),
]
hooks_commit = "3f674a0"
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in ROWS:
            assert len(r["title"]) <= 80, r["title"]
            f.write(json.dumps({
                "id": r["id"], "title": r["title"], "statement": r["statement"],
                "quantifier": {"over": r["over"], "text": r["qtext"]},
                "why_tests_cant": r["why"],
                "anchors": {"files": r["files"], "mechanism": r["mech"], "observe_at": r["observe"], "hook_needed": r["hook"]},
            }) + "\n")
    checks = [{
        "property": r["id"], "quick_cmd": "./check.sh %s quick" % r["id"], "thorough_cmd": "./check.sh %s thorough" % r["id"],
        "evidence_file": "evidence/%s.json" % r["id"], "technique": "runtime monitoring: " + r["technique"],
        "level": "exploration", "level_note": r["note"].strip(),
    } for r in ROWS]
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "orchard_verif", "enable": "RUSTFLAGS='--cfg orchard_verif' cargo build", "source_commits": os.popen("git -C /repo log --format=%H --grep 'observation hooks'").read().split()},
         "checks": checks, "not_applicable": [],
         "notes": "See DESIGN.md. known-findings.txt lists findings; one was repaired in /repo, none is outstanding."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
