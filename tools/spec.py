#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/spec.py` after editing; it rewrites both files."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "commit_verify/src/"
MPC = [B + "mpc/tree.rs", B + "mpc/block.rs", B + "mpc/atoms.rs"]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], state=state or [], claimed=claimed))


prop("C01", "Multi-protocol commitment placement follows the deterministic search order",
     "Creating a multi-protocol commitment from protocol-id/message pairs uses the first collision-free choice in this order: depths from the requested minimum up to 31 that offer at least as many slots as there are messages, and at each depth cofactors 0, 1, 2, ... up to the smaller of 500 and the width of the depth considered just before it (1 at the very first depth). "
     "Each message is then stored exactly once, under its own protocol, at position (protocol id read as little-endian 256-bit number) mod max(1, 2^depth - cofactor), nothing else is stored, and the reported depth, cofactor, entropy, width, factored width and per-protocol positions agree with that. "
     "If there are no messages and the minimal depth is zero, or if no choice fits, creation reports the corresponding error (empty source; can't fit, with the message count) instead of returning a commitment.",
     ["inputs"], "all sets of protocol ids and messages, all minimal depths 0..31, all entropies",
     "Tests use random ids only and never check which cofactor/depth was chosen, nor colliding, congruent or boundary ids, nor the can't-fit error.",
     MPC[:1] + [B + "mpc/atoms.rs"],
     [("TryCommitVerify::try_commit search loop", B + "mpc/tree.rs"), ("protocol_id_pos", B + "mpc/tree.rs")],
     "reference-model monitor over generated hostile sources (differential oracle on the tree's encoded state)",
     "Held on the generated sources only; oracle is an independent re-implementation of the search order (own 256-bit modulus) reading the tree through its strict encoding.",
     ["MerkleTree accessors", "strict-encoded MerkleTree"])

prop("C02", "Multi-protocol commitment value is the LNPBP-4/LNPBP-81 reference value",
     "The commitment of a multi-protocol tree is SHA-256 tagged with 'urn:ubideco:mpc:commitment#2024-01-31' over depth (1 byte), cofactor (2 bytes LE) and Merkle root (32 bytes), where the root is the depth- and width-committing tagged merklization of one leaf per slot: an inhabited leaf for each stored message and, for every empty slot, a placeholder leaf made of the tree's entropy and the slot number. "
     "The tree's root, its concealed form, the fully revealed block made from it and that block's concealed form all carry the same depth, cofactor and root, and all yield the same commitment.",
     ["inputs"], "all trees (message sets, depths, cofactors, entropies)",
     "Unit tests compare the implementation with itself on a few random trees; nothing compares the value with the published construction.",
     MPC + [B + "merkle.rs", B + "id.rs"],
     [("MerkleTree::root / conceal", B + "mpc/tree.rs"), ("MerkleBlock::conceal_except / conceal", B + "mpc/block.rs"), ("MerkleHash::merklize", B + "merkle.rs"), ("Leaf encoding", B + "mpc/atoms.rs")],
     "reference-model monitor (independent SHA-256/merklization model compared on generated trees)",
     "Held on generated trees up to depth 13 (quick) / 16 (thorough); trusts the sha2 crate shared by the model.",
     ["commit_id", "conceal", "root"])

prop("C03", "Every committed message has an inclusion proof that reproduces the commitment",
     "For every message in a multi-protocol tree, the proof extracted from the tree, from its fully revealed block, or from any partially concealed or merged block that still reveals the message, is the same proof, holds exactly the sibling hashes along the message's slot, and recomputes the tree's commitment for that protocol and message. "
     "Bulk extraction yields exactly one proof per revealed protocol and nothing else. "
     "Asking for a proof of a protocol the block doesn't reveal fails with an error that names that protocol.",
     ["inputs", "histories"], "all trees, all messages in them, all prior sequences of concealments and merges",
     "Tests extract proofs only from full blocks of at most 8 random messages and never inspect proof content.",
     MPC, [("MerkleBlock::into_merkle_proof/to_merkle_proof/into_known_proofs", B + "mpc/block.rs"), ("MerkleTree::into_proofs", B + "mpc/tree.rs"), ("MerkleProof::convolve", B + "mpc/block.rs")],
     "reference-model monitor over generated trees and operation histories",
     "Held on generated trees/histories; expected proofs come from the independent model.",
     ["MerkleProof bytes, as_path, pos, convolve"])

prop("C04", "Proofs bind one message per protocol to a commitment (no forgery accepted)",
     "Evaluating a proof for a protocol and message yields exactly the value obtained by hashing the inhabited leaf up the path by the position bits and committing to depth, cofactor and root, and is refused with an invalid-proof error (naming protocol, expected and actual position, and width) exactly when the proof's position differs from the position its depth and cofactor assign to the protocol, or its path is longer than the maximal tree depth of 31. "
     "Hence changing the message, the protocol, the position, the cofactor, the path's length, order or any bit of it never yields the original commitment, and no two different messages are ever accepted under one protocol for one commitment.",
     ["inputs"], "all proofs, honest, mutated and adversarially built, for all protocols and messages",
     "No test feeds a wrong message, wrong protocol or tampered proof.",
     MPC[:2], [("MerkleBlock::with position check and node ordering", B + "mpc/block.rs"), ("MerkleProof::convolve", B + "mpc/block.rs")],
     "reference-verifier monitor over mutated and forged proofs (differential oracle)",
     "Held on the mutations generated; cryptographic collision resistance is assumed.",
     ["MerkleProof::convolve", "MerkleBlock::with", "InvalidProof"])

prop("C05", "Concealment hides exactly what was asked and keeps the commitment",
     "Concealing a block except for a set of protocols it reveals keeps the block's commitment, leaves exactly those protocols' messages revealed with their values, drops the entropy, and reduces everything else to the smallest cross-section (no two concealed siblings left), reporting how many leaves were hidden plus nodes removed; the result doesn't depend on whether it is done at once or in several narrowing steps, and repeating it changes nothing. "
     "If any requested protocol is not revealed, the operation fails with an error naming one such protocol and leaves every revealed message in the block available.",
     ["inputs", "histories"], "all blocks (full, partial, merged), all kept sets, all sequences of concealments",
     "Tests never conceal to more than one protocol, never check the cross-section, entropy, count or the error path.",
     [B + "mpc/block.rs"], [("MerkleBlock::conceal_except/conceal_other aggregation loop", B + "mpc/block.rs")],
     "reference-model monitor over block histories (structure compared node by node via strict encoding)",
     "Held on generated trees/histories; model of the cross-section is independent of the aggregation loop.",
     ["strict-encoded MerkleBlock", "known_protocol_ids", "to_known_message_map"])

prop("C06", "Concealed data does not leak through proofs, blocks or their serialized forms",
     "After concealment, extraction of a proof, or reduction to the concealed form, no representation of the resulting object (strict encoding, JSON, binary serde, debug text) contains any protocol id or message other than the ones explicitly kept, nor the tree's entropy. "
     "Besides the kept data, only the method, depths, cofactor, position and hashes are disclosed.",
     ["inputs"], "all trees, kept sets, and output formats",
     "No test inspects the content of concealed objects.",
     [B + "mpc/block.rs"], [("MerkleBlock::conceal_except (entropy reset, leaf hiding)", B + "mpc/block.rs"), ("MerkleBlock::with (entropy None)", B + "mpc/block.rs")],
     "leak monitor: byte/hex/decimal search over every output channel of generated concealed objects",
     "Held on generated objects; hash preimage resistance assumed.",
     ["strict bytes", "serde_json", "bincode", "Debug"])

prop("C07", "Merging blocks unites revealed knowledge and rejects unrelated ones",
     "Merging two blocks or a block and a proof of the same commitment succeeds, keeps the commitment, and reveals exactly the union of what both revealed, as the coarsest cross-section in which every node known to either is available; the resulting cross-section doesn't depend on merge order or grouping, and merging what is already known changes nothing. "
     "Merging blocks with different commitments fails with an error reporting both commitments, a proof not valid for its protocol's position fails with the invalid-proof error, and in both cases the block is left unchanged. "
     "The merging block keeps its own entropy, and the returned number is the size of the merged cross-section (up to 65535 nodes).",
     ["inputs", "histories"], "all pairs and sequences of partial blocks and proofs of one tree, and of different trees",
     "The single test merges proofs in key order for at most 8 random messages and checks only the commitment.",
     [B + "mpc/block.rs", B + "merkle.rs"], [("MerkleBlock::merge_reveal / merge_reveal_path", B + "mpc/block.rs"), ("MerkleBuoy depth tracking", B + "merkle.rs")],
     "reference-model monitor over merge histories (cross-section union computed independently)",
     "Held on generated histories; sizes above 65535 nodes are out of scope for the returned number.",
     ["strict-encoded MerkleBlock before/after", "MergeError"])

prop("C08", "Untrusted proofs and blocks are handled without aborting",
     "Any proof that decodes (any position, any cofactor, path of up to 32 hashes) and any well-formed third-party block (a cross-section tiling a tree of depth up to 31 and revealing each protocol at most once, whatever its contents) can be evaluated, merged, concealed, queried and converted for any protocol id without panicking, overflowing or running away: every such call returns a value or a documented error. "
     "In particular the width and factored width can be asked for every cofactor, saturating at one. A block that isn't well-formed is refused with an error rather than processed.",
     ["inputs"], "all decodable proofs and all well-formed blocks received from third parties, all query arguments",
     "Tests only ever use objects the library itself produced.",
     MPC[:2], [("MerkleBlock::with, merge_reveal, conceal_except", B + "mpc/block.rs"), ("width_limit/factored_width", B + "mpc/block.rs")],
     "crash monitor over decoded adversarial objects (overflow checks and debug assertions on)",
     "Held on generated objects; structurally malformed blocks (not tiling a tree) are accepted by decoding and panic later: recorded as known findings by exact input, not explored further.",
     ["panics", "results"])

prop("C09", "Merklization of any list of leaves follows the LNPBP-81 tree shape",
     "The Merkle root of a list of n leaves is the single leaf's own hash for n = 1, the void node for n = 0, and otherwise the tree splitting each branch into a left part of ceil(width/2) and a right part, in which every node is the tagged hash of branching kind, depth, total leaf count and child hashes, with single-leaf branches using the single-node form padded with 0xFF. "
     "It is the same for lists and sorted sets of every size class holding the same leaf sequence, and the void/single/branch node constructors hash exactly the fields they are given.",
     ["inputs"], "all leaf lists and sets, 0 up to over 65536 leaves, tiny, small and large collections",
     "Tests only check doc examples of full power-of-two MPC trees against themselves; odd sizes never occur.",
     [B + "merkle.rs"], [("MerkleHash::merklize/_merklize", B + "merkle.rs"), ("MerkleNode constructors", B + "merkle.rs"), ("MerkleLeaves impls", B + "merkle.rs")],
     "reference-model monitor (every leaf count 0..N plus size-class boundaries)",
     "Held for every leaf count in the stated range and sampled larger ones; model shares only SHA-256.",
     ["MerkleHash::merklize, void, single, branches", "MerkleNode::commit_id"])

prop("C10", "Buoy tracks when a left-to-right subtree is complete",
     "Fed with the depths of the consecutive nodes of a cross-section in left-to-right order, starting at some node's depth, the buoy acts as a stack of pending subtrees: two adjacent pending subtrees of equal depth d join at once into one of depth d-1, cascading upward, and the level is the depth of the most recent pending one. "
     "Pushing a node reports surfacing exactly when this joining reaches the outermost pending subtree, and pushing zero never changes anything.",
     ["inputs", "histories"], "all sequences of depths from subtrees cut out of binary trees, all start depths",
     "No unit test of the buoy exists.",
     [B + "merkle.rs"], [("MerkleBuoy::push/level", B + "merkle.rs")],
     "online monitor: explicit-stack automaton run in lockstep with the buoy",
     "Held on generated sequences, plus exhaustive enumeration of all sequences up to a small bound.",
     ["MerkleBuoy::push result, level"])

prop("C11", "Commitment engine hashes exactly the declared data in order",
     "A commitment identifier is SHA-256 tagged by the identifier's own tag over the concatenation, in call order, of exactly what each commit step declares: the strict encoding of a serialized value, option, list, set or map (with its length prefix), the 32-byte nested id for a hashed value, the Merkle root for a merklized collection, and the strict encoding of the concealed form for a concealed value. "
     "Equal values give equal ids however they were built, changing any committed bit, order of steps or tag changes the id, and the recorded layout lists one step per call in call order with matching kind, type name and size limits.",
     ["inputs", "histories"], "all sequences of commit steps and values, all tags",
     "Tests commit to a handful of fixed values and steps.",
     [B + "id.rs", B + "digest.rs"], [("CommitEngine::commit_to_*", B + "id.rs"), ("CommitId blanket impl", B + "id.rs"), ("DigestExt::from_tag", B + "digest.rs")],
     "history monitor: random commit-step programs checked against a byte-level reference log",
     "Held on generated step sequences; model shares SHA-256 only, strict bytes are model-written.",
     ["CommitEngine::finish, finish_layout, as_layout", "commit_id"])

prop("C12", "Published commitment layouts and Vesper text describe what is actually hashed",
     "The commitment layout of a type names the identifier type, its tag and, in order, every step the type's commitment actually performs, and it is the same for any value of a type whose steps don't depend on the value. "
     "Its textual Vesper form shows the identifier, SHA256 hasher, tag and one line per step with its kind (serialized, hashed, merklized, concealed, list, set, map), type name, length range and element/key/value types, in the same order.",
     ["programs", "inputs"], "all commitment-encodable types and step sequences",
     "Only the fixed layouts of five library types are ever printed, and nothing compares them with what is hashed.",
     [B + "vesper.rs", B + "id.rs"], [("CommitmentLayout", B + "id.rs"), ("CommitLayout::to_vesper", B + "vesper.rs")],
     "trace-conformance monitor: layout/Vesper text compared with the recorded step log of random encoders",
     "Held on generated encoders; the Vesper grammar is checked by an independent line parser.",
     ["commitment_layout()", "Display of CommitLayout"])

prop("C13", "Derived commitment encoding follows the declared strategy for any type shape",
     "For any struct or enum shape, with or without generics and with an optional crate path, the derived commitment encoding hashes what its strategy says: the whole value's strict encoding for 'strict', the strict encoding of the concealed form for 'conceal', the inner value's strict encoding for 'transparent', and the Merkle root of the collection for 'merklize', always under the tag of the declared identifier type. "
     "Conceal forms are idempotent, and what a transparent type wraps is a named type (the engine commits only to those). "
     "A missing or unknown strategy, a missing identifier or an unknown argument is rejected at compile time.",
     ["programs", "inputs"], "all type definitions accepted by the derive, all attribute combinations, all values",
     "Derive tests cover a dozen fixed types and no rejection case.",
     ["commit_verify/derive/src/derive.rs", "commit_verify/derive/src/params.rs", "commit_verify/derive/src/lib.rs"],
     [("CommitDerive::derive_encode", "commit_verify/derive/src/derive.rs"), ("ContainerAttr parsing", "commit_verify/derive/src/params.rs")],
     "program-generating monitor: random types compiled with the derive, their runtime ids compared with independently computed ids",
     "Held on the generated programs; rejection cases are observed as compiler errors of the derive.",
     ["commit_id of derived types", "rustc diagnostics"])

prop("C14", "Strict encoding round-trips and matches the published type schema",
     "Every public consensus value (hashes, ids, messages, leaves, nodes, trees, blocks, proofs, concealed forms, reserved bytes, seal witnesses) strictly encodes to exactly the bytes the published type library prescribes for it: field order, tag values, little-endian widths and length prefixes. "
     "Decoding those bytes yields an equal value and consumes exactly those bytes, and interpreting the bytes through the published type library accepts them entirely.",
     ["inputs"], "all values of all encodable types",
     "Only the type-library id is tested; no value is ever encoded and decoded in tests.",
     MPC + [B + "merkle.rs", B + "id.rs", B + "lib.rs", "single_use_seals/src/lib.rs"],
     [("StrictEncode/StrictDecode derives", B + "mpc/block.rs"), ("ReservedBytes codec", B + "lib.rs")],
     "round-trip and model-encoder monitor, with the published type library as second oracle",
     "Held on generated values; schema oracle uses the strict_types crate on the committed /repo/stl library.",
     ["strict bytes", "type library interpretation"])

prop("C15", "Malformed encodings are rejected and decoding is canonical",
     "Decoding arbitrary or truncated bytes as any consensus type never panics: it returns an error, or a value whose re-encoding is exactly the bytes consumed, so no two encodings denote the same value. "
     "Truncated input, unknown enum or method tags, unordered or duplicate map keys, empty cross-sections, proof paths over 32 hashes and reserved bytes other than the required value are always errors.",
     ["inputs"], "all byte strings",
     "No test decodes malformed data.",
     MPC + [B + "lib.rs", B + "merkle.rs"], [("ReservedBytes::strict_decode", B + "lib.rs"), ("strict_type tags", B + "mpc/atoms.rs"), ("Confined bounds", B + "mpc/block.rs")],
     "fuzzing monitor: mutated/random byte strings with a canonicity (decode-encode) oracle",
     "Held on the byte strings tried.",
     ["StrictDecode results"])

prop("C16", "Serde and textual forms are faithful and stable",
     "Serializing any serde-enabled public value to JSON or a binary serde format and reading it back gives an equal value; reserved bytes serialize as unit. "
     "Ids, messages, commitments and hashes print as 64 lowercase hex digits, most significant first as stored, parse back to the same value, and reject text that isn't exactly 32 bytes of hex; JSON field names and enum spellings stay the published ones.",
     ["inputs"], "all values; human-readable and binary formats",
     "No test exercises serde or text parsing.",
     MPC + [B + "lib.rs", B + "merkle.rs", B + "id.rs", "src/api.rs", "single_use_seals/src/lib.rs"],
     [("serde derives and ReservedBytes serde impl", B + "lib.rs"), ("wrapper Display/FromStr/Hex", B + "mpc/atoms.rs")],
     "round-trip monitor with independently built expected JSON/text",
     "Held on generated values in serde_json and bincode.",
     ["serde_json", "bincode", "Display/FromStr/to_hex"])

prop("C17", "Commit-verify schemes accept exactly their own message",
     "For any scheme built on the commit-verify traits, verification succeeds if and only if repeating the commitment to the given message yields an equal commitment; otherwise it reports an invalid commitment, and for the fallible form reports an invalid message when, and only when, the commitment to that message can't be created. "
     "A multi-protocol tree with static entropy verifies against exactly those sources that would produce an equal tree.",
     ["inputs", "programs"], "all scheme implementations, messages and commitments",
     "The test suite helper checks ten fixed messages, and nothing covers the fallible form.",
     [B + "commit.rs", B + "mpc/tree.rs"], [("CommitVerify::verify, TryCommitVerify::verify defaults", B + "commit.rs")],
     "protocol monitor: mock schemes with call logs and truth-table oracle",
     "Held on generated schemes and messages.",
     ["verify results", "call log of commit/try_commit"])

prop("C18", "Embedded commitments verify exactly for their message, container and proof",
     "For any container scheme, verification restores the original container from the proof, repeats the embedding of the message, and succeeds if and only if both the resulting proof and container are equivalent to the given ones under the scheme's own equivalence; the verified container and proof are not altered. "
     "Failures are told apart: restoration failure is passed through unchanged, failure to embed is reported as invalid message with its cause, a different proof as proof mismatch, a different container as commitment mismatch, tested in this order.",
     ["inputs", "programs"], "all scheme implementations, containers, messages, proofs, including ones with non-standard equivalence",
     "Tests use one hash-appending container and check only success/failure.",
     [B + "embed.rs"], [("EmbedCommitVerify::verify default", B + "embed.rs"), ("VerifyEq blanket impl", B + "embed.rs")],
     "protocol monitor: fault-injecting mock schemes with a truth-table oracle and call log",
     "Held on all outcome combinations of the mock scheme and random concrete schemes.",
     ["verify results", "call log"])

prop("C19", "Convolved commitments verify exactly for their message and supplement",
     "For any convolve-commit scheme, verification restores the original from the commitment, repeats the convolution with the proof's own supplement and the given message, and succeeds if and only if both the resulting proof and commitment are equivalent to the given ones under the scheme's own equivalence. "
     "Failures are told apart: a failing convolution is an impossible message, a different proof an invalid proof, a different commitment a commitment mismatch, tested in this order.",
     ["inputs", "programs"], "all scheme implementations, originals, supplements, messages, proofs",
     "Tests use one hash-based scheme and check only success.",
     [B + "convolve.rs"], [("ConvolveCommitProof::verify default", B + "convolve.rs")],
     "protocol monitor: fault-injecting mock schemes with a truth-table oracle and call log",
     "Held on all outcome combinations of the mock scheme and random concrete schemes.",
     ["verify results", "call log"])

prop("C20", "Seal verification checks every seal, the client witness and the publication",
     "Verifying the closing of seals over a message with a witness succeeds if and only if every given seal reports being included for that message and witness, the client-side witness can convolve the message, and the published witness confirms the resulting proof; single-seal verification equals the one-element case. "
     "Checks run in that order and the error is that of the first failing check: the first not-included seal together with the publication id, then the client error, then the published-witness error, with matching message text and cause. "
     "Consequently a seal medium publishing one commitment per seal never verifies two different messages for one seal, and the no-client-data witness passes the message through unchanged.",
     ["inputs", "histories", "fault_sequences"], "all seal sets and orders, messages, witnesses, outcomes of each check; all histories of closing seals",
     "The crate has no tests at all.",
     ["single_use_seals/src/lib.rs"], [("SealWitness::verify_seals_closing/verify_seal_closing", "single_use_seals/src/lib.rs"), ("NoWitness", "single_use_seals/src/lib.rs"), ("SealError", "single_use_seals/src/lib.rs")],
     "event-log monitor over a mock proof-of-publication medium (order, exactly-once, double-close oracle) with injected faults",
     "Held on generated histories and all outcome combinations up to a small number of seals.",
     ["call log of mock seal/witness", "SealError"])

prop("C21", "Client-side validation visits everything once and loses no report",
     "Validating a data set checks the root's own consistency, then for each of its items in iteration order hands each of the item's seals to the resolver exactly once and in order, and checks the item's own consistency exactly once; no failure or seal issue stops it. "
     "The returned report contains every reported failure, seal issue, warning and info entry, each exactly once and in the order reported, and nothing else; the result is valid only if no failure and no seal issue was reported.",
     ["inputs", "fault_sequences", "histories"], "all data hierarchies, all resolver behaviours including stateful and failing ones",
     "The crate has no tests at all.",
     ["src/api.rs"], [("ClientSideValidate::client_side_validate", "src/api.rs"), ("Status AddAssign", "src/api.rs")],
     "event-log monitor (exactly-once, order and conservation oracle) over generated hierarchies with fault-injecting resolvers",
     "Held on generated hierarchies; root-level seals of the container itself are not covered by the statement.",
     ["call log", "Status content"])

prop("C22", "Validation status combines losslessly and ranks outcomes correctly",
     "A status accumulates failures, seal issues, warnings and infos in the order added, whether added one by one, collected, or combined from other statuses; combining is associative, has the empty status as neutral element, and never drops, duplicates or moves entries between categories. "
     "Its verdict is invalid if there is any failure, otherwise unresolved seal issues if there is any, otherwise valid, regardless of warnings and infos; verdicts print as 'invalid', 'unresolved seal issues' and 'valid'.",
     ["inputs", "histories"], "all sequences of status operations",
     "The crate has no tests at all.",
     ["src/api.rs"], [("Status::add_*, AddAssign, FromIterator, validity", "src/api.rs"), ("Validity", "src/api.rs")],
     "lockstep model monitor over random status-operation histories",
     "Held on generated operation sequences.",
     ["Status fields", "validity()", "Display"])

prop("C23", "Results depend only on inputs, not on history, threads or insertion order",
     "With static entropy, creating, concealing, merging, proving and committing give bit-identical results for equal inputs regardless of insertion order of the messages, earlier operations in the process, the number of threads working at the same time, or the process they run in. "
     "Read-only operations never change the value they are called on, and operations on a copy never affect the original.",
     ["inputs", "histories", "schedules"], "all inputs, all interleavings of independent computations, all preceding histories",
     "Tests run each computation once, in one order.",
     MPC + [B + "id.rs", B + "merkle.rs"], [("ordered collections, absence of global state", B + "mpc/tree.rs"), ("clone-on-read accessors", B + "mpc/block.rs")],
     "replicated-execution monitor: same jobs shuffled across threads, histories and processes, transcripts compared",
     "Held on the schedules that occurred; transcripts are compared bit by bit.",
     ["strict bytes and ids from each replica"])

prop("C24", "Placeholder entropy is fresh unless given",
     "When no static entropy is given, every created multi-protocol tree uses unpredictable 64-bit entropy that differs between trees, threads and processes and isn't derived from the messages or the tree's shape; commitments to equal sources then differ whenever an empty slot exists. "
     "When static entropy is given, including zero and the maximal value, exactly that value is used, and it alone with the messages and depth determines the commitment.",
     ["inputs", "histories", "schedules"], "all sources, repeated creation across threads and processes",
     "Tests never look at the distribution or reuse of entropy.",
     [B + "mpc/tree.rs", B + "mpc/atoms.rs"], [("static_entropy.unwrap_or_else(thread_rng)", B + "mpc/tree.rs")],
     "statistical and uniqueness monitor over entropy values recorded from threads and processes",
     "Collision and per-bit bias thresholds have false-alarm probability below 1e-12; unpredictability itself is not decidable by observation.",
     ["MerkleTree::entropy"])

prop("C25", "Build configuration and platform do not change results",
     "Every combination of optional features (randomness, serde, type library, derive re-export, strict encoding of seals) builds, and the same inputs give bit-identical commitments, encodings, proofs, verdicts and errors whichever of them are enabled, whether built in debug or optimised mode, and whatever the platform's word size and byte order. "
     "With randomness compiled out, giving static entropy works the same, and not giving it is refused rather than replaced with a fixed value.",
     ["configurations", "inputs"], "all feature combinations of all crates, debug and release builds, 32- and 64-bit, little- and big-endian platforms",
     "The test suite runs only with all features in one profile on one platform.",
     ["commit_verify/Cargo.toml", B + "mpc/tree.rs", B + "lib.rs", "src/api.rs", "single_use_seals/src/lib.rs"],
     [("cfg(feature) gates", B + "mpc/tree.rs"), ("cfg(feature) gates", "src/api.rs")],
     "configuration-differential monitor: one workload built per feature set/profile and interpreted (Miri) for other platforms, transcripts compared",
     "Held on the feature matrix, profiles, interpreted platforms and workload stated in the evidence; the workload on other platforms is small.",
     ["transcripts"])

prop("C26", "Published type library and Vesper files match the code",
     "The type library the code builds, in binary, text and armored form, and the Vesper commitment specification it prints are exactly the ones published with the repository, and its declared library id is the id of that library. "
     "Decoding the published library gives the same library, covering every type the code encodes for consensus.",
     ["programs"], "all published type and commitment specifications",
     "The test pins only the type library id; the published files and the Vesper text are never compared.",
     [B + "stl.rs", B + "bin/commit-stl.rs", B + "vesper.rs", "stl/Merkle.vesper"], [("commit_verify_stl", B + "stl.rs"), ("commit-stl binary", B + "bin/commit-stl.rs")],
     "artifact monitor: files regenerated by running the real generator and compared byte for byte",
     "Complete for the artifacts in /repo/stl.",
     ["generated files"])

prop("C27", "Digest helpers compute tagged, length-prefixed hashes",
     "A tagged hasher starts from the hash of the tag repeated twice, for both SHA-256 and RIPEMD-160, for any tag bytes, and finishing returns the plain digest of everything input so far. "
     "Raw input appends bytes unchanged in any chunking, and length-prefixed input prepends the data length as a little-endian integer of 1, 2, 3 or 4 bytes chosen only by the declared maximal length.",
     ["inputs"], "all tags, data, chunkings, and maximal lengths",
     "Only indirectly used in tests with one tag.",
     [B + "digest.rs"], [("DigestExt", B + "digest.rs")],
     "reference-model monitor (differential against published test vectors and raw sha2/ripemd)",
     "Held on generated inputs within declared maxima.",
     ["finish output"])

prop("C28", "No undefined behaviour or memory error",
     "Running any public operation, including decoding of untrusted bytes, performs no out-of-bounds or use-after-free access, no uninitialised or misaligned read, no data race and leaks no memory. "
     "This holds when operations run concurrently on shared values.",
     ["inputs", "schedules"], "all public operations and inputs, concurrent use",
     "Tests run without sanitizers.",
     MPC + [B + "merkle.rs", B + "id.rs", "src/api.rs", "single_use_seals/src/lib.rs"], [("safe Rust without unsafe blocks", B + "lib.rs")],
     "Miri interpreter, AddressSanitizer/LeakSanitizer and ThreadSanitizer runs of a mixed workload",
     "Held on the workload executed; Miri runs a small slice of it, dependencies included.",
     ["sanitizer reports"])

prop("C29", "Proof matching agrees with commitments",
     "Two full trees, or two blocks in whatever state of concealment, match if and only if they produce the same commitment, so matching is an equivalence relation unaffected by revealing, concealing, merging or dropping entropy. "
     "Two inclusion proofs taken from one tree match, and proofs from trees with different commitments do not.",
     ["inputs", "histories"], "all pairs of trees, blocks and proofs from the same and from different sources",
     "Matching is not tested at all.",
     MPC[:2], [("Proof::matches impls", B + "mpc/block.rs")],
     "relational monitor over pools of related and unrelated objects",
     "Held on generated pools; the proof form of matching compares only the first path element and is recorded as known finding.",
     ["Proof::matches"])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    done = set(open(os.path.join(ROOT, "tools/claimed.txt")).read().split())
    checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                   level_note=p["note"]) for p in P if p["id"] in done]
    na = [dict(property=p["id"], reason="not yet claimed: its monitor is still being built") for p in P if p["id"] not in done]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             hooks=dict(guard="none", enable="no hooks: all monitored state is observable through the public API and the strict encoding"),
             notes="See DESIGN.md. Each check builds the harness against /repo's working tree and runs one property's monitors; known findings are in known_findings.json.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
