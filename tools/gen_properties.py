#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
M = "src/pymt/mpt.py"; EM = "src/pymt/empt.py"; MT = "src/pymt/mt.py"; MTT = "src/pymt/merkletools.py"
PR = "src/pymt/proof.py"; NP = "src/pymt/utils/nibble_path.py"; ND = "src/pymt/utils/node.py"
KP = "src/pymt/keypairs.py"; UT = "src/pymt/utils/utils.py"; HA = "src/pymt/utils/hash.py"

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "A trie answers exactly like a dictionary",
  "For every sequence of inserts, overwrites and deletes with byte-string keys (including the empty key and keys that are prefixes of one another) and non-empty values, a Merkle Patricia trie answers like a dictionary: looking up a present key returns the last value written for it, and membership is true exactly for the present keys. Looking up or deleting an absent key raises an error and never returns or removes another key's value.",
  ["histories", "inputs"], "all operation sequences over all key sets and non-empty values, plain and secure mode",
  "The tests run a handful of fixed histories over words like do/dog/doge and random decimal strings; they never look up a key that ends inside another key's path or beside a value stored at a branch, nor every split/merge order.",
  [M, NP, ND], [("lookup walk", M + " MPT.get/_get"), ("membership walk", M + " MPT.contains/_contains"), ("insert with node splitting", M + " MPT.update/_update"), ("delete with node merging", M + " MPT.delete/_delete")],
  [("root reference", "which version of the trie is current", M + " MPT._root"), ("node storage", "content-addressed nodes", M + " MPT._storage")],
  ["MPT.get", "MPT.contains", "MPT.update", "MPT.delete", "in / [] / del"])

p("C02", "The root hash commits to exactly the stored pairs",
  "The root hash of a trie depends only on the key/value pairs it currently holds, never on the order or number of inserts, overwrites and deletes that led there, and it equals the Merkle Patricia root that the Ethereum specification defines for those pairs (non-empty values). Tries with different contents have different root hashes, and a trie from which everything was deleted has the root hash of a fresh trie.",
  ["histories", "inputs"], "all operation sequences and all reachable contents",
  "Tests compare a few hard-coded roots and the small Ethereum vector files; canonical form must survive every order of splits and merges, and every node size around the 32-byte inlining limit.",
  [M, NP, ND], [("canonical node construction on insert", M + " MPT._update/_create_branch_node/_create_branch_extension"), ("collapse on delete", M + " MPT._delete/_build_new_node_from_last_branch"), ("inline-or-hash reference", ND + " Node.into_reference")],
  [("root reference", "reference of the root node", M + " MPT._root")], ["MPT.root_hash"])

p("C03", "Every present key has an inclusion proof that verifies",
  "For every non-empty trie and every key in it, the trie produces an inclusion proof, and that proof verifies on every trie object with the same root hash, including one that holds nothing but the root. Once the trie's contents change, the old proof no longer verifies against it.",
  ["histories", "inputs", "configurations"], "all reachable tries, all present keys, full / sparse / root-only verifiers, plain and secure",
  "Tests prove four fixed keys whose trie root happens to be longer than 32 bytes; small tries, single leaves, inline nodes and branch values are not sampled.",
  [M, EM, PR], [("proof generation", M + " MPT.get_proof_of_inclusion"), ("proof verification", M + " MPT.verify_proof_of_inclusion")],
  (), ["get_proof_of_inclusion", "verify_proof_of_inclusion"])

p("C04", "No inclusion proof is accepted for an absent key",
  "A trie accepts an inclusion proof only if the target key is present in the trie with that root and the proof itself carries the path from the root to it: no dropping, reordering, duplicating, altering or importing of proof nodes, no change of the target key and no change of the recorded root makes verification succeed otherwise. Asking a trie for an inclusion proof of an absent key raises an error.",
  ["inputs", "fault_sequences"], "all adversarial proof objects assembled from genuine, foreign and mutated nodes, all target keys",
  "Tests only check that a genuine proof fails after an unrelated insert or delete; no test presents a forged proof.",
  [M, PR], [("proof verification", M + " MPT.verify_proof_of_inclusion/_verify_proof_of_inclusion"), ("proof generation", M + " MPT.get_proof_of_inclusion")],
  (), ["verify_proof_of_inclusion", "get_proof_of_inclusion"])

p("C05", "Every absent key has an exclusion proof that verifies",
  "For every non-empty trie and every key not in it, the trie produces an exclusion proof, and that proof verifies on every trie object with the same root hash, including one that holds nothing but the root. For a present key the trie refuses to produce one, and once the trie's contents change an old exclusion proof no longer verifies against it.",
  ["histories", "inputs", "configurations"], "all reachable tries, all absent keys (diverging in a leaf, an extension, an empty branch slot, or ending inside a path)",
  "Tests only use absent keys that leave the trie at the root branch; divergence inside extensions, prefix keys and neighbours of branch values are never sampled.",
  [M, EM, PR], [("proof generation", M + " MPT.get_proof_of_exclusion/_get_proof_of_exclusion"), ("proof verification", M + " MPT.verify_proof_of_exclusion")],
  (), ["get_proof_of_exclusion", "verify_proof_of_exclusion"])

p("C06", "No exclusion proof is accepted for a present key",
  "A trie accepts an exclusion proof only if the target key is absent from the trie with that root and the proof carries the path from the root to the point where the key is shown to be missing: no dropping, reordering, altering or importing of proof nodes, no change of target key and no change of the recorded root makes verification succeed otherwise. An exclusion proof that carries a node that does not lie on that path is rejected.",
  ["inputs", "fault_sequences"], "all adversarial proof objects assembled from genuine, foreign and mutated nodes, all target keys",
  "Tests only check that genuine exclusion proofs fail after the trie changed; no test presents a truncated or relabelled proof.",
  [M, PR], [("proof verification", M + " MPT.verify_proof_of_exclusion/_verify_proof_of_exclusion")],
  (), ["verify_proof_of_exclusion"])

p("C07", "Earlier roots stay readable as unchanging snapshots",
  "A root obtained from a trie at any moment stays valid for ever: a trie opened on the same node storage with that root, whether given as the returned root or as the encoded root node, has the root hash, contents and proofs of that moment. Later inserts, overwrites and deletes, through any trie sharing the storage, never change what an earlier root shows.",
  ["histories", "configurations"], "all operation sequences, all earlier roots, several tries sharing one storage",
  "One test re-opens one old root after two operations; snapshots must survive every later history, including deletes that merge nodes and other tries writing to the same storage.",
  [M, EM], [("append-only content-addressed storage", M + " MPT._store_node"), ("opening at a root", M + " MPT.__init__")],
  [("node storage", "nodes of all versions", M + " MPT._storage")], ["MPT(storage, root)", "EMPT(trie_storage, data_storage, root)"])

p("C08", "Encoded tries decode to an equivalent trie",
  "Encoding any reachable trie, including an empty or emptied one, and decoding it yields a trie with the same root hash, mode and contents, that gives the same answers, produces and verifies the same proofs, and evolves identically under any further operations, independently of the original. The same holds for the sparse view; an encoded root-only view decodes to one with the same root hash and mode that verifies the same proofs.",
  ["histories", "inputs"], "all reachable tries and all continuations after decoding",
  "Tests encode four fixed tries and check gets or one follow-up operation; emptied tries, inline roots and mode preservation are not covered.",
  [M, EM], [("codec", M + " MPT.encode/decode"), ("view codecs", EM + " SparseEMPT/RootEMPT encode_rlp/decode_rlp")],
  (), ["MPT.encode/decode", "SparseEMPT.encode_rlp/decode_rlp", "RootEMPT.encode_rlp/decode_rlp"])

p("C09", "A write interrupted by a storage failure changes nothing",
  "If the node storage raises at any access during an insert, overwrite or delete on a plain, sparse or full trie, the error reaches the caller and the trie keeps the root hash and all the contents it had before the operation. Repeating the operation once the storage works again gives the same trie as an uninterrupted run.",
  ["fault_sequences", "crash_points", "histories"], "every storage access of every operation after every history",
  "No test injects a storage failure.",
  [M], [("root is switched only after all nodes are stored", M + " MPT.update/delete"), ("nodes are never overwritten in place", M + " MPT._store_node")],
  [("root reference", "the only mutable cell", M + " MPT._root")], ["MPT.update", "MPT.delete"])

p("C10", "Secure mode is the plain trie over hashed keys",
  "A trie in secure mode behaves exactly like a plain trie in which every key was replaced by its Keccak-256 hash: same root hashes, same contents, and proofs that target the hashed key and verify on a plain trie with the same root. Every operation of the trie and of its full, sparse and root-only forms hashes the key exactly once.",
  ["histories", "inputs", "configurations"], "all histories, run in lockstep in secure and plain mode",
  "Tests pin three secure root hashes and re-run the plain tests in secure mode; agreement for every operation and history is not compared.",
  [M, EM], [("key hashing", M + " MPT.get/update/delete/contains/get_proof_*")], (), ["MPT(secure=True)", "EMPT/SparseEMPT/RootEMPT(secure=True)"])

p("C11", "The full trie is a faithful mapping of keys to values",
  "For every sequence of mapping operations (set, get, delete, membership, length, iteration, items, pop, popitem, setdefault, clear) with byte keys and values that are bytes, bytearrays or objects with an RLP codec, the full (data-storing) trie gives the answers of a dictionary, and for each key its stored reference describes exactly that key and the stored value's bytes. A rejected operation (absent key, wrong key type, unsupported value) raises and leaves length, contents and root hash unchanged.",
  ["histories", "inputs"], "all sequences of mapping operations, all value kinds",
  "Tests set and get fixed words; bytearray values, the inherited mapping operations, keys beside stored prefixes and failed operations are not exercised.",
  [EM, M], [("paired update of trie and data storage", EM + " EMPT.update/delete"), ("checked read", EM + " EMPT.get")],
  [("data storage", "user values by key", EM + " EMPT._data_storage"), ("reference trie", "authenticated references", EM + " EMPT._trie")], ["EMPT mapping interface", "EMPT.get_reference"])

p("C12", "Changed stored data is never returned as genuine",
  "However the data storage behind a full trie is changed without going through the trie - values replaced, altered in place, truncated, extended, swapped between keys, added or removed - reading a key either returns a value whose bytes equal those last written through the trie for that key, or raises an error. Keys whose stored value was not changed stay readable.",
  ["fault_sequences", "inputs"], "all tamperings of the data storage over all small contents",
  "No test tampers with the data storage.",
  [EM], [("reference comparison on read", EM + " EMPT.get"), ("reference hash", EM + " DataReference")],
  [("data storage", "untrusted values", EM + " EMPT._data_storage")], ["EMPT.get / []"])

p("C13", "Sparse and root views agree with the full trie",
  "At every moment the sparse and the root-only view derived from a full trie have its root hash and mode, and they accept and reject exactly the same proofs; the sparse view knows the same keys and references and produces proofs the full trie accepts. Later changes to the full trie do not affect a derived view or the other way round, and applying the same further operations to a sparse view and to the full trie gives the same root hash.",
  ["histories", "configurations"], "all reachable full tries, all derivation points, all continuations",
  "Tests derive views from one fixed trie and compare root hashes; independence, continuation and derivation of a root view from a sparse view are not covered.",
  [EM], [("view derivation", EM + " EMPT.get_sparse_trie/get_root_trie, SparseEMPT.get_root_trie")], (), ["EMPT.get_sparse_trie", "EMPT.get_root_trie", "SparseEMPT.*", "RootEMPT.*"])

p("C14", "Rebuilding from the data reproduces the trie",
  "Rebuilding a full trie from its data storage gives the root hash, references and proofs of a trie into which the same pairs were inserted one by one, whatever the trie held before, for byte values and for objects with an RLP codec. After a rebuild every stored pair can be read, listed, proved and further changed.",
  ["histories", "inputs"], "all data contents, all earlier trie states, rebuilding at any point of a history",
  "Nothing in the test suite rebuilds a trie.",
  [EM], [("rebuild", EM + " EMPT.build_trie")], [("data storage", "source of the rebuild", EM + " EMPT._data_storage")], ["EMPT.build_trie"])

p("C15", "Separately created objects never share state",
  "Two tries, full tries, sparse views, Merkle trees or key pairs that were created without handing them the same storage object never influence each other: no operation on one changes the root hash, contents, length, proofs or answers of the other. This includes objects created with default arguments.",
  ["histories", "configurations"], "all interleaved operation sequences on pairs of objects, all constructor forms",
  "Tests always pass fresh storages and look at one object at a time, so shared default storages stay invisible.",
  [EM, M, MTT, MT, KP], [("constructors", EM + " EMPT.__init__/SparseEMPT.__init__; " + MTT + " MerkleTools.reset_tree")], (), ["constructors of MPT, EMPT, SparseEMPT, RootEMPT, MerkleTree, MerkleTools"])

p("C16", "Data references bind key and value",
  "Two data references are equal exactly when both their keys and their data are equal, and equal references have equal hashes. Encoding a reference and decoding it gives an equal reference, and decoding any byte string in which key, data, hash or marker was altered raises an error.",
  ["inputs", "fault_sequences"], "all keys and data over a small alphabet, all alterations of the encoded fields",
  "Tests use one key/value pair and never alter an encoded reference.",
  [EM], [("reference hash and codec", EM + " DataReference.__hash__/__eq__/encode/decode")], (), ["DataReference"])

p("C17", "A Merkle tree's root is that of its current leaves",
  "At every moment after (re)building, and for the automatically building tree whenever its root is asked for, the Merkle root equals the pairwise hash tree over the leaves added so far, in order, with an odd last node promoted unchanged, for every supported hash function and in raw and hashed-leaf mode. It never reflects an earlier set of leaves: adding leaves or resetting after a build is always taken into account.",
  ["histories", "inputs", "configurations"], "all sequences of add, build, read and reset; all leaf counts up to the bound; all hash types",
  "Tests check one-leaf and five-leaf roots built once with sha256 in raw mode; leaves added after a build and the default hashed-leaf mode are not covered.",
  [MTT, MT], [("level construction", MTT + " MerkleTools._calculate_next_level/make_tree"), ("readiness flag", MTT + " MerkleTools.add_leaf/get_merkle_root"), ("automatic build", MT + " MerkleTree.get_merkle_root")],
  [("leaves", "added values", MTT + " MerkleTools.leaves"), ("levels", "built tree", MTT + " MerkleTools.levels"), ("is_ready", "levels are current", MTT + " MerkleTools.is_ready")], ["get_merkle_root", "get_leaf", "get_count"])

p("C18", "Every leaf of a Merkle tree has a proof that verifies",
  "For every built Merkle tree, in raw and hashed-leaf mode and for every supported hash function, each added value has an inclusion proof that records the tree's root and verifies on that tree and on any tree built from the same leaves. A value that was not added is refused a proof, and after leaves change an old proof no longer verifies.",
  ["histories", "inputs", "configurations"], "all leaf counts up to the bound, all leaf positions, all hash types, both modes, rebuilds in between",
  "Tests prove one leaf of one five-leaf tree in raw mode; the default mode and other positions, sizes and hash functions are not covered.",
  [MTT, MT], [("proof generation", MTT + " MerkleTools.get_proof_of_inclusion"), ("proof verification", MT + " MerkleTree.verify_proof_of_inclusion")], (), ["get_proof_of_inclusion", "verify_proof_of_inclusion"])

p("C19", "A Merkle tree accepts no proof for a value it does not hold",
  "A Merkle tree over hashed leaves (or raw leaves of digest length) accepts an inclusion proof only if the target value is one of its leaves, the recorded root is its current root, and combining the target with the listed siblings on the listed sides gives that root. No dropping, adding, reordering, side-swapping or altering of proof steps, no other target and no proof from another tree is accepted instead.",
  ["inputs", "fault_sequences"], "all adversarial proofs assembled from genuine, foreign and mutated steps and targets",
  "Tests only check that a genuine proof fails on a tree with other leaves.",
  [MTT, MT], [("proof folding", MTT + " MerkleTools.verify_proof_of_inclusion"), ("root comparison", MT + " MerkleTree.verify_proof_of_inclusion")], (), ["verify_proof_of_inclusion"])

p("C20", "Encoded Merkle proofs decode to the same proof",
  "Every Merkle-tree inclusion proof, whether produced by a tree or built by hand from byte entries, survives encoding to RLP and decoding unchanged - type, timestamp, target, root and every proof step - and the decoded proof verifies exactly where the original does. The JSON form does the same whenever its content is text, and an encoding that is not supported or is malformed raises an error instead of yielding a different proof.",
  ["inputs"], "all proofs of all small trees and hand-built proofs, both codecs, damaged encodings",
  "Tests round-trip one hand-built flat proof; the nested proofs a Merkle tree really produces are not covered.",
  [PR, MT], [("RLP codec", PR + " Proof.encode_rlp/decode_rlp"), ("JSON codec", PR + " Proof.encode_json/decode_json")], (), ["Proof.encode_rlp/decode_rlp", "Proof.encode_json/decode_json"])

p("C21", "Nibble paths behave like lists of half-bytes",
  "Every nibble path, however it was produced - from bytes with any offset, by consuming a prefix, by taking a common prefix, by combining or by decoding - behaves as the list of half-bytes it stands for in length, indexing, equality, prefix test, common prefix and combination. Its compact encoding is the standard hex-prefix encoding, and decoding it gives back the same path and the same leaf flag.",
  ["inputs"], "all paths up to the bound, all offsets, all pairs",
  "Tests check about a dozen fixed paths.",
  [NP], [("path algebra", NP + " NibblePath")], (), ["NibblePath"])

p("C22", "Trie nodes encode canonically and decode to themselves",
  "Every leaf, extension and branch node encodes to the RLP form that the Merkle Patricia specification defines and decodes to a node of the same kind, path, value and child references. A node is referenced by its own encoding when that is shorter than 32 bytes and by its Keccak-256 hash otherwise, and children embedded either way are reached unchanged after a decode.",
  ["inputs"], "all node shapes over small paths, all value and child sizes around the 31/32/33-byte and RLP length limits",
  "Tests round-trip a few nodes and never look at sizes around the inlining limit.",
  [ND, NP], [("node codec", ND + " Node.decode, Leaf/Extension/Branch.encode"), ("references", ND + " Node.into_reference")], (), ["Node.decode", "Leaf/Extension/Branch.encode", "Node.into_reference"])

p("C23", "Signatures verify only for the signer's exact message",
  "A signature made by a key pair over a message verifies under that key pair's public key, from any key pair object, whether or not the key is passed explicitly. It does not verify for any other message, any other public key or any altered, truncated or extended signature; those give false.",
  ["inputs", "fault_sequences"], "all messages of a small set, all pairs of keys, all single-bit and length alterations of the signature",
  "Tests sign one message and never present a wrong message, key or signature.",
  [KP], [("signing and verification", KP + " RsaKeyPair.sign/signature_valid")], (), ["sign", "signature_valid"])

p("C24", "Sealed messages open only intact, for the recipient, from the sender",
  "A message sealed by a sender for a recipient is opened by the recipient, naming the sender's public key, to exactly the original bytes, for every message including the empty one. Opening raises an error, and never returns data, if any field of the sealed message was altered, truncated, removed or exchanged with another message's, if anything but white space was put before or after it, if another key pair tries to open it, or if another sender is named.",
  ["inputs", "fault_sequences"], "all sender/recipient/opener/named-sender combinations, all single-byte-or-bit alterations of every field, all field swaps between two messages",
  "Tests seal one message and try one wrong recipient and sender.",
  [KP], [("hybrid encryption", KP + " RsaKeyPair.encrypt/decrypt")], (), ["encrypt", "decrypt"])

p("C25", "Saved keys load back only intact and with the passphrase",
  "A key pair saved to a file or string with a passphrase loads back, with that passphrase, to a key pair with the same name, public key and signing/decrypting ability. Loading raises an error for every other passphrase (trailing NUL characters aside) and for damaged or truncated saved data that no longer yields this key, and a key saved with a non-empty passphrase is never stored in readable form.",
  ["inputs", "fault_sequences", "crash_points"], "all names and passphrases of a small set, all truncation points and single-byte alterations of the private key field",
  "Tests save and load one key with one passphrase and never try a wrong passphrase or damaged data.",
  [KP], [("key file codec", KP + " RsaKeyPair.to_key_file/from_key_file/to_key_string/from_key_string")], (), ["to_key_file", "from_key_file", "to_key_string", "from_key_string"])

p("C26", "Key pairs only do what their role allows",
  "An authentication key pair signs and verifies like a general key pair and always refuses to encrypt or decrypt; an encryption key pair encrypts and decrypts like a general key pair, interoperably with it, and always refuses to sign or verify. A refusal raises an error and reveals nothing.",
  ["inputs", "configurations"], "all role combinations of sender and receiver, all operations, all argument forms",
  "The role-restricted key pairs are not tested at all.",
  [KP], [("role overrides", KP + " RsaAuthKeyPair/RsaEncKeyPair")], (), ["RsaAuthKeyPair", "RsaEncKeyPair"])

p("C27", "Password-encrypted data opens only intact with the password",
  "Data encrypted with a password decrypts with the same password to exactly the original bytes, for every length including zero. Decryption raises an error, and never returns data, for any other password and for any altered, truncated, extended or reordered ciphertext, and two encryptions of the same data never give the same ciphertext.",
  ["inputs", "fault_sequences"], "all data lengths around block boundaries, all passwords of a small set, all single-bit alterations and truncations",
  "Tests encrypt one message and never present wrong passwords or altered data.",
  [UT], [("AES-EAX with password hash", UT + " Utils.encrypt/decrypt")], (), ["Utils.encrypt", "Utils.decrypt"])

p("C28", "Concurrent readers never disturb each other or see torn state",
  "When several threads look up keys, test membership or make and check proofs on one plain trie (MPT) at the same time, each gets the answer it would get alone. A lookup or membership test that runs concurrently with one insert, overwrite or delete gives the answer for the contents before or after that operation, never anything else, and the writer's result is that of running alone.",
  ["schedules"], "all interleavings at source-line granularity up to the preemption bound",
  "Every test is single-threaded.",
  [M, NP, ND], [("readers work on private copies of decoded nodes", M + " MPT._get_node"), ("root switched in one assignment after nodes are stored", M + " MPT.update/delete")],
  [("root reference", "switched by writers", M + " MPT._root")], ["MPT.get/contains/get_proof_*/verify_proof_*/update/delete"])

p("C32", "Threads at work on separate or unchanged objects do not meet",
  "When two threads each work on an object of their own - a trie, full trie, sparse or root-only view, Merkle tree or key pair that was created separately, or only nibble paths, nodes, references, proofs and helper functions - or only ask questions (lookups, listings, proofs, verifications, views, encodings, signatures) of one shared trie, full trie, view, built Merkle tree or key pair, every operation gives the result it gives alone, and afterwards each object shows what it shows when the operations run one after the other.",
  ["schedules"], "all interleavings at source-line granularity up to the preemption bound, for every pair of operations",
  "Every test is single-threaded.",
  [M, EM, MT, MTT, KP, NP, ND], [("no state outside the objects", "module and class level of every module"), ("nodes are decoded for each operation", M + " MPT._get_node")],
  (), ["every public operation"])

p("C29", "Equality and hashing follow content",
  "Two plain tries (MPT) compare equal exactly when their root hashes are equal, two Merkle trees that hold leaves exactly when their Merkle roots are equal, two proofs exactly when all their fields are equal, and two key pairs of one kind exactly when name and public key are equal; comparing with anything else gives unequal. Every such object can be hashed, equal objects have equal hashes, and the hash of an unchanged object is stable.",
  ["inputs", "histories"], "all pairs of reachable small tries, trees, proofs and key pairs",
  "Tests compare two proofs; trie, tree and key pair comparison and hashing are not tested.",
  [M, MTT, PR, KP], [("comparison", M + " MPT.__eq__/__hash__; " + MTT + " MerkleTools.__eq__/__hash__; " + PR + " Proof.__eq__; " + KP + " RsaKeyPair.__eq__/__hash__")], (), ["==", "hash()"])

p("C30", "Questions and failed operations never change a trie",
  "Looking up keys, testing membership, asking for root hash, length or views, making and checking proofs (valid or forged), encoding, and any operation that raises an error leave the trie's root hash, its contents, its node storage and its data storage exactly as they were. Repeating the question gives the same answer, and arguments passed in (keys, values, proofs) are not modified.",
  ["histories", "inputs"], "all read operations and all failing operations in all reachable states",
  "Tests check return values and never compare the state before and after.",
  [M, EM, NP], [("read paths", M + " MPT.get/contains/get_proof_*/verify_proof_*"), ("failing deletes", M + " MPT._delete"), ("failing updates", EM + " EMPT.update")], (), ["all public operations of MPT, EMPT, SparseEMPT, RootEMPT"])

p("C31", "Hash helpers compute the standard digests",
  "The Keccak helper returns the standard Keccak-256 digest of every byte string, raw or as hex; hashing a list of chunks gives the digest of their concatenation; and the SHA-256 and SHA-512 helpers return the standard digests. A hash object that was asked for unfinished can be continued, gives the standard digest of all it was fed, and is independent of every other. An unknown hash type or non-bytes input raises an error.",
  ["inputs"], "all byte strings of every length around the sponge and block sizes, all chunkings of short strings",
  "Tests hash one string with the SHA helpers; the Keccak helpers are only exercised indirectly.",
  [HA, UT], [("Keccak helpers", HA + " keccak_hash/keccak_hash_list"), ("SHA helpers", UT + " Utils.hash_data/sha256/sha512")], (), ["keccak_hash", "keccak_hash_list", "Utils.hash_data"])

p("C33", "Key and file checks answer truthfully; keys and ids never repeat",
  "Asked whether a byte string is a valid public (private) RSA key, the key check answers true exactly when the string is a loadable RSA key without (with) its private half, in every serialization, and false for everything else, including damaged, truncated and protected keys and keys of another kind; asked to raise, it raises KeyError for what cannot be loaded; it fails in no other way. The file and directory checks are true exactly when a file (directory) of that name exists at that moment, for absolute, relative and ./ names. Freshly made RSA and ECC keys are private keys of the kind asked for, and neither keys nor identifiers ever repeat.",
  ["inputs", "histories"], "all serializations of keys and all damaged ones, all histories of creating and removing files, all ways of writing a name, all repeated and forked requests for keys and identifiers",
  "Tests ask the key check about one good and one nonsense string per kind, the file checks about one present and one absent name, and make one key and one identifier.",
  [UT], [("key check", UT + " Utils.rsa_key_valid"), ("file checks", UT + " Utils.file_exists/dir_exists"), ("fresh keys and identifiers", UT + " Utils.generate_rsa_keypair/generate_ecc_key/get_id/get_id_string")],
  (), ["Utils.rsa_key_valid", "Utils.file_exists", "Utils.dir_exists", "Utils.generate_rsa_keypair", "Utils.generate_ecc_key", "Utils.get_id"])

p("C34", "Any storage will do, and it holds the whole trie",
  "A plain, sparse or full trie works on every storage object that offers the documented dictionary methods - getting and setting for the operations of the plain trie, also deleting, membership, length and listing of keys for the other operations and classes - whether the storage is empty, false, ordered differently, hands out fresh copies or keeps its content in files: every operation gives the answer it gives on a dictionary. The storages and the root are the whole state: at every moment a trie opened on the storages or copies of them with the current root, in this process or another one, has the same root hash, contents, references and proofs and evolves identically. The node storage holds only encoded nodes, each under its Keccak-256 hash, and the data storage exactly the current keys and values.",
  ["histories", "inputs", "configurations"], "all operation sequences on all kinds of storage, all moments of opening again",
  "Tests only use empty dictionaries as storages and never open a trie in another process.",
  [M, EM], [("node storage access", M + " MPT._get_node/_store_node/encode"), ("data storage access", EM + " EMPT.get/update/delete/build_trie/__iter__"), ("opening", EM + " EMPT.__init__; " + M + " MPT.__init__")],
  [("storages", "nodes by hash, data by key", M + " MPT._storage; " + EM + " EMPT._data_storage"), ("root", "reference of the root node", M + " MPT._root")], ["MPT", "EMPT", "SparseEMPT"])

p("C35", "Secrets do not leave the library",
  "Nothing a key pair or the encryption helpers give out tells a secret that is not the caller's to get: string forms, names, hashes and public keys of key pairs, signatures, sealed messages, data encrypted with a password, keys saved with a non-empty passphrase, error messages, prints, logs and every file written never contain - plain or in hexadecimal, base64 or decimal form - the private key, the passphrase or password, the sealed or encrypted plaintext or the session key; a refused message or a damaged ciphertext gives nothing of the plaintext. Every sealed message, encryption, save and key pair uses fresh randomness: session keys, nonces, stored forms and primes never repeat, even from equal inputs, with a stopped clock, a seeded random module, or in forked processes.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences of key pairs of every class, all lengths of plaintext, names and passphrases of a grid, all unfit arguments, repetitions and forks",
  "Tests look at results only for success and never at what errors, string forms, files and repeated calls give away.",
  [KP, UT], [("string forms", KP + " RsaKeyPair.__str__/__repr__"), ("sealing", KP + " RsaKeyPair.encrypt/decrypt"), ("saving", KP + " RsaKeyPair.to_key_file/to_key_string"), ("password encryption", UT + " Utils.encrypt/decrypt")],
  (), ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair", "Utils.encrypt", "Utils.decrypt"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
