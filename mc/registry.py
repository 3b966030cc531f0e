"""Which tasks decide which property."""
CHECKS = {}


def add(prop, module, tasks, level, rule, assumptions=()):
    CHECKS[prop] = dict(module="mc." + module, tasks=tasks, level=level, rule=rule, assumptions=list(assumptions))


MC = "model_checking"
HASH = "Keccak-256 (pycryptodome) has no collisions among the explored values"

add("C01", "c_dict", "c01_tasks", MC,
    "states: trie contents enumerated per key universe (all subsets up to the bound), each reached by several histories, plus "
    "every operation sequence of the stated depth; transitions: updates and deletes executed on the real trie; each trace is "
    "compared with a dict by get/[]/contains/in on all keys, prefixes, extensions and neighbours",
    ["values are non-empty byte strings, keys are bytes"])
add("C02", "c_dict", "c02_tasks", MC,
    "as C01, with the root hash compared after every operation with the root the Yellow Paper defines for the model's pairs",
    [HASH, "reference trie checked against ethereum/tests vectors by setup_cmd"])
PRF = "reference proof checker: follows the target through the proof nodes, addressed by their Keccak hash, from the root hash"
add("C03", "c_proofs", "c03_tasks", MC,
    "states: trie contents (families of key universes, lengths and values); in each, a proof for every key, verified by every kind of "
    "verifier object, refused for other keys, re-verified after every change (stale) and after the change is undone", [HASH])
add("C04", "c_proofs", "c04_tasks", MC,
    "states: tries under attack; transitions: forged proofs judged - every one-step edit, bit flip, and node sequence up to the bound over "
    "a pool of own and foreign nodes, for every target and root; accepting requires the " + PRF,
    [HASH, "a verification that raises counts as a rejection"])
add("C05", "c_proofs", "c05_tasks", MC,
    "states: trie contents; in each, a proof for every absent probe key, verified by every kind of verifier object, refused for present keys, "
    "re-verified after every change (stale) and after the change is undone", [HASH])
add("C06", "c_proofs", "c06_tasks", MC,
    "as C04 for exclusion proofs, with the marker leaf at the end of the proof", [HASH, "a verification that raises counts as a rejection"])
add("C07", "c_store", "c07_tasks", MC,
    "states: storage contents after every operation sequence (depth 4-5) and along family histories, one or two live tries on one storage; in "
    "the last state every root obtained on the way is opened again in every form and compared with the contents model of that moment", [HASH])
add("C08", "c_store", "c08_tasks", MC,
    "states: trie contents; in each: encode, decode, compare answers and proofs, then every continuation of length two against the reference "
    "root, and independence of both tries", [HASH])
add("C09", "c_store", "c09_tasks", "fault_enumeration",
    "every state x operation x storage access (n-th access raises, before or after its effect, as OSError or KeyError), then comparison with "
    "the model before the operation and repetition; nontrivial: the fault hit inside the operation", [HASH])
add("C10", "c_store", "c10_tasks", MC,
    "states: histories run in lockstep on secure MPT/EMPT/SparseEMPT and plain tries over hashed keys (keys whose hashes share prefixes and "
    "keys that are hashes of other keys included); roots after each operation, lookups and proofs in both directions at the end", [HASH])
DATA = "the encoding of a data reference (pinned by the existing tests) is taken as given when computing expected roots"
add("C11", "c_full", "c11_tasks", MC,
    "states: every sequence of mapping operations up to the depth on a live full trie (bytes, bytearray and codec values), plus family contents "
    "with one more operation; every state is compared with a dict, its references and its root, and every operation that must be refused is tried", [HASH, DATA])
add("C12", "c_full", "c12_tasks", MC,
    "states: data storages after every single and every ordered pair of alterations (menu of alterations per value) behind a full trie; every key is "
    "then read by get, [], items, values, popitem", [HASH])
add("C13", "c_full", "c13_tasks", MC,
    "states: full tries along histories; views derived at each moment, proofs from a pool (genuine, stale, foreign, damaged) judged by all views, "
    "every pair of further operations on either side", [HASH, DATA])
add("C14", "c_full", "c14_tasks", MC,
    "states: data storages x previous trie contents x value kinds, rebuilt; compared with insertion one by one, then further operations and rebuilds", [HASH, DATA])
add("C15", "c_full", "c15_tasks", MC,
    "states: every operation sequence up to the depth on one object, for every pair of separately created objects of related kinds; everything "
    "observable of the other object is compared before and after", [])
add("C16", "c_full", "c16_tasks", MC,
    "states: references over all keys and data up to a length; transitions: all pairs compared, and every one-bit change, length change and field edit "
    "of each encoding decoded", [HASH])
DIG = "the digest functions of hashlib have no collisions among the explored values"
add("C17", "c_merkle", "c17_tasks", MC,
    "states: every operation sequence up to the depth on a live tree (put, put_list, make, root, proof, reset), every list of leaves up to a length over three "
    "values, every number of leaves up to the bound for every hash type and mode; each compared with the pairwise hash tree over the model's leaves", [DIG])
add("C18", "c_merkle", "c18_tasks", MC,
    "states: leaf lists (every length up to the bound, every list over three values); in each, the proof of every leaf on several verifiers, refusals, and "
    "every proof after every change of the leaves (stale) and after restoring them", [DIG])
add("C19", "c_merkle", "c19_tasks", MC,
    "states: trees under attack; transitions: forged proofs judged - every step sequence up to the length over all nodes, sides, targets and roots, and every "
    "one-step edit of every genuine proof; accepting requires membership of the target and that the steps combine to the current root",
    [DIG, "a verification that raises counts as a rejection"])
add("C20", "c_merkle", "c20_tasks", MC,
    "states: proofs (of trees, and built by hand from a menu of field contents); transitions: encodings, decodings, verifications of decoded proofs, and every "
    "one-byte change, cut, insertion or field edit of an encoding, which must raise or give the proof the damaged text stands for", [DIG])
add("C21", "c_paths", "c21_tasks", MC,
    "states: nibble paths - every (bytes, offset) over the alphabets and every sequence of derivations (consume, common prefix, combine, decode, with every "
    "partner path) up to the depth, all two-byte strings, all lengths to 130 bytes; each compared with the list of half-bytes it stands for",
    ["offsets between 0 and twice the number of bytes"])
add("C22", "c_paths", "c22_tasks", MC,
    "states: nodes - leaves over all short paths and value lengths, extensions over all child kinds, branches over slot sets and child combinations, nested "
    "embedded children; transitions: encode, decode, reference, compared with the Yellow-Paper structure", [HASH])
add("C31", "c_paths", "c31_tasks", MC,
    "states: byte strings of every length up to the bound (three patterns), every way to cut short strings into chunks, every single and double cut of longer "
    "ones; transitions: helper calls compared with an independent Keccak-256 and hashlib", ["hashlib's SHA-2 is right; the pure-Python Keccak is checked by setup_cmd"])
RSAK = "RSA, AES-EAX, OAEP and PBES2 of pycryptodome are secure: no accidental forgery among the explored alterations"
KEYS = "keys of 1024, 1031, 1536, 2048, 3072 and 4096 bits stand for all key lengths"
add("C23", "c_crypto", "c23_tasks", MC,
    "states: signed messages (every length to 139 and boundary lengths), signatures, histories; transitions: verifications - of every small edit of the message, every "
    "one-bit change, cut and extension of the signature, every key, and every sequence of three questions on shared objects", [RSAK, KEYS])
add("C24", "c_crypto", "c24_tasks", MC,
    "states: sealed messages (every length to 69 and boundary lengths, all sender/recipient pairs) and every combination of fields of four messages; transitions: "
    "attempts to open, for every bit flip, cut and menu edit of each field and of the text", [RSAK, KEYS])
add("C25", "c_crypto", "c25_tasks", MC,
    "states: saved keys (all passphrases of the menu, all classes, string and file); transitions: loads with every passphrase and of data cut at every place, with "
    "every character changed, lost or field exchanged", [RSAK, KEYS, "passphrases within Latin-1 (the key format's alphabet)"])
add("C26", "c_crypto", "c26_tasks", MC,
    "states: pairs of the three classes, generated and loaded back by every class; transitions: every operation of every role, allowed and refused", [RSAK, KEYS])
add("C27", "c_crypto", "c27_tasks", MC,
    "states: encrypted data (every length to 139 and boundary lengths, all password pairs of the menu); transitions: decryptions of every bit flip, cut, insertion, block "
    "exchange and mixture, repeated encryption with clock and random module frozen and in forked processes", [RSAK])
add("C33", "c_helpers", "c33_tasks", MC,
    "states: byte strings offered as keys (every serialization of RSA keys, of other keys and of neither; every cut, changed bit or character, lost and doubled byte of seven "
    "serializations), every sequence of file operations to the bound with every way of writing a name, unusual names of every kind of file, identifiers and keys made with clock and "
    "random module frozen and in forked processes; transitions: questions, compared with what pycryptodome loads and with os.stat", ["pycryptodome decides what is a loadable RSA key"])
add("C34", "c_storage", "c34_tasks", MC,
    "states: every sequence of operations to the bound on plain, sparse and full tries over nine kinds of storage (only the documented methods, fresh copies, false, other orders, "
    "mappings, files) in lockstep with a dictionary; each state opened again on the same storage, on a copy, after every step, and in another process; transitions: operations; "
    "compared: answers, references, proofs, listings, views, encodings, what the storages hold", ["storages are reliable (C09 is about failing ones)"])
add("C35", "c_secrets", "c35_tasks", MC,
    "states: every sequence of operations of a key pair and its partner to the bound, every length of plaintext, every name and passphrase of a grid, every operation with every unfit argument, "
    "repeated sealing, saving and key making with a stopped clock, a seeded random module and in forks; transitions: operations; after each, everything given out - results, str/repr/format/hash, "
    "public keys, errors with their causes, prints, logs, warnings, every file written - is unwrapped (hexadecimal, base64, escapes, nested) and searched for runs of the private key, passphrases, "
    "keys made from them, plaintexts and session keys", ["Latin-1 passphrases", "an error about an unfit argument may name a public key", "key stretching is cut to one round while histories are explored (C25 uses the real one)"])
add("C28", "c_threads", "c28_tasks", MC,
    "states: executions of real threads on the real trie under a controlled scheduler - every schedule with at most one preemption at any line of pymt, and with at "
    "most two (thorough: three, and one at any bytecode) at accesses of storage or trie attributes; answers must be those before or after the write, or those of running alone",
    ["sequentially consistent interleavings (CPython with the GIL)"])
add("C32", "c_threads", "c32_tasks", MC,
    "states: executions of two real threads under a controlled scheduler, for pairs of questions on one shared object and of operations on two separate objects of one kind "
    "(tries, full tries, views, Merkle trees, key pairs, values and helper functions) - every schedule with at most one preemption at any line (thorough: any bytecode) of pymt; results "
    "and the objects afterwards must be those of running alone", ["sequentially consistent interleavings (CPython with the GIL)"])
add("C29", "c_objects", "c29_tasks", MC,
    "states: tries after every operation sequence up to the depth and along family histories (plain, secure, opened by root, decoded), Merkle trees over every short list of "
    "leaves, proofs over a grid of field contents, key pairs of every kind, name and key; transitions: comparisons (==, !=, hash) of all pairs, with objects of other types, and "
    "before and after questions and undone changes", [HASH, DIG])
add("C30", "c_objects", "c30_tasks", MC,
    "states: tries of all four kinds with whole and damaged storages; transitions: every question (twice, in both orders) and every operation that raises, with roots, storages, "
    "data and arguments compared before and after", [HASH])
