"""Checks the reference models against published vectors (run by setup_cmd)."""
import hashlib
from . import ref


def main():
    # keccak-256
    assert ref.keccak_pure(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
    assert ref.keccak_pure(b"abc").hex() == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
    for n in (0, 1, 31, 32, 33, 134, 135, 136, 137, 271, 272, 273, 500):
        d = bytes(i % 251 for i in range(n))
        assert ref.keccak_pure(d) == ref.keccak(d), n
    # RLP (ethereum/tests rlptest.json)
    V = [(b"", "80"), (b"dog", "83646f67"), ([], "c0"), (b"\x0f", "0f"), (b"\x04\x00", "820400"), (b"\x80", "8180"),
         ([b"dog", b"god", b"cat"], "cc83646f6783676f6483636174"), ([[[], []], []], "c4c2c0c0c0"),
         (b"Lorem ipsum dolor sit amet, consectetur adipisicing eli",
          "b74c6f72656d20697073756d20646f6c6f722073697420616d65742c20636f6e7365637465747572206164697069736963696e6720656c69"),
         (b"Lorem ipsum dolor sit amet, consectetur adipisicing elit",
          "b8384c6f72656d20697073756d20646f6c6f722073697420616d65742c20636f6e7365637465747572206164697069736963696e6720656c6974")]
    for x, h in V:
        assert ref.rlp(x).hex() == h, x
        assert ref.unrlp(bytes.fromhex(h)) == x, x
    assert ref.rlp(b"a" * 1024)[:3].hex() == "b90400"
    # hex-prefix (Yellow Paper / Ethereum wiki)
    assert ref.hp((1, 2, 3, 4, 5), False).hex() == "112345"
    assert ref.hp((0, 1, 2, 3, 4, 5), False).hex() == "00012345"
    assert ref.hp((0, 15, 1, 12, 11, 8), True).hex() == "200f1cb8"
    assert ref.hp((15, 1, 12, 11, 8), True).hex() == "3f1cb8"
    # trie roots (ethereum/tests trietest.json, trieanyorder.json and hex_encoded_securetrie_test.json excerpts)
    T = [
        ({}, "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"),
        ({"A": "a" * 50}, "d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab"),
        ({"doe": "reindeer"}, "11a0327cfcc5b7689b6b6d727e1f5f8846c1137caaa9fc871ba31b7cce1b703e"),
        ({"dog": "puppy", "doe": "reindeer"}, "05ae693aac2107336a79309e0c60b24a7aac6aa3edecaef593921500d33c63c4"),
        ({"doe": "reindeer", "dog": "puppy", "dogglesworth": "cat"},
         "8aad789dff2f538bca5d8ea56e8abe10f4c7ba3a5dea95fea4cd6e7c3a1168d3"),
        ({"do": "verb", "horse": "stallion", "doge": "coin", "dog": "puppy"},
         "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84"),
        ({"foo": "bar", "food": "bass"}, "17beaa1648bafa633cda809c90c04af50fc8aed3cb40d16efbddee6fdf63c4c3"),
        ({"be": "e", "dog": "puppy", "bed": "d"}, "3f67c7a47520f79faa29255d2d3c084a7a6df0453116ed7232ff10277a8be68b"),
        ({"test": "test", "te": "testy"}, "8452568af70d8d140f58d941338542f645fcca50094b20f3c3d8c3df49337928"),
    ]
    for pairs, h in T:
        assert ref.RefTrie({k.encode(): v.encode() for k, v in pairs.items()}).root_hash.hex() == h, pairs
    # the proof walker finds every key and no other one
    t = ref.RefTrie({b"do": b"verb", b"dog": b"puppy" * 9, b"doge": b"coin", b"horse": b"stallion"})
    for k in (b"", b"d", b"do", b"dog", b"doge", b"dogs", b"horse", b"hors"):
        kind, v, used = ref.walk(t.root_hash, k, t.nodes.values())
        assert (kind, v) == (("present", t.pairs[k]) if k in t.pairs else ("absent", None))
        for e in used:
            assert ref.walk(t.root_hash, k, [n for n in t.nodes.values() if n != e])[0] == "unproven"
    # Merkle tree
    L = [hashlib.sha256(c).digest() for c in (b"a", b"b", b"c")]
    assert ref.mt_root(L, "sha256").hex() == "7075152d03a5cd92104887b476862778ec0c87be5c2fa1c0a90f87c49fad6eff"
    print("reference models: self-test passed")


if __name__ == "__main__":
    main()
