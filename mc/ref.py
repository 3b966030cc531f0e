"""Reference models, written from the specifications and independent of the code under test.

RLP and the Merkle Patricia trie follow the Ethereum Yellow Paper (appendices B and D); Keccak-f[1600] follows
FIPS-202 with the original Keccak padding. mc/selftest.py checks them against official vectors.
"""
import hashlib
from Crypto.Hash import keccak as _pk

# ---------------------------------------------------------------- keccak (pure Python, for C31 and the self-test)
_RC = []
_ROT = [[0] * 5 for _ in range(5)]


def _init():
    x, y = 1, 0
    for t in range(24):
        _ROT[x][y] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    r = 1
    for _ in range(24):
        rc = 0
        for j in range(7):
            if r & 1:
                rc ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        _RC.append(rc)


_init()
_M = (1 << 64) - 1


def _rol(v, n):
    return ((v << n) | (v >> (64 - n))) & _M if n else v


def _f(A):
    for rnd in range(24):
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[(x - 1) % 5] ^ _rol(C[(x + 1) % 5], 1) for x in range(5)]
        A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                B[y][(2 * x + 3 * y) % 5] = _rol(A[x][y], _ROT[x][y])
        A = [[B[x][y] ^ ((~B[(x + 1) % 5][y]) & _M & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        A[0][0] ^= _RC[rnd]
    return A


def keccak_pure(data):
    rate = 136
    p = bytearray(data) + b"\x01"
    p += b"\x00" * (-len(p) % rate)
    p[-1] |= 0x80
    A = [[0] * 5 for _ in range(5)]
    for off in range(0, len(p), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(p[off + 8 * i:off + 8 * i + 8], "little")
        A = _f(A)
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))


def keccak(data):
    h = _pk.new(digest_bits=256)
    h.update(data)
    return h.digest()


# ---------------------------------------------------------------- RLP
def _len_bytes(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def rlp(x):
    """Encode nested lists of byte strings."""
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        if len(x) == 1 and x[0] < 0x80:
            return x
        if len(x) < 56:
            return bytes([0x80 + len(x)]) + x
        l = _len_bytes(len(x))
        return bytes([0xB7 + len(l)]) + l + x
    body = b"".join(rlp(i) for i in x)
    if len(body) < 56:
        return bytes([0xC0 + len(body)]) + body
    l = _len_bytes(len(body))
    return bytes([0xF7 + len(l)]) + l + body


class BadRlp(Exception):
    pass


def _item(d, i):
    if i >= len(d):
        raise BadRlp
    b = d[i]
    if b < 0x80:
        return d[i:i + 1], i + 1
    if b < 0xC0:
        if b < 0xB8:
            n, j = b - 0x80, i + 1
        else:
            k = b - 0xB7
            n, j = int.from_bytes(d[i + 1:i + 1 + k], "big"), i + 1 + k
            if len(d) < j or n < 56 or d[i + 1] == 0:
                raise BadRlp
        if j + n > len(d) or (n == 1 and b == 0x81 and d[j] < 0x80):
            raise BadRlp
        return d[j:j + n], j + n
    if b < 0xF8:
        n, j = b - 0xC0, i + 1
    else:
        k = b - 0xF7
        n, j = int.from_bytes(d[i + 1:i + 1 + k], "big"), i + 1 + k
        if len(d) < j or n < 56 or d[i + 1] == 0:
            raise BadRlp
    if j + n > len(d):
        raise BadRlp
    out, end = [], j + n
    while j < end:
        v, j = _item(d, j)
        out.append(v)
    if j != end:
        raise BadRlp
    return out, end


def unrlp(d):
    v, i = _item(bytes(d), 0)
    if i != len(d):
        raise BadRlp
    return v


# ---------------------------------------------------------------- nibbles, hex-prefix
def nibbles(key):
    return tuple(n for b in key for n in (b >> 4, b & 15))


def hp(nibs, leaf):
    f = 2 if leaf else 0
    if len(nibs) % 2:
        full = (f + 1,) + tuple(nibs)
    else:
        full = (f, 0) + tuple(nibs)
    return bytes(full[i] * 16 + full[i + 1] for i in range(0, len(full), 2))


def unhp(b):
    ns = nibbles(b)
    f = ns[0]
    return (ns[1:] if f & 1 else ns[2:]), bool(f & 2)


# ---------------------------------------------------------------- Merkle Patricia trie
EMPTY_ROOT = keccak(rlp(b""))


class RefTrie:
    """The Yellow-Paper trie of a dict of pairs: root hash, root node and all hashed nodes."""

    def __init__(self, pairs):
        self.nodes = {}      # keccak -> encoding, for nodes of 32 bytes and more (and the root)
        self.pairs = dict(pairs)
        if not pairs:
            self.root_hash, self.root_node = EMPTY_ROOT, b""
            return
        items = sorted((nibbles(k), bytes(v)) for k, v in pairs.items())
        s = self._struct(items, 0)
        self.root_node = rlp(s)
        self.root_hash = keccak(self.root_node)
        self.nodes[self.root_hash] = self.root_node

    def _ref(self, s):
        e = rlp(s)
        if len(e) < 32:
            return s
        h = keccak(e)
        self.nodes[h] = e
        return h

    def _struct(self, items, d):
        if len(items) == 1:
            return [hp(items[0][0][d:], True), items[0][1]]
        first, last = items[0][0], items[-1][0]
        n, m = d, min(len(first), len(last))
        while n < m and first[n] == last[n]:
            n += 1
        if n > d:
            return [hp(first[d:n], False), self._ref(self._struct(items, n))]
        value = b""
        if len(items[0][0]) == d:
            value, items = items[0][1], items[1:]
        kids, i = [b""] * 16, 0
        while i < len(items):
            nib, j = items[i][0][d], i
            while j < len(items) and items[j][0][d] == nib:
                j += 1
            kids[nib] = self._ref(self._struct(items[i:j], d + 1))
            i = j
        return kids + [value]


_cache = {}


def trie(pairs):
    k = frozenset(pairs.items())
    t = _cache.get(k)
    if t is None:
        if len(_cache) > 20000:
            _cache.clear()
        t = _cache[k] = RefTrie(pairs)
    return t


def root_hash(pairs):
    return trie(pairs).root_hash


def walk(root, key, encodings):
    """What the node encodings show about key below the root hash: ('present', value, used), ('absent', None, used)
    or ('unproven', None, used); used are the encodings of the hashed nodes on the way."""
    db = {keccak(e): e for e in encodings}
    path, used, ref = nibbles(key), [], root
    while True:
        if isinstance(ref, (bytes, bytearray)):
            if len(ref) == 0:
                return "absent", None, used
            e = db.get(bytes(ref))
            if e is None:
                return "unproven", None, used
            used.append(e)
            try:
                node = unrlp(e)
            except BadRlp:
                return "unproven", None, used
        else:
            node = ref
        if not isinstance(node, list) or len(node) not in (2, 17):
            return "unproven", None, used
        if len(node) == 17:
            if not path:
                return ("present", node[16], used) if node[16] else ("absent", None, used)
            ref, path = node[path[0]], path[1:]
            continue
        p, leaf = unhp(node[0])
        if leaf:
            return ("present", node[1], used) if p == path else ("absent", None, used)
        if path[:len(p)] != p:
            return "absent", None, used
        ref, path = node[1], path[len(p):]


def path_nodes(root, key, encodings):
    """Encodings of all nodes, hashed or embedded, met on the way to key below the root hash."""
    db = {keccak(bytes(e)): bytes(e) for e in encodings}
    path, out, ref = nibbles(key), [], root
    while True:
        if isinstance(ref, (bytes, bytearray)):
            e = db.get(bytes(ref))
            if e is None:
                return out
            try:
                node = unrlp(e)
            except BadRlp:
                return out
        else:
            node, e = ref, rlp(ref)
        out.append(e)
        if not isinstance(node, list) or len(node) not in (2, 17):
            return out
        if len(node) == 17:
            if not path:
                return out
            ref, path = node[path[0]], path[1:]
            continue
        p, leaf = unhp(node[0])
        if leaf or path[:len(p)] != p:
            return out
        ref, path = node[1], path[len(p):]


def norm_root(recorded):
    """The root hash a recorded root stands for: itself, or the hash of an encoded root node, or the empty root."""
    if not recorded:
        return EMPTY_ROOT
    return recorded if len(recorded) == 32 else keccak(recorded)


# ---------------------------------------------------------------- Merkle tree
def mt_levels(leaves, hash_type):
    h = getattr(hashlib, hash_type)
    levels = [list(leaves)]
    while len(levels[-1]) > 1:
        cur, nxt = levels[-1], []
        for i in range(0, len(cur) - 1, 2):
            nxt.append(h(cur[i] + cur[i + 1]).digest())
        if len(cur) % 2:
            nxt.append(cur[-1])
        levels.append(nxt)
    return levels


def mt_root(leaves, hash_type):
    return mt_levels(leaves, hash_type)[-1][0]


def mt_leaves(values, secure, hash_type):
    return [getattr(hashlib, hash_type)(v).digest() if secure else bytes(v) for v in values]


def mt_fold(target, steps, hash_type):
    h = getattr(hashlib, hash_type)
    cur = target
    for side, sib in steps:
        cur = h(sib + cur).digest() if side == "left" else h(cur + sib).digest()
    return cur
