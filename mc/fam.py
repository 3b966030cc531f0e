"""Families of trie contents and of histories that lead to them. Everything is enumerated in a fixed order.

A family is a generator of (pairs, histories, extra_probes): a history is a list of operations ("u", key, value) or
("d", key) on an empty trie that ends with exactly `pairs` stored.
"""
import copy
import itertools
from . import ref

B = bytes


def bs(*xs):
    return [bytes.fromhex(x) for x in xs]


TERN = [B(c) for n in range(3) for c in itertools.product((0x00, 0x01, 0x10, 0x11), repeat=n)]
CHAIN = bs("", "00", "0000", "000000", "0001", "0010", "001000", "01")
CHAIN2 = bs("12", "1234", "123456", "12345678", "1235", "1244", "22", "123457")
TWINS = [B([a, b]) for a in (0x00, 0x10, 0x20) for b in (0x00, 0x01)]
WORDS = [b"do", b"dog", b"doge", b"horse", b"dogglesworth", b"d", b"hors", b"doe"]


def value(profile, i):
    """Value number i of a profile."""
    if profile == "tiny":
        return B([1 + i % 120])
    if profile == "high":
        return B([0x80 + i % 120])
    if profile == "long":
        return B([i % 256]) * 2 + b"L" * 38
    if profile == "same":
        return b"s" * 40
    if profile == "samesmall":
        return b"s"
    if profile == "mix":
        return [B([i % 128]), B([0xF0 - i % 16]) * 12, B([i % 256]) * 33, b"m" * (27 + i % 8), B([i % 256]) * 60][i % 5]
    if profile == "mix2":
        return [B([i % 256]) * 33, B([i % 128]), b"m" * (27 + i % 8), B([0xF0 - i % 16]) * 12, B([i % 256]) * 60][i % 5]
    if profile == "tricky":
        return [b"null", b"\x80", b"\xc0", ref.EMPTY_ROOT, b"1", ref.rlp([b" ", b"v"]), ref.rlp([b""] * 17), b"\x00",
                ref.rlp([b" ", b"null"]), b"\x7f", ref.rlp([b"\x00", ref.EMPTY_ROOT])][i % 11]
    raise KeyError(profile)


def ups(pairs, order):
    return [("u", k, pairs[k]) for k in order]


def similar(v):
    """Values that resemble v: same length with one byte changed at the beginning, in the middle or at the end, shorter,
    longer, a repetition, the reverse, the whole in another case."""
    out = []
    n = len(v)
    for pos in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
        for bit in (0x01, 0x80):
            c = bytearray(v)
            c[pos] ^= bit
            out.append(B(c))
    out += [v[:-1], v[1:], v + v[-1:], v[:1] + v, v + b"\x00", b"\x00" + v, v + v, v[::-1], v[: n // 2], B(b ^ 0xFF for b in v), v.swapcase(),
            ref.keccak(v), v[:1], v[-1:]]
    seen = {v, b""}
    return [x for x in out if not (x in seen or seen.add(x))]


VALUE_SHAPES = bs("12"), bs("1234", "1235"), bs("12", "1234"), bs("12", "1234", "1243"), bs("121212121212", "121212121222"), bs("", "05", "50")


def histories(pairs, keys, which):
    """Histories with the given names; keys is the universe (for keys to insert and remove again)."""
    ks = list(pairs)
    out = []
    for w in which:
        if w == "asc":
            out.append(ups(pairs, ks))
        elif w == "desc":
            out.append(ups(pairs, ks[::-1]))
        elif w == "perms":
            out.extend(ups(pairs, p) for p in itertools.permutations(ks))
        elif w == "rot":
            out.extend(ups(pairs, ks[i:] + ks[:i]) for i in range(len(ks)))
        elif w == "over":
            out.append([("u", k, b"old-value-%d" % i) for i, k in enumerate(ks[::-1])] + ups(pairs, ks))
        elif w == "toggle":
            out.append(ups(pairs, ks) + [("d", k) for k in ks] + ups(pairs, ks[::-1]))
        elif w == "del1":      # one further key comes and goes (every choice)
            for x in keys:
                if x not in pairs:
                    out.append([("u", x, b"x" * 40)] + ups(pairs, ks) + [("d", x)])
        elif w == "del1b":
            for x in keys:
                if x not in pairs:
                    out.append(ups(pairs, ks[::-1]) + [("u", x, b"x")] + [("d", x)])
        elif w == "delall":    # everything else in the universe comes first and goes, in both orders
            rest = [x for x in keys if x not in pairs]
            out.append([("u", x, b"y" * 34) for x in keys] + [("d", x) for x in rest] + ups(pairs, ks))
            out.append(ups(pairs, ks) + [("u", x, b"z") for x in rest] + [("d", x) for x in rest])
    seen, uniq = set(), []
    for h in out:
        t = tuple(h)
        if t not in seen:
            seen.add(t)
            uniq.append(h)
    return uniq


def subsets(keys, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.combinations(range(len(keys)), n)


def fam_subsets(keys, profiles, lo, hi, which):
    for idx in subsets(keys, lo, hi):
        for p in profiles:
            pairs = {keys[i]: value(p, i) for i in idx}
            yield pairs, histories(pairs, keys, which), keys


def wide_keys():
    return [B([n << 4]) for n in range(16)]


def fam_wide(profiles, which):
    """Branches with all, all but one, two, and with one or two children, with and without a value in the branch."""
    ks = wide_keys()
    for p in profiles:
        for drop in [()] + list(itertools.combinations(range(16), 1)) + [(0, 15), (7, 8), (14, 15), (0, 1)]:
            for withval in (False, True):
                pairs = {ks[i]: value(p, i) for i in range(16) if i not in drop}
                if withval:
                    pairs[b""] = value(p, 16)
                yield pairs, histories(pairs, ks, which), ks
        for keep in list(itertools.combinations(range(16), 1)) + [(0, 15), (15, 14), (9, 10), (1, 2)]:
            for withval in (False, True):
                pairs = {ks[i]: value(p, i) for i in keep}
                if withval:
                    pairs[b""] = value(p, 16)
                yield pairs, histories(pairs, [ks[(keep[0] + 1) % 16], ks[(keep[0] + 9) % 16], b""], which), ks[:4]


def fam_nibble_pairs(profile, which):
    """Two and three keys diverging in every pair of nibble values at an even and at an odd position."""
    for a, b in itertools.combinations(range(16), 2):
        for ks in ([B([a << 4 | 5]), B([b << 4 | 5])], [B([0x50 | a]), B([0x50 | b])],
                   [B([0x50 | a, 1]), B([0x50 | b, 1]), B([0x50])]):
            pairs = {k: value(profile, i) for i, k in enumerate(ks)}
            yield pairs, histories(pairs, ks + [b""], which), []


def fam_long(lengths, profiles, which):
    """Long keys that part at the first, a middle or the last nibble, or where one extends the other."""
    for n in lengths:
        base = B((i * 37 + 11) % 256 for i in range(n))
        muts = []
        for pos in sorted({0, n // 2, n - 1}):
            if 0 <= pos < n:
                for m in (0x01, 0x10):
                    k = bytearray(base)
                    k[pos] ^= m
                    muts.append(B(k))
        others = muts + [base + b"\x07", base[: n // 2], base + base[:3] + b"\x99"]
        for o in others:
            if o == base:
                continue
            for p in profiles:
                pairs = {base: value(p, 0), o: value(p, 1)}
                yield pairs, histories(pairs, [muts[0] if muts else b"q"] + [base[: n // 2]], which), []
        if muts:
            pairs = {k: value(profiles[0], i) for i, k in enumerate([base] + others)}
            yield pairs, histories(pairs, [], which), []


def fam_values(lengths, which):
    """Value lengths, around every limit of the encoding, in each position a value can have."""
    for n in lengths:
        for fill in (b"v", b"\x80"):
            v = fill * n
            for ks in (bs("12"), bs(""), bs("1234", "1235"), bs("12", "1234"), bs("12", "1234", "1243"), bs("00", "10", "11"),
                       bs("", "05", "50"), bs("121212121212", "121212121222")):
                pairs = {k: (v if i != 1 else b"w" + v[1:]) for i, k in enumerate(ks)}
                yield pairs, histories(pairs, [b"\x12", b"\x12\x35"], which), []


def fam_big(sizes, which):
    """Large tries of dense, sparse and nested keys."""
    for n in sizes:
        sets = [[B([i % 256]) if i < 256 else B([i % 256, i // 256]) for i in range(n)],
                [ref.keccak(B([i % 256, i // 256]))[:4] for i in range(n)],
                [b"k%d" % i for i in range(n)]]
        if n <= 60:
            sets.append([b"\x11" * i for i in range(n)])
        for ks in sets:
            pairs = {k: value("mix", i) for i, k in enumerate(ks)}
            yield pairs, histories(pairs, [ks[0] + b"\x00", b"zz"], which), []


def fam_huge(counts, depths, which):
    """Very many keys, and very deep nesting."""
    for ks in [[b"k%d" % i for i in range(n)] for n in counts] + [[b"\x11" * i for i in range(n)] for n in depths]:
        pairs = {k: value("mix", i) for i, k in enumerate(ks)}
        yield pairs, histories(pairs, [ks[0] + b"\x00", b"zz"], which), []


FAMS = {}


def family(name, gen):
    FAMS[name] = gen


family("tern2", lambda: fam_subsets(TERN, ["tiny", "long"], 0, 2, ["perms", "over", "toggle", "del1", "del1b"]))
family("tern3", lambda: fam_subsets(TERN, ["mix", "long"], 3, 3, ["perms"]))
family("tern3d", lambda: fam_subsets(TERN, ["tiny", "mix2"], 3, 3, ["asc", "del1b"]))
family("tern3s", lambda: fam_subsets(TERN, ["mix"], 3, 3, ["asc", "over"]))
family("tern3l", lambda: fam_subsets(TERN, ["long"], 3, 3, ["asc"]))
TERNS = [k for k in TERN if 0x11 not in k]
family("tern3m", lambda: fam_subsets(TERNS, ["mix"], 3, 3, ["asc", "over"]))
family("tern3n", lambda: fam_subsets(TERNS, ["long"], 3, 3, ["asc"]))
family("tern4", lambda: fam_subsets(TERN, ["mix"], 4, 4, ["asc", "desc"]))
family("tern4d", lambda: fam_subsets(TERN, ["mix2"], 4, 4, ["perms"]))
family("chain", lambda: fam_subsets(CHAIN, ["tiny", "long", "mix"], 0, 8, ["asc", "desc", "delall"]))
family("chain2", lambda: fam_subsets(CHAIN2, ["mix", "same"], 0, 8, ["asc", "desc", "delall"]))
family("chain_s", lambda: fam_subsets(CHAIN, ["mix"], 0, 8, ["asc"]))
family("chain2_s", lambda: fam_subsets(CHAIN2, ["mix2"], 1, 4, ["asc", "delall"]))
family("twins", lambda: fam_subsets(TWINS, ["same", "samesmall"], 0, 6, ["asc", "desc", "delall", "toggle"]))
family("words", lambda: fam_subsets(WORDS, ["tricky", "mix"], 0, 8, ["asc", "delall"]))
family("words_s", lambda: fam_subsets(WORDS, ["tricky"], 0, 8, ["asc"]))
family("words_3", lambda: fam_subsets(WORDS, ["tricky"], 0, 3, ["asc"]))
family("chain_4", lambda: fam_subsets(CHAIN, ["mix"], 0, 4, ["asc"]))
family("wide", lambda: fam_wide(["tiny", "long"], ["asc", "desc", "del1", "del1b"]))
family("wide_s", lambda: fam_wide(["mix"], ["asc", "del1"]))
family("nib", lambda: fam_nibble_pairs("mix", ["asc", "desc", "del1b"]))
family("long", lambda: fam_long([1, 2, 3, 8, 16, 20, 27, 28, 29, 30, 31, 32, 33, 34, 54, 55, 56, 57, 63, 64, 65, 127, 128, 129,
                                 255, 256, 257, 511, 512, 600, 1024, 1030, 2049, 4100], ["tiny", "long"], ["asc", "desc", "del1b"]))
family("long_s", lambda: fam_long([2, 16, 20, 31, 32, 33, 55, 64, 128, 257, 1030], ["mix"], ["asc", "del1b"]))
family("values", lambda: fam_values(list(range(1, 70)) + [127, 128, 254, 255, 256, 257, 300, 1000, 65535, 65536],
                                    ["asc", "desc"]))
family("values_s", lambda: fam_values(list(range(1, 40)) + [54, 55, 56, 57, 127, 128, 255, 256, 1025, 4097, 65537], ["asc"]))
family("big", lambda: fam_big([17, 40, 60, 150, 300], ["asc", "desc", "delall", "toggle"]))
family("big_s", lambda: fam_big([17, 40], ["asc"]))
family("huge", lambda: fam_huge([1100], [150], ["asc"]))


def states(name, part, parts):
    """Every parts-th state of the family, starting with number `part`."""
    for i, st in enumerate(FAMS[name]()):
        if i % parts == part:
            yield st


def tasks(fn, fams, parts=8, **extra):
    """One task per family and part; small families get fewer parts."""
    return [(fn, dict(fam=f, part=p, parts=n, **extra)) for f, n in
            ((f if isinstance(f, tuple) else (f, parts)) for f in fams) for p in range(n)]


def near(keys, limit=None):
    """Probe keys: prefixes, extensions and neighbours of the given keys (no duplicates, fixed order)."""
    out, seen = [], set()

    def add(k):
        if k not in seen:
            seen.add(k)
            out.append(k)

    add(b"")
    for k in keys:
        add(k)
        if k:
            add(k[:-1])
            add(k[:-1] + B([k[-1] ^ 1]))
            add(k[:-1] + B([k[-1] ^ 0x10]))
            add(B([k[0] ^ 0x80]) + k[1:])
            if len(k) > 3:
                m = len(k) // 2
                add(k[:m])
                add(k[:m] + B([k[m] ^ 1]) + k[m + 1:])
                add(k[:m] + B([k[m] ^ 0x20]))
        add(k + b"\x00")
        add(k + b"\x1f")
    return out


# ---------------------------------------------------------------- running histories on the real trie
def new_trie(secure=False, storage=None):
    from pymt.mpt import MPT
    return MPT({} if storage is None else storage, secure=secure)


def apply(t, op):
    if op[0] == "u":
        t.update(op[1], op[2])
    else:
        t.delete(op[1])


def build(history, secure=False, storage=None):
    t = new_trie(secure, storage)
    for op in history:
        apply(t, op)
    return t


def fork(t, history, secure=False):
    """An independent copy of a live trie (its history replayed if it cannot be copied)."""
    try:
        return copy.deepcopy(t)
    except Exception:
        return build(history, secure)


def model(history):
    m = {}
    for op in history:
        if op[0] == "u":
            m[op[1]] = op[2]
        else:
            del m[op[1]]
    return m


def script(history, tail, secure=False, head=()):
    lines = ["from pymt.mpt import MPT"] + list(head) + ["t = MPT({}, secure=%r)" % secure]
    for op in history:
        lines.append("t.update(%r, %r)" % op[1:] if op[0] == "u" else "t.delete(%r)" % op[1])
    return lines + list(tail)


def attempt(f, *a):
    """('ok', result) or ('raised', exception type name)."""
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("raised", type(e).__name__)
