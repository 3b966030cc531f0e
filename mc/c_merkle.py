"""C17-C20: Merkle trees over lists of leaves, and the codecs of their proofs."""
import copy
import hashlib
import itertools
import json
from . import ref
from .fam import attempt

TYPES = ["sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"]


def digest(hash_type, v):
    return getattr(hashlib, hash_type)(v).digest()


def mtree(values, secure, hash_type, how=0):
    """A MerkleTree holding values, built in one of several ways."""
    from pymt.mt import MerkleTree
    t = MerkleTree(secure, hash_type)
    if how == 0:
        for v in values:
            t.put(v)
        t.make_tree()
    elif how == 1:
        t.put_list(list(values))
        t.make_tree()
    elif how == 2:             # rebuilt on the way, filled before and reset
        t.put(b"to be forgotten")
        t.make_tree()
        t.reset_tree()
        for i, v in enumerate(values):
            t.add_leaf(v)
            if i % 2:
                t.get_merkle_root()
        t.make_tree()
    else:
        t.put_list(tuple(values))
        t.get_merkle_root()    # builds by itself
    return t


def clone(obj, rebuild):
    """A copy of a live tree, or the tree rebuilt if such objects cannot be copied."""
    try:
        return copy.deepcopy(obj)
    except Exception:
        return rebuild()


def tscript(values, secure, hash_type):
    return ["from pymt.mt import MerkleTree", "from pymt.proof import Proof", "t = MerkleTree(%r, %r)" % (secure, hash_type), "t.put_list(%r)" % list(values), "t.make_tree()"]


# ---------------------------------------------------------------- C17
def c17_ops(tools):
    ops = [("put", b"a"), ("put", b"b" * 33), ("list", (b"c", b"a")), ("make",), ("root",), ("reset",), ("proof", b"a")]
    if tools:
        ops[2] = ("put", b"")
    return ops


def c17_apply(t, m, ready, op, tools):
    """Run one operation; returns (ready, error)."""
    k = op[0]
    if k == "put":
        (t.add_leaf if tools else t.put)(op[1])
        m.append(op[1])
        return False, None
    if k == "list":
        t.put_list(list(op[1]))
        m.extend(op[1])
        return False, None
    if k == "make":
        t.make_tree()
        return True, None
    if k == "reset":
        t.reset_tree()
        del m[:]
        return False, None
    if k == "root":
        attempt(t.get_merkle_root)
        return ready or not tools, None
    if k == "proof":
        attempt(t.get_proof_of_inclusion, op[1])
        return ready, None
    raise KeyError(k)


def op_src(op, tools):
    return {"put": lambda: "t.%s(%r)" % ("add_leaf" if tools else "put", op[1]), "list": lambda: "t.put_list(%r)" % list(op[1]), "make": lambda: "t.make_tree()",
            "reset": lambda: "t.reset_tree()", "root": lambda: "try: t.get_merkle_root()\nexcept Exception: pass",
            "proof": lambda: "try: t.get_proof_of_inclusion(%r)\nexcept Exception: pass" % op[1]}[op[0]]()


def c17_observe(t, m, ready, secure, hash_type, tools):
    """First disagreement between the tree and the leaves m."""
    leaves = ref.mt_leaves(m, secure, hash_type)
    if t.get_leaf_count() != len(m) or len(t) != len(m):
        return "the tree counts %d leaves, expected %d" % (t.get_leaf_count(), len(m))
    for i, l in enumerate(leaves):
        if t.get_leaf(i) != l.hex() or (not tools and t.get(i) != l.hex()):
            return "leaf %d is %r, expected %r" % (i, t.get_leaf(i), l.hex())
    if not tools and t.get_count() != len(m):
        return "get_count() is %d" % t.get_count()
    for rep in range(2):
        r = attempt(t.get_merkle_root)
        if not m:
            if r[0] == "ok":
                return "an empty tree has the root %r" % (r[1],)
            continue
        want = ref.mt_root(leaves, hash_type).hex()
        want = want if tools else want.encode()
        if r[0] == "raised":
            if ready or not tools:
                return "get_merkle_root raised " + r[1]
        elif r[1] != want:
            return "the root is %r, expected %r" % (r[1], want)
    return None


def c17_seqs(ctx, tools, secure, hash_type, depth, first):
    from pymt.mt import MerkleTree
    from pymt.merkletools import MerkleTools
    ops = c17_ops(tools)

    def again(hist):
        t, m, ready = (MerkleTools(hash_type, secure) if tools else MerkleTree(secure, hash_type)), [], False
        for op in hist:
            ready, _ = c17_apply(t, m, ready, op, tools)
        return t

    def visit(t, m, ready, hist):
        ctx.count("states")
        t2 = clone(t, lambda: again(hist))
        e = c17_observe(t2, m, ready, secure, hash_type, tools)
        if not e:                                    # and after one more build
            t2.make_tree()
            e = c17_observe(t2, m, True, secure, hash_type, tools)
        if e:
            src = ["from pymt.merkletools import MerkleTools", "from pymt.mt import MerkleTree",
                   "t = %s" % ("MerkleTools(%r, %r)" % (hash_type, secure) if tools else "MerkleTree(%r, %r)" % (secure, hash_type))]
            want = ref.mt_root(ref.mt_leaves(m, secure, hash_type), hash_type).hex() if m else None
            tail = ["t.make_tree()", "assert t.get_merkle_root() in (%r, %r)" % (want, want.encode())] if m else []
            ctx.report("%s\nafter %s" % (e, "; ".join(op_src(o, tools) for o in hist)), src + [op_src(o, tools) for o in hist] + tail)
            return
        if len(hist) == depth:
            ctx.count("traces_validated_against_impl")
            return
        for op in ops:
            t2, m2 = clone(t, lambda: again(hist)), list(m)
            r2, _ = c17_apply(t2, m2, ready, op, tools)
            ctx.count("transitions")
            visit(t2, m2, r2, hist + [op])

    t, m = (MerkleTools(hash_type, secure) if tools else MerkleTree(secure, hash_type)), []
    ready, _ = c17_apply(t, m, False, ops[first], tools)
    visit(t, m, ready, [ops[first]])
    ctx.sample("%s %s secure=%s first op %r" % ("MerkleTools" if tools else "MerkleTree", hash_type, secure, ops[first]))


def c17_sizes(ctx, hash_type, secure, nmax):
    """Every number of leaves; root after each added leaf on a live tree, and on trees built at once."""
    from pymt.merkletools import MerkleTools
    from pymt.mt import MerkleTree
    for pattern in range(4):
        val = {0: lambda i: b"leaf %d" % i, 1: lambda i: b"same", 2: lambda i: digest(hash_type, b"%d" % (i // 2)), 3: lambda i: bytes([i % 256]) * (i % 70)}[pattern]
        live, m = MerkleTree(secure, hash_type.upper() if pattern == 1 else hash_type), []
        tools = MerkleTools(hash_type, secure)
        for i in range(nmax):
            m.append(val(i))
            arg = bytearray(val(i))
            live.put(bytes(arg))
            tools.add_leaf(arg)
            arg[:] = b"changed by the caller afterwards"
            ctx.count("states")
            ctx.count("transitions", 2)
            if i % 3 != 2:
                e = c17_observe(live, m, True, secure, hash_type, False) if i < 40 or i % 7 == 0 else None
            else:
                want = ref.mt_root(ref.mt_leaves(m, secure, hash_type), hash_type).hex()
                fresh = mtree(m, secure, hash_type, i % 4)
                e = None if fresh.get_merkle_root() == want.encode() else "the root is %r, expected %r" % (fresh.get_merkle_root(), want)
                if not e and live.get_merkle_root() != want.encode():
                    e = "the live tree has root %r, expected %r" % (live.get_merkle_root(), want)
            if not e:
                r = attempt(tools.get_merkle_root)
                if r[0] == "ok":
                    e = "MerkleTools returned a root although a leaf was added after the build"
                    e = e if r[1] != ref.mt_root(ref.mt_leaves(m, secure, hash_type), hash_type).hex() else None
                tools.make_tree()
                if tools.get_merkle_root() != ref.mt_root(ref.mt_leaves(m, secure, hash_type), hash_type).hex():
                    e = "MerkleTools has root %r" % tools.get_merkle_root()
            ctx.count("traces_validated_against_impl")
            if e:
                want = ref.mt_root(ref.mt_leaves(m, secure, hash_type), hash_type).hex()
                ctx.report("%d leaves, %s, secure=%r: %s" % (i + 1, hash_type, secure, e), tscript(m, secure, hash_type) + ["assert t.get_merkle_root() == %r, t.get_merkle_root()" % want.encode()])
                break
    ctx.sample("%s secure=%s up to %d leaves" % (hash_type, secure, nmax))


LARGE = [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097]


def c17_large(ctx, counts, hash_type, secure):
    """Trees of many leaves, around the powers of two: built at once, one by one, and grown by one more leaf."""
    for n in counts:
        for pattern in range(2):
            values = [(b"leaf %d" % i if pattern else digest(hash_type, b"%d" % (i // 2))) for i in range(n)]
            want = ref.mt_root(ref.mt_leaves(values, secure, hash_type), hash_type).hex().encode()
            more = ref.mt_root(ref.mt_leaves(values + [b"one more"], secure, hash_type), hash_type).hex().encode()
            for how in (0, 1, 3):
                t = mtree(values, secure, hash_type, how)
                ctx.count("states")
                ctx.count("transitions", 2)
                e = None
                if t.get_merkle_root() != want or t.get_leaf_count() != n:
                    e = "the root of %d leaves is %r, expected %r" % (n, t.get_merkle_root(), want)
                else:
                    t.put(b"one more")
                    if t.get_merkle_root() != more or t.get_leaf_count() != n + 1:
                        e = "after one more leaf the root of %d leaves is %r, expected %r" % (n + 1, t.get_merkle_root(), more)
                ctx.count("traces_validated_against_impl")
                if e:
                    ctx.report("%s (%s, secure=%r)" % (e, hash_type, secure), ["import hashlib", "from pymt.mt import MerkleTree", "t = MerkleTree(%r, %r)" % (secure, hash_type)] + (
                        ["t.put_list([b'leaf %%d' %% i for i in range(%d)])" % n] if pattern else ["t.put_list([hashlib.%s(b'%%d' %% (i // 2)).digest() for i in range(%d)])" % (hash_type, n)]) +
                        ["t.make_tree()", "assert t.get_merkle_root() == %r" % want, "t.put(b'one more')", "assert t.get_merkle_root() == %r" % more])
                    return


def c18_large(ctx, counts, hash_type, secure):
    """Proofs in trees of many leaves: the leaves at the ends, around powers of two and in between."""
    for n in counts:
        values = [b"leaf %d" % i for i in range(n)]
        t = mtree(values, secure, hash_type, n % 2)
        twin = mtree(values, secure, hash_type, 3)
        leaves = ref.mt_leaves(values, secure, hash_type)
        root = ref.mt_root(leaves, hash_type)
        ctx.count("states")
        where = sorted({i for b in [0, n, n // 2, n // 3] + [1 << k for k in range(14)] for i in (b - 2, b - 1, b, b + 1) if 0 <= i < n})
        for i in where:
            ctx.count("transitions", 3)
            p = attempt(t.get_proof_of_inclusion, values[i])
            s = attempt(lambda: steps_of(p[1]))
            if p[0] != "ok" or s[0] != "ok" or ref.mt_fold(leaves[i], s[1], hash_type) != root or any(attempt(o.verify_proof_of_inclusion, p[1]) != ("ok", True) for o in (t, twin)):
                ctx.report("leaf %d of %d leaves (%s, secure=%r) has no valid proof: %r" % (i, n, hash_type, secure, p), [
                    "from pymt.mt import MerkleTree", "t = MerkleTree(%r, %r)" % (secure, hash_type), "t.put_list([b'leaf %%d' %% i for i in range(%d)])" % n, "t.make_tree()",
                    "assert t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b'leaf %d'))" % i])
                return
        for v in (b"leaf %d" % n, b"", root):
            if attempt(t.get_proof_of_inclusion, v)[0] == "ok":
                ctx.report("a tree of %d leaves gives a proof for %r" % (n, v))
        ctx.count("traces_validated_against_impl")


def c17_words(ctx, secure, hash_type, n):
    """Every list of up to n leaves over three values."""
    vals = [b"a", b"", digest(hash_type, b"x")]
    for k in range(1, n + 1):
        for w in itertools.product(vals, repeat=k):
            ctx.count("states")
            ctx.count("transitions", k)
            t = mtree(w, secure, hash_type, sum(map(len, w)) % 4)
            e = c17_observe(t, list(w), True, secure, hash_type, False)
            ctx.count("traces_validated_against_impl")
            if e:
                want = ref.mt_root(ref.mt_leaves(w, secure, hash_type), hash_type).hex()
                ctx.report("leaves %r: %s" % (w, e), tscript(w, secure, hash_type) + ["assert t.get_merkle_root() == %r" % want.encode()])


def c17_args(ctx):
    from pymt.mt import MerkleTree
    from pymt.merkletools import MerkleTools
    for ht in ("sha1", "", "sha-256", "keccak", "sha3256", "shake_128", "blake2b", "sha256 "):
        for f in (lambda: MerkleTools(ht), lambda: MerkleTree(True, ht)):
            ctx.count("transitions")
            if attempt(f)[0] == "ok":
                ctx.report("the unsupported hash type %r was accepted" % ht)
    for v in ("text", 1, None, [b"x"], bytearray(b"x")):
        t = mtree([b"a", b"b", b"c"], True, "sha256")
        r = t.get_merkle_root()
        ctx.count("transitions", 2)
        for f in (t.put, lambda v: t.put_list([v])):
            if attempt(f, v)[0] == "ok":
                ctx.report("a leaf of type %s was accepted" % type(v).__name__)
            t.make_tree()
            if t.get_merkle_root() != r:
                ctx.report("a rejected leaf of type %s changed the root" % type(v).__name__)
    ctx.count("states", 5)
    ctx.count("traces_validated_against_impl", 5)


def c17_tasks(tier):
    th = tier == "thorough"
    out = [("c17_args", {})]
    for tools in (False, True):
        for secure in (False, True):
            for f in range(7):
                out.append(("c17_seqs", dict(tools=tools, secure=secure, hash_type="sha256", depth=8 if th else 6, first=f)))
    for i, ht in enumerate(TYPES):
        for secure in (False, True):
            out.append(("c17_sizes", dict(hash_type=ht, secure=secure, nmax=600 if th else 260)))
        out.append(("c17_large", dict(counts=LARGE + ([8191, 8192, 8193, 16385, 32769, 65537] if th else []) if i < 2 or th else LARGE[i::3], hash_type=ht, secure=bool(i % 2))))
        out.append(("c17_words", dict(secure=bool(i % 2), hash_type=ht, n=10 if th else 8)))
        out.append(("c17_words", dict(secure=not i % 2, hash_type=ht, n=9 if th else 6)))
        if th:
            out += [("c17_seqs", dict(tools=bool(i % 2), secure=i % 4 < 2, hash_type=ht, depth=6, first=f)) for f in range(7)]
    return out


# ---------------------------------------------------------------- C18
def absent_values(values, secure, hash_type):
    have = set(ref.mt_leaves(values, secure, hash_type))
    lv = ref.mt_levels(ref.mt_leaves(values, secure, hash_type), hash_type)
    cand = [b"", b"absent", values[0] + b"x", values[-1][:-1], digest(hash_type, values[0]), lv[-1][0]]
    if len(lv) > 1:
        cand += [lv[1][0], lv[0][0] + lv[0][-1], lv[0][0] + lv[0][min(1, len(lv[0]) - 1)]]
    if secure:
        cand += [lv[0][0]]
    return [c for c in dict.fromkeys(cand) if ref.mt_leaves([c], secure, hash_type)[0] not in have]


def steps_of(proof):
    return [(s.decode(), bytes.fromhex(h.decode())) for s, h in proof.proof]


def c18_case(ctx, values, secure, hash_type, how, deep):
    from pymt.mt import MerkleTree
    from pymt.merkletools import MerkleTools
    values = list(values)
    t = mtree(values, secure, hash_type, how)
    ctx.count("states")
    if ctx.stats["states"] % 997 == 1:
        ctx.sample("%d leaves, secure=%s, %s" % (len(values), secure, hash_type))
    leaves = ref.mt_leaves(values, secure, hash_type)
    root = ref.mt_root(leaves, hash_type)
    pre = tscript(values, secure, hash_type)

    def bad(text, tail=()):
        ctx.report("%s\n%d leaves %r, %s, secure=%r" % (text, len(values), values[:6], hash_type, secure), pre + list(tail))

    tools = MerkleTools(hash_type, secure)
    for v in values:
        tools.add_leaf(v)
    if attempt(tools.get_proof_of_inclusion, values[0])[0] == "ok":
        bad("MerkleTools gave a proof before the tree was made")
    tools.make_tree()
    proofs = []
    twin = mtree(values, secure, hash_type, how + 1 & 3)
    copied = clone(t, lambda: mtree(values, secure, hash_type, how))
    for i, v in enumerate(values):
        if i and v in values[:i] and not deep:
            continue
        ctx.count("transitions")
        r = attempt(t.get_proof_of_inclusion, v)
        if r[0] != "ok":
            bad("no proof for leaf %d %r: %s" % (i, v, r[1]), ["t.get_proof_of_inclusion(%r)" % v])
            continue
        p = r[1]
        if (p.target_key, p.trie_root, p.type) != (v, root.hex().encode(), b"MT-POI"):
            bad("proof for leaf %d records %r" % (i, (p.target_key, p.trie_root, p.type)), ["p = t.get_proof_of_inclusion(%r)" % v, "assert (p.target_key, p.trie_root) == (%r, t.get_merkle_root())" % v])
        s = attempt(steps_of, p)
        if s[0] != "ok" or ref.mt_fold(leaves[i], s[1], hash_type) != root:
            bad("the proof of leaf %d does not combine to the root: %r" % (i, p.proof), ["p = t.get_proof_of_inclusion(%r)" % v, "assert t.verify_proof_of_inclusion(p)"])
            continue
        for name, o in (("itself", t), ("itself again", t), ("a tree of the same leaves", twin), ("a copy", copied)):
            ctx.count("transitions")
            r = attempt(o.verify_proof_of_inclusion, p)
            if r != ("ok", True):
                bad("proof of leaf %d %r on %s gave %r" % (i, v, name, r), ["p = t.get_proof_of_inclusion(%r)" % v, "assert t.verify_proof_of_inclusion(p)"])
        lp = attempt(tools.get_proof_of_inclusion, v)
        if lp[0] != "ok" or lp[1] != [{a: b.hex()} for a, b in s[1]]:
            bad("MerkleTools gives another proof for leaf %d: %r" % (i, lp))
        elif attempt(tools.verify_proof_of_inclusion, lp[1], leaves[i], root) != ("ok", True):
            bad("MerkleTools does not verify its proof for leaf %d" % i)
        proofs.append((i, v, p))
    for v in absent_values(values, secure, hash_type):
        ctx.count("transitions")
        for o in (t, tools):
            r = attempt(o.get_proof_of_inclusion, v)
            if r[0] == "ok":
                bad("a proof was given for %r, which was not added" % v, ["try: t.get_proof_of_inclusion(%r)\nexcept Exception: pass\nelse: raise AssertionError" % v])
    # changes make the proofs stale; restoring the leaves makes them valid again
    extra = [b"extra", values[0], b""]
    changes = [("put(%r)" % e, (lambda e: lambda o: o.put(e))(e), values + [e]) for e in extra[:3 if deep else 1]]
    changes += [("reset and put fewer", lambda o: (o.reset_tree(), [o.put(x) for x in values[:-1]]), values[:-1]),
                ("reset and put reversed", lambda o: (o.reset_tree(), o.put_list(values[::-1])), values[::-1])]
    if deep:
        changes += [("reset and change leaf %d" % j, (lambda j: lambda o: (o.reset_tree(), o.put_list(values[:j] + [values[j] + b"'"] + values[j + 1:])))(j), values[:j] + [values[j] + b"'"] + values[j + 1:]) for j in range(len(values))]
    for name, act, now in changes:
        for built in ((False, True) if deep else (len(values) % 2 == 0,)):
            o = clone(t, lambda: mtree(values, secure, hash_type, how))
            act(o)
            if built and now:
                o.make_tree()
            nl = ref.mt_leaves(now, secure, hash_type)
            changed = not now or ref.mt_root(nl, hash_type) != root
            for i, v, p in (proofs if deep else proofs[:2] + proofs[-1:]):
                ctx.count("transitions")
                r = attempt(o.verify_proof_of_inclusion, p)
                if changed and r == ("ok", True):
                    bad("the proof of leaf %d still verifies after %s%s" % (i, name, " and make_tree" if built else ""))
                if not changed and leaves[i] in nl and r != ("ok", True):
                    bad("the proof of leaf %d no longer verifies after %s, which left the root unchanged" % (i, name))
                if not now:
                    continue
                q = attempt(o.get_proof_of_inclusion, v)      # a proof given now is about the new leaves
                if q[0] == "ok" and (attempt(o.verify_proof_of_inclusion, q[1]) != ("ok", True) or leaves[i] not in nl):
                    bad("after %s a proof of %r was given that does not verify" % (name, v))
            if built:
                for v in now:
                    q = attempt(o.get_proof_of_inclusion, v)
                    ctx.count("transitions")
                    if q[0] != "ok" or attempt(o.verify_proof_of_inclusion, q[1]) != ("ok", True) or q[1].trie_root != ref.mt_root(nl, hash_type).hex().encode():
                        bad("after %s the proof of %r: %r" % (name, v, q))
                        break
            o.reset_tree()
            o.put_list(values)
            for i, v, p in proofs[-2:]:
                ctx.count("transitions")
                if attempt(o.verify_proof_of_inclusion, p) != ("ok", True):
                    bad("the proof of leaf %d does not verify after the leaves were restored (%s)" % (i, name))
    ctx.count("traces_validated_against_impl")


def c18_sizes(ctx, secure, hash_type, lo, hi):
    for n in range(lo, hi):
        for pat in range(2):
            val = (lambda i: b"v%d" % i) if pat == 0 else (lambda i: digest(hash_type, b"%d" % (i * 2 // 3)))
            c18_case(ctx, [val(i) for i in range(n)], secure, hash_type, n % 4, n <= 9)


def c18_words(ctx, secure, hash_type, n, first):
    vals = [b"a", b"", digest(hash_type, b"x")]
    for k in range(0, n):
        for w in itertools.product(vals, repeat=k):
            c18_case(ctx, (vals[first],) + w, secure, hash_type, k % 4, k < 4)


def c18_tasks(tier):
    th = tier == "thorough"
    out = [("c18_large", dict(counts=LARGE[i % 3::1 if th else 3], hash_type=ht, secure=bool(i % 2))) for i, ht in enumerate(TYPES)]
    for ht in TYPES:
        for secure in (True, False):
            if th:
                out += [("c18_sizes", dict(secure=secure, hash_type=ht, lo=a, hi=b)) for a, b in ((1, 40), (40, 70), (70, 100), (100, 135))]
            else:
                out.append(("c18_sizes", dict(secure=secure, hash_type=ht, lo=1, hi=68)))
            out += [("c18_words", dict(secure=secure, hash_type=ht, n=8 if th else (7 if ht == "sha256" else 5), first=f)) for f in range(3)]
    return out


# ---------------------------------------------------------------- C19
def c19_oracle(values, secure, hash_type, target, root_text, steps):
    """May a tree over values accept this proof?"""
    leaf = digest(hash_type, target) if secure else target
    leaves = ref.mt_leaves(values, secure, hash_type)
    if leaf not in leaves:
        return False
    try:
        root = bytes.fromhex(root_text.decode())
        st = [(s[0].decode(), bytes.fromhex(s[1].decode())) for s in steps]
    except Exception:
        return False
    if any(s not in ("left", "right") for s, _ in st):
        return False
    return root == ref.mt_root(leaves, hash_type) and ref.mt_fold(leaf, st, hash_type) == root


def judge(ctx, t, values, secure, hash_type, target, root_text, steps, what, genuine=False):
    from pymt.proof import Proof
    ctx.count("transitions")
    try:
        p = Proof(target_key=target, root_hash=root_text, proof=tuple(steps), proof_type=b"MT-POI")
    except Exception:
        return
    try:
        r = t.verify_proof_of_inclusion(p)
    except Exception:
        r = None
    if not r:
        ctx.count("rejected")
        if genuine:
            ctx.report("a genuine proof was rejected (%s)" % what)
        return
    ctx.count("accepted")
    if not c19_oracle(values, secure, hash_type, target, root_text, steps):
        ctx.report("accepted a forged proof: %s\ntarget %r root %r steps %r\nleaves %r, %s, secure=%r" % (what, target, root_text, tuple(steps), list(values), hash_type, secure),
                   tscript(values, secure, hash_type) + ["p = Proof(target_key=%r, root_hash=%r, proof=%r, proof_type=b'MT-POI')" % (target, root_text, tuple(steps)),
                                                        "try: r = t.verify_proof_of_inclusion(p)\nexcept Exception: r = False", "assert not r"])


def leaf_value(hash_type, secure, i):
    """Leaf values: free bytes in a hashing tree, of digest length in a raw tree."""
    return b"value %d" % i if secure else digest(hash_type, b"raw %d" % i)


def nodes_of(values, secure, hash_type):
    out = []
    for lv in ref.mt_levels(ref.mt_leaves(values, secure, hash_type), hash_type):
        out += lv
    return list(dict.fromkeys(out))


def c19_targets(values, secure, hash_type):
    """Values an attacker might claim: leaves, stored nodes, and everything that hashes to a stored node."""
    out = list(values) + [b"", b"other"]
    for lv in ref.mt_levels(ref.mt_leaves(values, secure, hash_type), hash_type):
        out += lv
        out += [lv[i] + lv[i + 1] for i in range(0, len(lv) - 1, 2)]
    out += [x.hex().encode() for x in ref.mt_leaves(values[:1], secure, hash_type)]
    if secure:
        out += [digest(hash_type, v) for v in values[:2]]
    return list(dict.fromkeys(out))


def c19_enum(ctx, n, secure, hash_type, length, part, parts, dup=False):
    """Every sequence of steps up to the length over all nodes of the tree and some others, for every target and root."""
    values = [leaf_value(hash_type, secure, i // 2 if dup else i) for i in range(n)]
    t = mtree(values, secure, hash_type)
    other = [leaf_value(hash_type, secure, i) for i in range(n + 1)]
    pool = nodes_of(values, secure, hash_type) + [mtroot(other, secure, hash_type), b""]
    steps = [(side, x.hex().encode()) for x in dict.fromkeys(pool) for side in (b"left", b"right")]
    targets = c19_targets(values, secure, hash_type)
    root = mtroot(values, secure, hash_type)
    roots = [root, mtroot(other, secure, hash_type), digest(hash_type, root)] + ref.mt_leaves(values[:1], secure, hash_type)
    roots = [r.hex().encode() for r in dict.fromkeys(roots)]
    num = 0
    for k in range(length + 1):
        for seq in itertools.product(steps, repeat=k):
            num += 1
            if num % parts != part:
                continue
            for x in targets:
                # the recorded root an attacker would choose: the tree's, others, and whatever the steps combine to
                judge(ctx, t, values, secure, hash_type, x, roots[0], seq, "enumerated")
                if k < length or k < 2:
                    for rt in roots[1:]:
                        judge(ctx, t, values, secure, hash_type, x, rt, seq, "enumerated")
                leaf = digest(hash_type, x) if secure else x
                judge(ctx, t, values, secure, hash_type, x, ref.mt_fold(leaf, [(s.decode(), bytes.fromhex(h.decode())) for s, h in seq], hash_type).hex().encode(), seq, "own root")
    ctx.count("states")
    ctx.count("traces_validated_against_impl")
    ctx.sample("%d leaves, %d steps, %d targets, length %d" % (n, len(steps), len(targets), length))


def mtroot(values, secure, hash_type):
    return ref.mt_root(ref.mt_leaves(values, secure, hash_type), hash_type)


def c19_edits(ctx, n, secure, hash_type, bits):
    """Every one-step edit of every genuine proof."""
    values = [leaf_value(hash_type, secure, i) for i in range(n)]
    t = mtree(values, secure, hash_type, n % 4)
    other_vals = [leaf_value(hash_type, secure, i) for i in range(n + 1)]
    other = mtree(other_vals, secure, hash_type)
    perm_vals = values[::-1]
    perm = mtree(perm_vals, secure, hash_type)
    ctx.count("states")
    J = lambda x, rt, st, what: judge(ctx, t, values, secure, hash_type, x, rt, st, what)
    inv = {b"left": b"right", b"right": b"left"}
    targets = c19_targets(values, secure, hash_type)
    nodes = nodes_of(values, secure, hash_type)
    for i, v in enumerate(values):
        p = t.get_proof_of_inclusion(v)
        st, rt = list(p.proof), p.trie_root
        if len(st) > 0 and (not isinstance(st[0], tuple) or len(st[0]) != 2):
            continue
        judge(ctx, t, values, secure, hash_type, v, rt, st, "genuine", genuine=True)
        for x in targets:
            J(x, rt, st, "target exchanged")
        for j in range(len(st)):
            for x in targets:
                J(x, rt, st[j:], "first steps dropped, target exchanged")
                J(x, rt, st[:j], "last steps dropped, target exchanged")
            J(v, rt, st[:j] + st[j + 1:], "step dropped")
            J(v, rt, st[:j] + [st[j]] + st[j:], "step doubled")
            J(v, rt, st[:j] + [(inv[st[j][0]], st[j][1])] + st[j + 1:], "side swapped")
            for k in range(j):
                s2 = list(st)
                s2[j], s2[k] = s2[k], s2[j]
                J(v, rt, s2, "steps exchanged")
            h = st[j][1]
            for x in nodes:
                J(v, rt, st[:j] + [(st[j][0], x.hex().encode())] + st[j + 1:], "sibling replaced")
                J(v, rt, st[:j] + [(b"left", x.hex().encode())] + st[j:], "step inserted")
                J(v, rt, st[:j] + [(b"right", x.hex().encode())] + st[j:], "step inserted")
            for h2 in (h[:-1], h[:-2], h[2:], h + b"0", h + b"00", b"00" + h, b"", h.upper(), h + b" ", h[:2] + b" " + h[2:], b"0x" + h, b"zz" + h[2:], h[::-1], h + h, bytes.fromhex(h.decode()), b"\xff" + h):
                J(v, rt, st[:j] + [(st[j][0], h2)] + st[j + 1:], "sibling text edited")
            for side in (b"", b"LEFT", b"Right", b"l", b"middle", b"left ", b"\xff", b"leftright", b"0", b"1"):
                J(v, rt, st[:j] + [(side, h)] + st[j + 1:], "side edited")
            for s in ((h, st[j][0]), (st[j][0],), (), st[j] + (h,), h, st[j][0] + h, None, 0, [st[j][0], h], {st[j][0]: h}, (st[j][0], h, st[j][0], h)):
                J(v, rt, st[:j] + [s] + st[j + 1:], "step of another shape")
            if bits:
                raw = bytes.fromhex(h.decode())
                for b in range(len(raw) * 8):
                    x = bytearray(raw)
                    x[b // 8] ^= 1 << b % 8
                    J(v, rt, st[:j] + [(st[j][0], bytes(x).hex().encode())] + st[j + 1:], "sibling bit flipped")
        for x in nodes + [b"", digest(hash_type, b"new")]:
            J(v, rt, st + [(b"left", x.hex().encode())], "step appended")
            J(v, rt, st + [(b"right", x.hex().encode())], "step appended")
        raw = bytes.fromhex(rt.decode())
        for b in range(len(raw) * 8):
            x = bytearray(raw)
            x[b // 8] ^= 1 << b % 8
            J(v, bytes(x).hex().encode(), st, "root bit flipped")
        for r2 in (b"", rt[:-1], rt[:-2], rt + b"00", rt.upper(), b" " + rt, raw, b"0x" + rt, rt + rt, b"00" + rt, b"\xff", rt[::-1]):
            J(v, r2, st, "root text edited")
        for b in range(len(v) * 8):
            x = bytearray(v)
            x[b // 8] ^= 1 << b % 8
            J(bytes(x), rt, st, "target bit flipped")
        for x in (v[:-1], v + b"\x00", v + v, v[::-1], v.hex().encode(), digest(hash_type, v)):
            J(x, rt, st, "target edited")
        for o, vals in ((other, other_vals), (perm, perm_vals)):
            q = o.get_proof_of_inclusion(v)
            J(v, q.trie_root, q.proof, "foreign proof")
            J(v, rt, q.proof, "foreign steps")
            J(v, q.trie_root, st, "foreign root")
            for k in range(1, len(st)):
                J(v, rt, list(q.proof[:k]) + st[k:], "spliced proof")
    new = other_vals[-1]
    q = other.get_proof_of_inclusion(new)
    J(new, q.trie_root, q.proof, "value only of another tree")
    for i, v in enumerate(values):
        J(new, t.get_merkle_root(), t.get_proof_of_inclusion(v).proof, "value only of another tree")
    # a tree that has pending leaves, and one that was reset
    p = t.get_proof_of_inclusion(values[0])
    t2 = clone(t, lambda: mtree(values, secure, hash_type))
    t2.put(new)
    judge(ctx, t2, other_vals, secure, hash_type, values[0], p.trie_root, p.proof, "proof from before a leaf was added")
    judge(ctx, t2, other_vals, secure, hash_type, new, q.trie_root, q.proof, "proof of the new leaf", genuine=True)
    t2.reset_tree()
    ctx.count("transitions")
    if attempt(t2.verify_proof_of_inclusion, p) == ("ok", True):
        ctx.report("a proof verifies on a tree without leaves")
    t2.put_list(values)
    judge(ctx, t2, values, secure, hash_type, values[0], p.trie_root, p.proof, "proof after the leaves were put back", genuine=True)
    judge(ctx, t2, values, secure, hash_type, new, q.trie_root, q.proof, "proof of a leaf that is gone")
    for x in (None, 1, b"", {}, [], (b"a", b"b"), p.proof, "text"):
        ctx.count("transitions")
        if attempt(t.verify_proof_of_inclusion, x) == ("ok", True):
            ctx.report("verifying %r gave True" % (x,))
    ctx.count("traces_validated_against_impl")
    ctx.sample("edits of all proofs of a tree with %d leaves, %s, secure=%s" % (n, hash_type, secure))


def c19_large(ctx, n, secure, hash_type):
    """One-step edits of the proofs of some leaves of a large tree."""
    values = [leaf_value(hash_type, secure, i) for i in range(n)]
    t = mtree(values, secure, hash_type, n % 4)
    other_vals = values[:-1] + [leaf_value(hash_type, secure, n + 5)]
    other = mtree(other_vals, secure, hash_type)
    ctx.count("states")
    leaves = ref.mt_leaves(values, secure, hash_type)
    levels = ref.mt_levels(leaves, hash_type)
    inner = [bytes(lv[len(lv) // 2]) for lv in levels] + [bytes(lv[-1]) for lv in levels]
    inv = {b"left": b"right", b"right": b"left"}
    for i in sorted({0, 1, n // 2, n - 2, n - 1} | ({64, 128, 255, 256, 512} & set(range(n)))):
        v = values[i]
        p = t.get_proof_of_inclusion(v)
        st, rt = list(p.proof), p.trie_root
        if any(not isinstance(x, tuple) or len(x) != 2 for x in st):
            continue
        J = lambda x, r, s, what: judge(ctx, t, values, secure, hash_type, x, r, s, what + " (leaf %d of %d)" % (i, n))
        judge(ctx, t, values, secure, hash_type, v, rt, st, "genuine", genuine=True)
        for x in [values[(i + k) % n] for k in (1, 2, n // 2)] + inner + [other_vals[-1], b"", v + b"\x00", v[:-1], digest(hash_type, v)]:
            if x != v:
                J(x, rt, st, "target exchanged")
        for j in range(len(st)):
            side, h = st[j]
            for x in (v, values[(i + 1) % n], *inner):
                J(x, rt, st[j + 1:], "first %d steps dropped" % (j + 1))
                J(x, rt, st[:j], "cut to %d steps" % j)
            J(v, rt, st[:j] + st[j + 1:], "step %d dropped" % j)
            J(v, rt, st[:j] + [st[j]] + st[j:], "step %d doubled" % j)
            J(v, rt, st[:j] + [(inv[side], h)] + st[j + 1:], "side of step %d swapped" % j)
            if j:
                J(v, rt, st[:j - 1] + [st[j], st[j - 1]] + st[j + 1:], "steps %d and %d exchanged" % (j - 1, j))
            raw = bytes.fromhex(h.decode())
            for b in range(0, len(raw) * 8, 7):
                x = bytearray(raw)
                x[b // 8] ^= 1 << b % 8
                J(v, rt, st[:j] + [(side, bytes(x).hex().encode())] + st[j + 1:], "bit %d of step %d flipped" % (b, j))
            for h2 in (h[:-2], h[2:], h + b"00", b"00" + h, b"", h + h, h[::-1]):
                J(v, rt, st[:j] + [(side, h2)] + st[j + 1:], "sibling text of step %d edited" % j)
            for x in inner:
                J(v, rt, st[:j] + [(side, x.hex().encode())] + st[j + 1:], "sibling %d replaced" % j)
                J(v, rt, st[:j] + [(side, x.hex().encode())] + st[j:], "step inserted at %d" % j)
        for k in range(1, 4):
            for x in (b"", b"00", rt, b"00" * 32):
                for side in (b"left", b"right"):
                    J(v, rt, st + [(side, x)] * k, "%d steps appended" % k)
                    J(v, rt, [(side, x)] * k + st, "%d steps put in front" % k)
        raw = bytes.fromhex(rt.decode())
        for b in range(len(raw) * 8):
            x = bytearray(raw)
            x[b // 8] ^= 1 << b % 8
            J(v, bytes(x).hex().encode(), st, "root bit flipped")
        if i < n - 1:
            q = other.get_proof_of_inclusion(v)
            J(v, q.trie_root, q.proof, "foreign proof")
            J(v, rt, q.proof, "foreign steps")
            J(v, q.trie_root, st, "foreign root")
    q = other.get_proof_of_inclusion(other_vals[-1])
    J(other_vals[-1], q.trie_root, q.proof, "value only of another tree")
    J(other_vals[-1], t.get_merkle_root(), q.proof, "value only of another tree")
    ctx.count("traces_validated_against_impl")


def c19_tools(ctx, n, secure, hash_type):
    """MerkleTools.verify_proof_of_inclusion is true exactly when the listed steps combine to the given root."""
    from pymt.merkletools import MerkleTools
    values = [leaf_value(hash_type, secure, i) for i in range(n)]
    t = MerkleTools(hash_type, secure)
    for v in values:
        t.add_leaf(v)
    t.make_tree()
    pool = nodes_of(values, secure, hash_type) + [b""]
    steps = [(s, x) for s in ("left", "right") for x in pool]
    root = mtroot(values, secure, hash_type)
    ctx.count("states")
    for k in range(3):
        for seq in itertools.product(steps, repeat=k):
            for x in pool:
                f = ref.mt_fold(x, seq, hash_type)
                for rt in (root, f, pool[0]):
                    ctx.count("transitions")
                    r = attempt(t.verify_proof_of_inclusion, [{s: y.hex()} for s, y in seq], x, rt)
                    if r != ("ok", f == rt):
                        ctx.report("MerkleTools.verify_proof_of_inclusion(%r, %r, %r) gave %r, expected %r" % ([{s: y.hex()} for s, y in seq], x, rt, r, f == rt),
                                   ["from pymt.merkletools import MerkleTools", "assert MerkleTools(%r).verify_proof_of_inclusion(%r, %r, %r) is %r" % (hash_type, [{s: y.hex()} for s, y in seq], x, rt, f == rt)])
    ctx.count("traces_validated_against_impl")


def c19_tasks(tier):
    th = tier == "thorough"
    out = []
    for secure in (True, False):
        out += [("c19_enum", dict(n=n, secure=secure, hash_type="sha256", length=3 if th else 2, part=p, parts=4 if th else 1)) for n in ((1, 2, 3, 4, 5) if th else (1, 2, 3, 4, 5, 6, 7, 8, 9)) for p in range(4 if th else 1)]
        out += [("c19_enum", dict(n=n, secure=secure, hash_type="sha256", length=3, part=p, parts=4, dup=d)) for n, d in ((2, 0), (3, 0), (4, 1), (4, 0), (5, 0)) for p in range(4)]
        out += [("c19_enum", dict(n=n, secure=secure, hash_type=ht, length=2, part=0, parts=1)) for n in (2, 3) for ht in TYPES[1:]]
        sizes = list(range(1, 18)) + [19, 23, 31, 32, 33] + ([47, 64, 65, 100] if th else [])
        out += [("c19_edits", dict(n=n, secure=secure, hash_type="sha256", bits=th or n < 6 or n in (7, 8, 9))) for n in sizes]
        out += [("c19_edits", dict(n=n, secure=secure, hash_type=ht, bits=n < 4)) for n in ((3, 5, 6, 9) if th else (3, 5)) for ht in TYPES[1:]]
        out += [("c19_large", dict(n=n, secure=secure, hash_type=ht)) for n, ht in [(70, "sha256"), (129, "sha3_256"), (300, "sha512"), (1025, "sha256"), (600, "md5")] + ([(4097, "sha256"), (10000, "sha3_512")] if th else [])]
        out += [("c19_tools", dict(n=n, secure=secure, hash_type=ht)) for n, ht in ((1, "sha256"), (2, "sha3_256"), (3, "sha512"), (4, "sha256"), (5, "md5"))]
    return out


# ---------------------------------------------------------------- C20
def fields(p):
    return (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)


def proof_src(p):
    return ["from pymt.proof import Proof", "p = Proof(target_key=%r, root_hash=%r, proof=%r, proof_type=%r)" % (p.target_key, p.trie_root, p.proof, p.type), "import rlp", "p = Proof.decode_rlp(rlp.encode([p.type, %r, p.target_key, p.trie_root, p.proof]))" % (p.timestamp,)]


def stamped(p, stamp):
    """The same proof with this time stamp (the proof itself if the library does not decode it: the round trip of `p` reports that)."""
    from pymt.proof import Proof
    r = attempt(Proof.decode_rlp, ref.rlp([p.type, stamp, p.target_key, p.trie_root, [list(x) if isinstance(x, tuple) else x for x in p.proof]]))
    return r[1] if r[0] == "ok" else p


def is_text(x):
    if isinstance(x, tuple):
        return all(map(is_text, x))
    return attempt(x.decode)[0] == "ok"


def roundtrip(ctx, p):
    """Both codecs on one proof: returns (rlp bytes, json text or None)."""
    from pymt.proof import Proof
    ctx.count("states")
    before = fields(p)
    out = []
    for name, enc, dec in (("rlp", p.encode_rlp, Proof.decode_rlp), ("json", p.encode_json, Proof.decode_json)):
        ctx.count("transitions")
        text = all(map(is_text, before))
        e = attempt(enc)
        if name == "json" and not text:
            if e[0] == "ok" and (attempt(dec, e[1])[0] != "ok" or fields(dec(e[1])) != before):
                ctx.report("the JSON form of %r decodes to something else" % (p,), proof_src(p) + ["assert Proof.decode_json(p.encode_json()) == p"])
            out.append(None)
            continue
        d = attempt(dec, e[1]) if e[0] == "ok" else e
        if d[0] != "ok" or fields(d[1]) != before or d[1] != p or hash(d[1]) != hash(p):
            ctx.report("%s of %r gave %r and then %r" % (name, p, e, d), proof_src(p) + ["q = Proof.decode_%s(p.encode_%s())" % (name, name), "assert q == p", "assert (q.type, q.timestamp, q.target_key, q.trie_root, q.proof) == (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)"])
            out.append(None)
            continue
        if attempt(getattr(d[1], "encode_" + name)) != e:
            ctx.report("%s of %r changes when encoded again" % (name, p), proof_src(p))
        out.append(e[1])
    if fields(p) != before:
        ctx.report("encoding changed the proof %r" % (p,))
    ctx.count("traces_validated_against_impl")
    return out


def c20_trees(ctx, secure, hash_type, nmax):
    from pymt.proof import Proof
    for n in range(1, nmax + 1):
        values = [b"value %d" % i for i in range(n)]
        if n % 3 == 0:
            values = [bytes([200 + i % 50]) * (i % 60) + bytes([i]) for i in range(n)]
        t = mtree(values, secure, hash_type)
        changed = mtree(values + [b"more"], secure, hash_type)
        for v in values:
            p = t.get_proof_of_inclusion(v)
            forged = Proof(v, p.trie_root, p.proof[:-1] + ((b"left", b"00"),), b"MT-POI")
            for q in (p, forged):
                for name, e in zip(("rlp", "json"), roundtrip(ctx, q)):
                    if e is None:
                        continue
                    d = attempt(getattr(Proof, "decode_" + name), e)
                    if d[0] != "ok":
                        ctx.report("decoding %s raised %s" % (name, d[1]))
                        continue
                    for o in (t, changed):
                        ctx.count("transitions")
                        a, b = attempt(o.verify_proof_of_inclusion, q), attempt(o.verify_proof_of_inclusion, d[1])
                        if (a == ("ok", True)) != (b == ("ok", True)) or (q is p and o is t and b != ("ok", True)):
                            ctx.report("the proof %r verifies as %r, its %s decoding as %r" % (q, a, name, b),
                                       tscript(values, secure, hash_type) + ["p = t.get_proof_of_inclusion(%r)" % v, "assert t.verify_proof_of_inclusion(Proof.decode_%s(p.encode_%s()))" % (name, name)])
    ctx.sample("proofs of trees up to %d leaves, %s, secure=%s" % (nmax, hash_type, secure))


def c20_hand(ctx, part, parts):
    """Hand-built proofs: every combination of field contents from a menu, flat and paired entries."""
    from pymt.proof import Proof
    menu = [b"", b"\x00", b"a", b"\x7f", b"\x80", b"\xff\xfe", b"left", "äö".encode(), b"x" * 55, b"y" * 56, b"q\"\\\n{}[]", b"z" * 300]
    entries = [()] + [(a,) for a in menu] + [(a, b) for a in menu for b in menu] + [((a, b),) for a in menu for b in menu] + \
        [((b"left", a), b, (b"right", a)) for a in menu for b in menu[:6]] + [((a,), (a, a, a), ()) for a in menu] + [tuple(menu), tuple((a, a) for a in menu)]
    n = 0
    for i, ent in enumerate(entries):
        for a, b in [(x, y) for j, x in enumerate(menu) for y in (menu[(i + j) % len(menu)], b"root")]:
            n += 1
            if n % parts != part:
                continue
            p = Proof(a, b, ent, b"MT-POI")
            if i % 3 == 1:
                p = stamped(p, b"2020-01-01 00:00:00")
            elif i % 3 == 2:
                p = stamped(p, a)
            roundtrip(ctx, p)
    ctx.sample("%d entries lists, %d byte strings per field" % (len(entries), len(menu)))


def c20_long(ctx, count):
    """Proofs with very many or very long entries."""
    from pymt.proof import Proof
    for ent in (tuple((b"left" if i % 3 else b"right", b"%064x" % i) for i in range(count)), tuple(b"%d" % i for i in range(count)), (tuple(b"%d" % i for i in range(count)),),
                ((b"left", b"ab" * count),), (b"x" * count, (b"y" * count, b"")), tuple(() for i in range(count))):
        for key, root in ((b"k", b"r"), (b"k" * count, b"r" * count)):
            p = Proof(key, root, ent, b"MT-POI")
            roundtrip(ctx, p)
            roundtrip(ctx, stamped(p, b"s" * count))
    ctx.sample("%d entries, entries of %d bytes" % (count, count))


def base_proofs():
    from pymt.proof import Proof
    out = [Proof(b"key", b"ab" * 32, ((b"left", b"cd" * 32), (b"right", b"ef" * 32)), b"MT-POI"), Proof(b"k", b"r", (b"one", b"two"), b"MT-POI"), Proof(b"", b"", (), b"MT-POI"),
           Proof(b"k" * 60, b"r" * 60, ((b"left", b"00"),), b"MT-POI"), mtree([b"a", b"b", b"c"], True, "sha256").get_proof_of_inclusion(b"b")]
    return [stamped(p, b"2024-01-02 03:04:05.678901") for p in out]


def c20_rlp_damage(ctx, which, part, parts):
    """Every byte string at one bit, one byte change or one cut from an encoding: an error, or the one proof it encodes."""
    from pymt.proof import Proof
    p = base_proofs()[which]
    enc = p.encode_rlp()

    def check(b, what):
        ctx.count("transitions")
        r = attempt(Proof.decode_rlp, b)
        if r[0] != "ok":
            ctx.count("rejected")
            return
        ctx.count("decoded")
        if attempt(r[1].encode_rlp) != ("ok", b):
            ctx.report("damaged RLP (%s) was decoded to %r, which encodes differently" % (what, r[1]),
                       ["from pymt.proof import Proof", "b = %r" % b, "try: p = Proof.decode_rlp(b)\nexcept Exception: p = None", "assert p is None or p.encode_rlp() == b"])

    ctx.count("states")
    for i in range(len(enc)):
        if i % parts != part:
            continue
        check(enc[:i], "cut at %d" % i)
        check(enc[i + 1:], "head cut at %d" % i)
        check(enc[:i] + enc[i + 1:], "byte %d removed" % i)
        for x in range(256):
            if x != enc[i]:
                check(enc[:i] + bytes([x]) + enc[i + 1:], "byte %d set to %d" % (i, x))
        for x in (0x00, 0x41, 0x80, 0xc0, 0xff):
            check(enc[:i] + bytes([x]) + enc[i:], "byte %d inserted at %d" % (x, i))
    for x in (enc + b"\x00", enc + enc, b"\x00" + enc, b""):
        check(x, "length changed")
    ctx.count("traces_validated_against_impl")


def c20_rlp_shape(ctx):
    from pymt.proof import Proof
    T, S, K, R, L = b"MT-POI", b"2024-01-02", b"key", b"root", [[b"left", b"00"], b"x"]
    shapes = [[], b"", b"MT-POI", [T], [T, S, K, R], [T, S, K, R, L, b""], [T, S, K, R, L, L], [[T], S, K, R, L], [T, [S], K, R, L], [T, S, [K], R, L], [T, S, K, [R], L], [T, S, K, R, b""],
              [T, S, K, R, b"x"], [T, S, K, R, [[[b"left"]]]], [T, S, K, R, [[b"a", [b"b"]]]], [T, S, K, R, [[[]]]], [b"", S, K, R, L], [b"MT", S, K, R, L], [b"mt-poi", S, K, R, L], [b"MT-POE", S, K, R, L],
              [b"POI", S, K, R, L], [b"MT-POI ", S, K, R, L], [L, R, K, S, T], [[T, S, K, R, L]], [T, S, K, L, R], [b"\xff", S, K, R, L]]
    good = [[T, S, K, R, []], [T, S, K, R, L], [T, b"", b"", b"", [b""]], [T, S, K, R, [[]]]]
    for s in shapes:
        ctx.count("transitions")
        r = attempt(Proof.decode_rlp, ref.rlp(s))
        if r[0] == "ok":
            ctx.report("malformed RLP %r was decoded to %r" % (s, r[1]), ["from pymt.proof import Proof", "try: p = Proof.decode_rlp(%r)\nexcept Exception: pass\nelse: raise AssertionError(p)" % ref.rlp(s)])
    for s in good:
        ctx.count("transitions")
        r = attempt(Proof.decode_rlp, ref.rlp(s))
        if r[0] != "ok" or [r[1].type, r[1].timestamp, r[1].target_key, r[1].trie_root, [x if isinstance(x, bytes) else list(x) for x in r[1].proof]] != s:
            ctx.report("well-formed RLP %r was decoded to %r" % (s, r))
    for x in (None, 1, "text", [b"x"], {}):
        for f in (Proof.decode_rlp, Proof.decode_json) if not isinstance(x, str) else (Proof.decode_rlp,):
            if attempt(f, x)[0] == "ok":
                ctx.report("decoding %r returned a proof" % (x,))
    # proofs of Merkle Patricia tries have no encoding: an error, on both sides
    for ty in (b"MPT-POI", b"MPT-POE"):
        for steps in ((b"a", b"b"), (b"a", [b"b"]), (), (b"\xff",)):
            p = Proof(b"key", b"root", steps, ty)
            for f in (p.encode_rlp, p.encode_json):
                ctx.count("transitions")
                if attempt(f)[0] == "ok":
                    d = attempt(Proof.decode_rlp if f == p.encode_rlp else Proof.decode_json, f())
                    if d[0] != "ok" or fields(d[1]) != fields(p):
                        ctx.report("encoding a %s proof gave an encoding of something else" % ty.decode())
    ctx.count("states", len(shapes) + len(good))
    ctx.count("traces_validated_against_impl", len(shapes) + len(good))


def json_expect(text):
    """Fields the JSON text stands for, or None if it is not the JSON form of a Merkle-tree proof."""
    try:
        d = json.loads(text)
    except Exception:
        return None
    if not isinstance(d, dict) or d.get("proof_type") != "MT-POI" or not isinstance(d.get("proof"), list):
        return None
    out = [b"MT-POI"]
    for k in ("timestamp", "target_key", "root_hash"):
        if not isinstance(d.get(k), str):
            return None
        out.append(d[k])
    try:
        out[1:] = [x.encode() for x in out[1:]]
        steps = []
        for s in d["proof"]:
            if isinstance(s, str):
                steps.append(s.encode())
            elif isinstance(s, list) and all(isinstance(x, str) for x in s):
                steps.append(tuple(x.encode() for x in s))
            else:
                return None
    except UnicodeError:
        return None
    return tuple(out) + (tuple(steps),)


def c20_json_damage(ctx, which, part, parts):
    from pymt.proof import Proof
    p = base_proofs()[which]
    text = p.encode_json()

    def check(b, what):
        ctx.count("transitions")
        r = attempt(Proof.decode_json, b)
        if r[0] != "ok":
            ctx.count("rejected")
            return
        ctx.count("decoded")
        want = json_expect(b)
        if want is None or fields(r[1]) != want:
            ctx.report("damaged JSON (%s) was decoded to %r\n%s" % (what, r[1], b),
                       ["from pymt.proof import Proof", "try: p = Proof.decode_json(%r)\nexcept Exception: pass\nelse: raise AssertionError(p)" % b])

    ctx.count("states")
    if which >= 0:
        for i in range(len(text)):
            if i % parts != part:
                continue
            check(text[:i], "cut")
            check(text[i:], "head cut")
            check(text[:i] + text[i + 1:], "character removed")
            for c in '"{}[],:\\ 0a':
                check(text[:i] + c + text[i + 1:], "character replaced")
                check(text[:i] + c + text[i:], "character inserted")
    if part == 0:
        d = json.loads(text)
        vals = [None, 1, True, "", "x", [], ["x"], [["a", "b"]], {}, {"a": "b"}, [1], [[1]], [["a", 1]], [None], [[["a"]]], [{"left": "00"}], "MPT-POI", "MPT-POE", "MT-POE", "MT", ["MT"], 1.5]
        for k in list(d):
            d2 = dict(d)
            del d2[k]
            check(json.dumps(d2), "field %s removed" % k)
            for v in vals:
                check(json.dumps(dict(d, **{k: v})), "field %s set to %r" % (k, v))
            for k2 in list(d):
                if k2 != k:
                    d2 = dict(d)
                    d2[k], d2[k2] = d[k2], d[k]
                    check(json.dumps(d2), "fields %s and %s exchanged" % (k, k2))
        for x in ("", "null", "1", "[]", "{}", '"x"', "true", json.dumps([d]), json.dumps(text), json.dumps(list(d.values()))):
            check(x, "other JSON")
        check(json.dumps(dict(d, extra="x")), "extra field")
    ctx.count("traces_validated_against_impl")


def c20_tasks(tier):
    th = tier == "thorough"
    out = [("c20_trees", dict(secure=s, hash_type=ht, nmax=40 if th else 17)) for ht in TYPES for s in (True, False)]
    out += [("c20_long", dict(count=n)) for n in (17, 65, 129, 257, 300, 1025, 5000) + ((66000,) if th else ())]
    out += [("c20_hand", dict(part=p, parts=4)) for p in range(4)]
    out += [("c20_rlp_damage", dict(which=w, part=p, parts=4)) for w in range(5) for p in range(4)]
    out += [("c20_json_damage", dict(which=w, part=p, parts=4)) for w in range(5) for p in range(4)]
    out.append(("c20_rlp_shape", {}))
    return out
