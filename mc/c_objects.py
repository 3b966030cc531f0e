"""C29 equality and hashing, C30 questions and failed operations change nothing."""
import itertools
from . import fam, ref
from .c_crypto import pair
from .c_dict import show
from .c_full import BADKEYS, BADVALUES, BadCodec, Holder, NoCodec, Obj, RaisingCodec
from .c_merkle import mtree
from .c_proofs import mk
from .fam import attempt, bs


# ---------------------------------------------------------------- C29
class Same:
    """Says it equals everything; the library must not agree."""

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


def strangers():
    from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
    return [None, 0, 1, True, b"", "", "x", (), [], {}, {b"a": b"b"}, {1}, object(), 1.5, ref.EMPTY_ROOT, int.from_bytes(ref.EMPTY_ROOT, "big"), EMPT(), SparseEMPT(),
            RootEMPT(ref.EMPTY_ROOT), DataReference(b"k", b"d"), NotImplemented, int, Same]


def compare_all(ctx, objs, kind, lim=None):
    """objs: list of (object, identity it stands for, how it was made). All ordered pairs."""
    from pymt.mpt import MPT
    hashes = []
    for o, ident, how in objs:
        h = attempt(hash, o)
        if h[0] != "ok" or not isinstance(h[1], int):
            ctx.report("hash() of %s made by %s gave %r" % (kind, how, h))
            return
        hashes.append(h[1])
    for i, (a, ia, ha) in enumerate(objs):
        ctx.count("states")
        for j, (b, ib, hb) in enumerate(objs):
            if lim and abs(i - j) > lim:
                continue
            ctx.count("transitions")
            want = ia == ib
            e, n = attempt(lambda: a == b), attempt(lambda: a != b)
            if e != ("ok", want) or n != ("ok", not want):
                ctx.report("%s made by %s == that made by %s: %r, != %r, expected %r and %r (identities %r, %r)" % (kind, ha, hb, e, n, want, not want, ia, ib))
            elif want and hashes[i] != hashes[j]:
                ctx.report("%s made by %s and by %s are equal with different hashes" % (kind, ha, hb))
        ctx.count("traces_validated_against_impl")
    for (o, ident, how), h in zip(objs, hashes):
        if attempt(hash, o) != ("ok", h):
            ctx.report("the hash of %s made by %s changed by comparing" % (kind, how))
    distinct = len({repr(i) for _, i, _ in objs})
    if not lim and len({o: 1 for o, _, _ in objs}) != distinct:
        ctx.report("%d objects (%s) with %d different contents make a dictionary of %d entries" % (len(objs), kind, distinct, len({o: 1 for o, _, _ in objs})))


def compare_strangers(ctx, objs, kind, others):
    for o, ident, how in objs:
        for s in others:
            ctx.count("transitions", 4)
            for f in (lambda: o == s, lambda: not (o != s)):
                if attempt(f) != ("ok", False):
                    ctx.report("%s made by %s compared with %r gave %r" % (kind, how, s, attempt(f)))
            if not isinstance(s, type) and type(s).__eq__ is not Same.__eq__:
                for f in (lambda: s == o, lambda: not (s != o)):
                    if attempt(f) != ("ok", False):
                        ctx.report("%r compared with %s made by %s gave %r" % (s, kind, how, attempt(f)))
        if attempt(lambda: o == Same()) != ("ok", False):
            ctx.report("%s made by %s equals an object of another type" % (kind, how))


def trie_objs(pairs, hist, secure):
    """The trie of one content in all the forms it can take."""
    from pymt.mpt import MPT
    want = ref.root_hash({ref.keccak(k): v for k, v in pairs.items()} if secure else pairs)
    t = fam.build(hist, secure)
    out = [(t, want, "%s, secure=%s" % (show(hist), secure)), (MPT({}, t.root(), secure=secure), want, "MPT({}, root of %s)" % show(hist)),
           (MPT({}, want, secure=not secure), want, "MPT({}, root hash of %s)" % show(hist))]
    if pairs:
        d = attempt(lambda: MPT.decode(t.encode()))
        if d[0] == "ok":
            out.append((d[1], want, "decoding %s" % show(hist)))
    return out


def c29_tries(ctx, depth, part, parts):
    """Every sequence of operations up to the depth."""
    keys, vals = [b"", b"\x12", b"\x12\x34"], [b"a", b"L" * 40]
    ops = [("u", k, v) for k in keys for v in vals] + [("d", k) for k in keys]
    objs = []
    for n in range(depth + 1):
        for h in itertools.product(ops, repeat=n):
            m = {}
            ok = True
            for o in h:
                if o[0] == "d":
                    ok = o[1] in m
                    m.pop(o[1], None)
                else:
                    m[o[1]] = o[2]
                if not ok:
                    break
            if ok:
                for secure in (False, True):
                    objs.append((m, list(h), secure))
    made = []
    for i, (m, h, secure) in enumerate(objs):
        if i % parts != part and len(h) > 2:      # short histories meet all the others
            continue
        t = trie_objs(m, h, secure)
        made += t if len(h) < 3 else t[:1]
    compare_all(ctx, made, "a trie")
    compare_strangers(ctx, made[:: max(1, len(made) // 60)], "a trie", strangers() + [made[5][1], int.from_bytes(made[5][1], "big"), mtree([b"a"], True, "sha256")])
    ctx.sample("%d tries, e.g. %s" % (len(made), show(objs[-1][1])))


def c29_families(ctx, fam_name, part, parts, secure=False):
    made = []
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        for h in hists[:3]:
            made += trie_objs(pairs, h, secure)[:1 if len(made) > 500 else 4]
        # the hash stays while nothing changes, goes with the contents and comes back with them
        t = fam.build(hists[0], secure)
        h0, h1 = hash(t), hash(fam.build(hists[-1], secure))
        if h0 != h1:
            ctx.report("two tries with contents %r have different hashes (%s / %s)" % (pairs, show(hists[0]), show(hists[-1])))
        for k in list(pairs)[:4] + [b"\x77\x77"]:
            attempt(t.get, k), t.contains(k), attempt(t.get_proof_of_inclusion, k), attempt(t.get_proof_of_exclusion, k), t.root_hash(), len(t), t == t
            if pairs:
                t.encode()
            ctx.count("transitions", 7)
            if hash(t) != h0:
                ctx.report("asking questions about %r changed the hash (%s)" % (k, show(hists[0])))
        other = fam.build(hists[0], secure)
        t.update(b"\x77\x77", b"v" * 33)
        if t == other or other == t or not t != other:
            ctx.report("a trie with one key more equals the one without (%s)" % show(hists[0]))
        t.delete(b"\x77\x77")
        if t != other or hash(t) != h0:
            ctx.report("a trie does not equal itself after a key came and went (%s)" % show(hists[0]))
    compare_all(ctx, made[:900], "a trie")


def c29_merkle(ctx, secure, part, parts):
    """All lists of up to four leaves over a small alphabet, in all kinds of trees."""
    from pymt.merkletools import MerkleTools
    made = []
    alpha = [b"a", b"\x00a", b"bb"] if not secure else [b"a", b"b", b""]
    types = ["sha256", "md5", "sha3_256", "sha512"]
    for n in range(1, 5):
        for vals in itertools.product(alpha, repeat=n):
            for ht in types[:4 if n < 3 else 1]:
                want = ref.mt_root(ref.mt_leaves(list(vals), secure, ht), ht)
                want = want if isinstance(want, (bytes, bytearray)) else bytes.fromhex(want)
                made.append((mtree(list(vals), secure, ht), bytes(want), "MerkleTree %r %s secure=%s" % (vals, ht, secure)))
                if n < 3:
                    t = MerkleTools(hash_type=ht, secure=secure)
                    for v in vals:
                        t.add_leaf(v)
                    t.make_tree()
                    made.append((t, bytes(want), "MerkleTools %r %s secure=%s" % (vals, ht, secure)))
    if not secure:   # trees whose only leaf is the root of another tree, and the empty leaf
        for vals in ([b"a", b"b"], [b"a", b"b", b"a"]):
            r = bytes(ref.mt_root(ref.mt_leaves(vals, False, "sha256"), "sha256"))
            made += [(mtree(v, False, "sha256"), r, "MerkleTree %r" % v) for v in (vals, [r])]
        made.append((mtree([b""], False, "sha256"), b"", "MerkleTree with one empty leaf"))
        made.append((mtree([b"\x00"], False, "sha256"), b"\x00", "MerkleTree [00]"))
    compare_all(ctx, made, "a Merkle tree")
    compare_strangers(ctx, made[::11], "a Merkle tree", strangers() + [made[0][1], made[0][1].hex(), int.from_bytes(made[0][1], "big"), fam.build([("u", b"a", b"b")]), [b"a"]])
    # histories: late leaves, resets
    for vals in itertools.product(alpha, repeat=3):
        t, u = mtree(list(vals[:2]), secure, "sha256"), mtree(list(vals[:2]), secure, "sha256")
        h = hash(t)
        t.add_leaf(vals[2])
        t.make_tree()
        same = ref.mt_root(ref.mt_leaves(list(vals), secure, "sha256"), "sha256") == ref.mt_root(ref.mt_leaves(list(vals[:2]), secure, "sha256"), "sha256")
        if (t == u) is not same or (t != u) is same:
            ctx.report("Merkle trees of %r and %r compare as %r" % (vals, vals[:2], t == u))
        t.reset_tree()
        for v in vals[:2]:
            t.add_leaf(v)
        t.make_tree()
        if t != u or hash(t) != h:
            ctx.report("a Merkle tree that was reset and filled again with %r is not equal to the first" % (vals[:2],))
        ctx.count("transitions", 4)
    ctx.sample("%d Merkle trees" % len(made))


def make_proof(typ, ts, key, root, proof):
    """A proof with this time stamp, or None if the library cannot decode it."""
    from pymt.proof import Proof
    r = attempt(Proof.decode_rlp, ref.rlp([typ, ts, key, root, [list(x) if isinstance(x, tuple) else x for x in proof]]))
    if r[0] != "ok":
        return None
    p = r[1]
    return p if (p.type, p.timestamp, p.target_key, p.trie_root, p.proof) == (typ, ts, key, root, tuple(proof)) else None


def c29_proofs(ctx, part, parts):
    from pymt.proof import Proof
    bst = [b"", b"a", b"b", b"', b'", b"a', b'b", b"\x00", b"left", b"\xff" * 32]
    stamps = [b"2020-01-01 00:00:00", b"2020-01-01 00:00:00.000001", b""]
    bodies = [(), (b"",), (b"a",), (b"a", b"b"), (b"b", b"a"), (b"ab",), ((b"a", b"b"),), ((b"a",), (b"b",)), ((b"a",), b"b"), ((b"left", b"aa"), (b"right", b"bb")), (b"a', b'b",), ((),),
              ((b"left", b"aa"),), ((b"right", b"aa"),), (b"', '",)]
    grid = []
    for typ in (b"MPT-POI", b"MPT-POE", b"MT-POI"):
        for ts in stamps[:2 if typ != b"MT-POI" else 3]:
            for key in bst:
                for body in bodies:
                    grid.append((typ, ts, key, bst[1], body))
            for root in bst:
                for body in bodies[:6]:
                    grid.append((typ, ts, bst[2], root, body))
    made = []
    for g in grid:
        p = make_proof(*g)
        if p is None:
            ctx.report("a proof with fields %r cannot be decoded" % (g,))
            return
        made.append((p, g, "decoding fields %r" % (g,)))
        if len(made) % 7 == 0:
            made.append((make_proof(*g), g, "decoding fields %r again" % (g,)))
    mine = made[part::parts] if parts > 1 else made
    # every pair whose members differ in few fields, and all pairs of this part
    compare_all(ctx, mine, "a proof")
    for (p, g, how) in mine[:60]:
        for (q, g2, how2) in made:
            ctx.count("transitions")
            if (p == q) is not (g == g2) or (g == g2 and hash(p) != hash(q)):
                ctx.report("proofs with fields %r and %r compare as %r" % (g, g2, p == q))
    # made at different times
    for typ, key, root, body in ((b"MPT-POI", b"k", b"r", (b"x",)), (b"MT-POI", b"k", b"r", ((b"left", b"x"),))):
        p, q = Proof(key, root, body, typ), Proof(key, root, body, typ)
        if (p == q) is not (p.timestamp == q.timestamp):
            ctx.report("two proofs with equal fields but time stamps %r, %r compare as %r" % (p.timestamp, q.timestamp, p == q))
    h = [hash(x[0]) for x in mine]
    for p, _, _ in mine:
        repr(p), attempt(p.encode_rlp), attempt(p.encode_json), list(p), p.items()
        ctx.count("transitions", 4)
    if h != [hash(x[0]) for x in mine]:
        ctx.report("the hash of a proof changed by reading it")
    compare_strangers(ctx, mine[::9], "a proof", strangers() + [grid[0], list(grid[0])])
    ctx.sample("%d proofs, part %d of %d" % (len(made), part, parts))


def c29_keys(ctx):
    from pymt import keypairs
    made = []
    kinds = ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]
    texts = {}
    for name in ("alice", "bob"):
        o = pair("RsaKeyPair", name)
        texts[name] = o.to_key_string("pw")
    for kind in kinds:
        cls = getattr(keypairs, kind)
        for key in ("alice", "bob"):
            for nick in (key, "eve", "", key.upper(), key.title(), key + " ", " " + key, key[:-1], key + "\0", "\u00e9", "e\u0301", "E\u0301"):
                for copyno in range(2):
                    o = cls.from_key_string(texts[key], "pw")
                    o.nickname = nick
                    made.append((o, (kind, nick, o.public_key), "%s named %r with the key of %s (%d)" % (kind, nick, key, copyno)))
    compare_all(ctx, made, "a key pair")
    compare_strangers(ctx, made[::3], "a key pair", strangers() + [made[0][0].public_key, made[0][0].public_key_string, "alice"])
    # names change, and change back
    for o, ident, how in made:
        twin = getattr(keypairs, ident[0]).from_key_string(o.to_key_string("pw"), "pw") if ident[1] else None
        h, nick = hash(o), o.nickname
        if twin is not None and (twin != o or hash(twin) != h):
            ctx.report("a key pair saved and loaded is not equal to the first (%s)" % how)
        o.nickname = nick + "x"
        if twin is not None and (twin == o or o == twin):
            ctx.report("key pairs with different names are equal (%s)" % how)
        o.nickname = nick
        if hash(o) != h or (twin is not None and twin != o):
            ctx.report("a key pair does not equal itself after its name was changed and changed back (%s)" % how)
        ctx.count("transitions", 4)
        attempt(o.sign, b"x"), attempt(o.encrypt, b"x", o.public_key), str(o), repr(o)
        if hash(o) != h:
            ctx.report("using a key pair changed its hash (%s)" % how)
    o = pair("RsaKeyPair", "carol")
    t = keypairs.RsaKeyPair.from_key_string(o.to_key_string("pw"), "pw")
    o2 = keypairs.RsaKeyPair.from_key_string(o.to_key_string("pw"), "pw")
    o2.generate_keypair(1024)
    if t == o2 or o2 == t:
        ctx.report("key pairs of one name with different keys are equal")
    # the same text in the name and elsewhere must not make key pairs equal
    ctx.sample("%d key pairs" % len(made))


def ftasks(fn, *a, **kw):
    return [(f, dict(fam_name=p.pop("fam"), **p)) for f, p in fam.tasks(fn, *a, **kw)]


def c29_tasks(tier):
    th = tier == "thorough"
    out = [("c29_tries", dict(depth=3, part=p, parts=4)) for p in range(4)]
    if th:
        out += [("c29_tries", dict(depth=4, part=p, parts=8)) for p in range(8)]
    fams = ["chain_4", ("tern2", 4), ("wide_s", 4), ("values_s", 4), "long_s", "huge"] if not th else ["chain_4", "tern2", "tern3", "wide", "values_s", "long_s", "nib", "words_s"]
    out += ftasks("c29_families", fams, 2) + ftasks("c29_families", ["chain_4", "words_3"], 2, secure=True)
    out += [("c29_merkle", dict(secure=s, part=0, parts=1)) for s in (False, True)]
    out += [("c29_proofs", dict(part=p, parts=4 if not th else 1)) for p in range(4 if not th else 1)]
    out.append(("c29_keys", {}))
    return out


# ---------------------------------------------------------------- C30
def proof_fields(p):
    return (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)


def answer(r):
    """An answer in a comparable form (proofs without their time stamp)."""
    if r[0] != "ok":
        return r
    v = r[1]
    if hasattr(v, "trie_root"):
        return ("ok", (v.type, v.target_key, v.trie_root, v.proof))
    if hasattr(v, "root_hash") and callable(v.root_hash):
        return ("ok", (type(v).__name__, v.root_hash()))
    if hasattr(v, "data") and hasattr(v, "key"):
        return ("ok", (v.key, v.data))
    return ("ok", v if isinstance(v, (int, bytes, bytearray, str, type(None), list, tuple, dict)) else repr(v) if not isinstance(v, Holder) else ("H", v.items))


class World:
    """One trie with its storages, and everything about it that must not change."""

    def __init__(self, kind, hist, secure, value=lambda v, i: v):
        from pymt.mpt import MPT
        from pymt.empt import EMPT, SparseEMPT
        self.kind, self.hist, self.secure = kind, hist, secure
        self.nodes, self.data = {}, {}
        if kind == "mpt":
            self.t = MPT(self.nodes, secure=secure)
        elif kind == "sparse":
            self.t = SparseEMPT(self.nodes, secure=secure)
        else:
            self.t = EMPT(self.nodes, self.data, secure=secure)
        for i, op in enumerate(hist):
            if op[0] == "u":
                self.t.update(op[1], value(op[2], i))
            else:
                self.t.delete(op[1])
        if kind == "root":
            self.base = self.t
            self.t = self.base.get_root_trie()
        self.lines = None

    def state(self):
        root = self.t.root() if hasattr(self.t, "root") else None
        return (root, self.t.root_hash(), dict(self.nodes), {k: answer(("ok", v)) for k, v in self.data.items()}, list(self.nodes), list(self.data), self.t.secure if hasattr(self.t, "secure") else None)


def questions(w, probes, proofs):
    """(name, call, is it a pure question)."""
    t, kind = w.t, w.kind
    out = []
    if kind != "root":
        for k in probes:
            for name in ("get", "get_reference", "contains", "get_proof_of_inclusion", "get_proof_of_exclusion"):
                if hasattr(t, name):
                    out.append(("%s(%r)" % (name, k), lambda f=getattr(t, name), k=k: f(k)))
            out.append(("[%r]" % k, lambda k=k: t[k]))
            out.append(("%r in" % k, lambda k=k: k in t))
        if kind == "mpt":
            out += [("encode", t.encode), ("len", lambda: len(t)), ("hash", lambda: hash(t)), ("==", lambda: t == fam.build(w.hist[:1])), ("== other", lambda: t == 5)]
            for k in probes[:6]:
                out.append(("contains(%r, hash_key=False)" % k, lambda k=k: t.contains(k, hash_key=False)))
        if kind == "sparse":
            out += [("encode_rlp", t.encode_rlp), ("get_root_trie", t.get_root_trie), ("root", t.root)]
        if kind == "empt":
            out += [("len", lambda: len(t)), ("list", lambda: list(t)), ("keys", lambda: list(t.keys())), ("values", lambda: [answer(("ok", v)) for v in t.values()]),
                    ("items", lambda: [(k, answer(("ok", v))) for k, v in t.items()]), ("get_sparse_trie", t.get_sparse_trie), ("get_root_trie", t.get_root_trie), ("root", t.root),
                    ("== dict", lambda: t == {}), ("bool", lambda: bool(t))]
    else:
        out += [("encode_rlp", t.encode_rlp)]
    out += [("root_hash", t.root_hash), ("repr", lambda: repr(t)[:10]), ("str", lambda: str(t)[:5])]
    for i, p in enumerate(proofs):
        out.append(("verify_proof_of_inclusion(#%d)" % i, lambda p=p: t.verify_proof_of_inclusion(p)))
        out.append(("verify_proof_of_exclusion(#%d)" % i, lambda p=p: t.verify_proof_of_exclusion(p)))
    for bad in (None, b"x", 5, (b"x",)):
        out.append(("verify_proof_of_inclusion(%r)" % (bad,), lambda bad=bad: t.verify_proof_of_inclusion(bad)))
        out.append(("verify_proof_of_exclusion(%r)" % (bad,), lambda bad=bad: t.verify_proof_of_exclusion(bad)))
    return out


def mutations(w, probes):
    """Operations of which those that raise must change nothing: (name, call)."""
    t = w.t
    out = []
    if w.kind == "root":
        return out
    for k in probes:
        out.append(("delete(%r)" % k, lambda t, k=k: t.delete(k)))
        out.append(("del [%r]" % k, lambda t, k=k: t.__delitem__(k)))
        if w.kind == "empt":
            out.append(("pop(%r)" % k, lambda t, k=k: t.pop(k)))
    for k in BADKEYS:
        out.append(("delete(%r)" % (k,), lambda t, k=k: t.delete(k)))
        out.append(("update(%r)" % (k,), lambda t, k=k: t.update(k, b"value" * 8)))
        out.append(("[%r] =" % (k,), lambda t, k=k: t.__setitem__(k, b"value" * 8)))
        for name in ("get", "contains", "get_proof_of_inclusion", "get_proof_of_exclusion", "get_reference"):
            if hasattr(t, name):
                out.append(("%s(%r)" % (name, k), lambda t, k=k, name=name: getattr(t, name)(k)))
    for v in BADVALUES:
        for k in probes[:4]:
            out.append(("update(%r, %s)" % (k, type(v).__name__), lambda t, k=k, v=v: t.update(k, v)))
    if w.kind == "empt":
        out.append(("popitem", lambda t: t.popitem()))
        for v in BADVALUES[:4]:
            out.append(("setdefault", lambda t, v=v: t.setdefault(probes[-1], v)))
    return out


def pool(w, probes, pairs):
    """Proofs to be checked: genuine, of other tries, damaged, nonsense."""
    src = w.base if w.kind == "root" else w.t
    out = []
    for k in probes:
        for f in (src.get_proof_of_inclusion, src.get_proof_of_exclusion):
            r = attempt(f, k)
            if r[0] == "ok":
                out.append(r[1])
                break
    base = out[:4]
    for p in base:
        ns = list(p.proof)
        out += [mk(p.target_key, p.trie_root, ns[1:], p.type), mk(p.target_key, p.trie_root, ns[:-1], p.type), mk(p.target_key, b"\x01" * 32, ns, p.type),
                mk(p.target_key + b"\x01", p.trie_root, ns, p.type), mk(p.target_key, p.trie_root, ns[::-1], p.type),
                mk(p.target_key, p.trie_root, ns, b"MPT-POE" if p.type == b"MPT-POI" else b"MPT-POI"), mk(p.target_key, p.trie_root, ns + [b"junk"], p.type),
                mk(p.target_key, p.trie_root, ns, b"MT-POI")]
    out += [mk(b"k", b"", [], b"MPT-POI"), mk(b"k", b"r", [b"\xc0"], b"MPT-POE"), mk(b"", ref.EMPTY_ROOT, [b"\x80"], b"MPT-POI"), mk(b"k", b"r" * 32, [(b"left", b"x")], b"MPT-POI")]
    return out


def still(ctx, w, before, what, script=None):
    try:
        now = w.state()
    except Exception as e:
        ctx.report("after %s the trie cannot even be asked for its root: %r\n%s, history %s, secure=%s" % (what, e, w.kind, show(w.hist), w.secure))
        return False
    if now == before:
        return True
    names = ["root", "root hash", "node storage", "data storage", "order of the node storage", "order of the data storage", "mode"]
    diff = [n for n, a, b in zip(names, before, now) if a != b]
    ctx.report("%s changed the %s\n%s, history %s, secure=%s" % (what, ", ".join(diff), w.kind, show(w.hist), w.secure))
    return False


def ask_all(ctx, w, probes, proofs):
    before = w.state()
    qs = questions(w, probes, proofs)
    fields = [proof_fields(p) for p in proofs]
    first = []
    for name, f in qs:
        ctx.count("transitions")
        first.append(answer(attempt(f)))
        ctx.outcome("question answered" if first[-1][0] == "ok" else "question refused")
        if name.startswith(("get", "[", "verify", "encode", "contains", "len", "values")) and not still(ctx, w, before, name):
            return before
    still(ctx, w, before, "the questions")
    for (name, f), a in zip(reversed(qs), reversed(first)):   # in the other order
        ctx.count("transitions")
        b = answer(attempt(f))
        if a != b and name != "hash":
            ctx.report("%s gave %r first and %r later, with nothing but questions in between\n%s, history %s, secure=%s" % (name, a, b, w.kind, show(w.hist), w.secure))
            return before
    still(ctx, w, before, "the questions")
    if [proof_fields(p) for p in proofs] != fields:
        ctx.report("checking proofs changed one of them\n%s, history %s" % (w.kind, show(w.hist)))
    ctx.count("traces_validated_against_impl")
    return before


def fail_all(ctx, w, probes, remake):
    """Every operation that may fail; after one that succeeds the trie is made again."""
    before = w.state()
    for name, f in mutations(w, probes):
        ctx.count("transitions")
        r = attempt(f, w.t)
        ctx.outcome("operation refused" if r[0] != "ok" else "operation succeeded")
        if r[0] == "ok":
            if w.kind == "empt" and name.startswith("update") and "(b" not in name:
                pass
            w = remake()
            if w.state() != before:
                before = w.state()
        elif not still(ctx, w, before, "%s, which raised %s," % (name, r[1])):
            w = remake()
    return w


def probes_of(pairs, universe):
    ks = list(pairs)
    return list(dict.fromkeys(ks[:5] + ks[-1:] + [k + b"\x00" for k in ks[:2]] + [k[:-1] for k in ks[:3] if k] + universe[:3] + [b"", b"\x12\x99", b"\xee" * 3]))


def c30_states(ctx, fam_name, part, parts, kind, secure=False, values="bytes"):
    def value(v, i):
        if values == "bytes" or kind == "mpt":
            return v
        return [v, bytearray(v), Obj(v), Holder([v, v])][i % 4]
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        hist = hists[-1]
        if len(hist) > 60:
            continue

        def make():
            return World(kind, hist, secure, value)
        w = make()
        ctx.count("states")
        probes = probes_of(pairs, universe)
        ask_all(ctx, w, probes, pool(make(), probes, pairs))
        fail_all(ctx, w, probes, make)
        ctx.sample("%s: %s" % (kind, show(hist)))


def c30_damaged(ctx, fam_name, part, parts, kind, secure=False):
    """Storages with one entry missing or replaced: what raises must not change anything."""
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        hist = hists[0]
        if len(hist) > 20 or not pairs:
            continue
        probes = probes_of(pairs, universe)[:8]
        genuine = pool(World(kind, hist, secure), probes, pairs)[:12]

        def damage(w, i, how):
            which, k = ([("n", k) for k in w.nodes] + [("d", k) for k in w.data])[i]
            d = w.nodes if which == "n" else w.data
            if how == "missing":
                del d[k]
            else:
                d[k] = b"\xc0" if which == "n" else b"tampered"
            return w
        ref_w = World(kind, hist, secure)
        for i in range(len(ref_w.nodes) + len(ref_w.data)):
            for how in ("missing", "replaced"):
                def make():
                    return damage(World(kind, hist, secure), i, how)
                w = make()
                ctx.count("states")
                before = w.state()
                for name, f in questions(w, probes, genuine[:6]):
                    ctx.count("transitions")
                    attempt(f)
                    if not still(ctx, w, before, "%s with storage entry %d %s" % (name, i, how)):
                        w = make()
                        break
                for name, f in [("delete(%r)" % k, lambda t, k=k: t.delete(k)) for k in pairs] + [("update(%r)" % k, lambda t, k=k: t.update(k, b"new" * 12)) for k in probes]:
                    ctx.count("transitions")
                    r = attempt(f, w.t)
                    ctx.outcome("damaged: operation %s" % ("succeeded" if r[0] == "ok" else "refused"))
                    if r[0] == "ok":
                        w = make()
                    elif not still(ctx, w, before, "%s, which raised %s with storage entry %d %s," % (name, r[1], i, how)):
                        w = make()


def c30_args(ctx, secure):
    """What is passed in stays as it was, and changing it afterwards changes nothing inside."""
    from pymt.empt import EMPT, SparseEMPT
    for n in (1, 31, 32, 33, 56, 300):
        for cls in (EMPT, SparseEMPT):
            v = bytearray(b"v" * n)
            t = cls(secure=secure)
            t[b"key"] = v
            t.update(b"kez", v)
            ctx.count("transitions", 2)
            if v != b"v" * n:
                ctx.report("update changed the bytearray it was given (%d bytes)" % n)
            h = t.root_hash()
            if cls is SparseEMPT:
                v[0] ^= 1
                if t.root_hash() != h or attempt(t.get_reference, b"key")[1].data != b"v" * n:
                    ctx.report("changing the bytearray after update changed a sparse trie")
            hd = Holder([b"a" * n, b"b"])
            t[b"obj"] = hd
            if hd.items != [b"a" * n, b"b"]:
                ctx.report("update changed the object it was given")
            ctx.count("states")


def c30_rebuild(ctx, secure):
    """A rebuild that fails (a value that cannot be encoded, in every place among the others) changes nothing."""
    keys = bs("", "12", "1234", "1235", "20")
    for n in range(5):
        for at in range(n + 1):
            for bad in (RaisingCodec(), BadCodec(), 5, None, NoCodec()):
                for badkey in (b"zz", "text"):
                    w = World("empt", [("u", k, b"v" * 20 + k) for k in keys[:n]], secure)
                    items = list(w.data.items())
                    w.data.clear()
                    for k, v in items[:at] + [(badkey, bad if badkey == b"zz" else b"good")] + items[at:]:
                        w.data[k] = v
                    before = w.state()
                    r = attempt(w.t.build_trie)
                    ctx.count("transitions")
                    ctx.count("states")
                    ctx.outcome("rebuild %s" % ("succeeded" if r[0] == "ok" else "refused"))
                    if r[0] != "ok":
                        still(ctx, w, before, "build_trie, which raised %s because of %r," % (r[1], bad))
                        for k, v in items:
                            if attempt(w.t.get, k) != ("ok", v):
                                ctx.report("after a rebuild that failed, get(%r) gives %r" % (k, attempt(w.t.get, k)))


def c30_tasks(tier):
    th = tier == "thorough"
    out = []
    q = {"mpt": [("chain_4", 4), ("tern2", 6), ("wide_s", 6), ("values_s", 4), ("long_s", 2), "words_3"], "empt": [("chain_4", 4), ("tern2", 4), "words_3"],
         "sparse": [("chain_4", 2), ("tern2", 4), "words_3"], "root": [("chain_4", 2), ("words_3", 2)]}
    t = {"mpt": ["chain", "tern2", "tern3", "wide", "values", "long", "words", "nib", "twins"], "empt": ["chain", "tern2", "tern3m", "words_s", "wide_s", "values_s"],
         "sparse": ["chain", "tern2", "tern3n", "words_s", "wide_s"], "root": ["chain", "tern2", "words_s", "wide_s"]}
    for kind, fams in (t if th else q).items():
        out += ftasks("c30_states", fams, 2 if not th else 8, kind=kind)
        out += ftasks("c30_states", ["chain_4"] if not th else ["chain_s", "words_s"], 2 if not th else 4, kind=kind, secure=True)
    for kind in ("empt", "sparse"):
        out += ftasks("c30_states", ["words_3"] if not th else ["chain_s", "words_s"], 2, kind=kind, values="kinds")
    for kind in ("mpt", "empt", "sparse"):
        out += ftasks("c30_damaged", [("chain_4", 3), ("tern2", 3), ("words_3", 2)] if not th else [("chain_s", 8), ("tern2", 8), ("tern3m", 8), ("words_s", 8)], kind=kind)
        out += ftasks("c30_damaged", ["words_3"] if not th else ["chain_s"], 2, kind=kind, secure=True)
    out += [("c30_rebuild", dict(secure=s)) for s in (False, True)]
    out += [("c30_args", dict(secure=s)) for s in (False, True)]
    return out
