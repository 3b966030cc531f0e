"""C28: all interleavings, up to a preemption bound, of readers and of readers with one writer on one trie."""
import itertools
from . import ref
from .common import QUICK
from .sched import Run, WatchedDict, watched_class

L = b"L" * 40
CONTENTS = [
    {},
    {b"\x12\x34": b"v"},
    {b"\x12\x34": L, b"\x12\x35": b"small", b"\x12": L + b"2"},
    {b"\x12\x34\x56": L, b"\x12\x34\x57": b"w" * 33, b"\x92": L + b"3"},
    {b"": b"root", b"\x10": L, b"\x11": L, b"\x20": b"x"},
    {b"\x00": b"a", b"\x01": b"b", b"\x10": b"c"},
    {bytes([n << 4]): b"wide%d" % n * 6 for n in range(16)},
    {b"do": b"verb" * 10, b"dog": b"puppy" * 8, b"doge": b"coin", b"horse": b"stallion" * 5},
]
WRITES = [
    [("u", b"\x12\x34", L), ("u", b"", b"v")],
    [("u", b"\x12\x34", b"new" * 14), ("d", b"\x12\x34"), ("u", b"\x12\x35", L), ("u", b"\x12", b"p" * 40)],
    [("u", b"\x12\x34", b"new" * 14), ("d", b"\x12\x34"), ("d", b"\x12"), ("u", b"\x13", L), ("u", b"\x12\x34\x56", b"q" * 40)],
    [("d", b"\x92"), ("d", b"\x12\x34\x57"), ("u", b"\x12\x34", L), ("u", b"\x12\x34\x56", b"o" * 40), ("u", b"\x12\x84", b"z" * 36)],
    [("d", b""), ("d", b"\x20"), ("d", b"\x10"), ("u", b"\x10", b"n" * 35), ("u", b"\x10\x00", b"deep" * 10)],
    [("d", b"\x00"), ("d", b"\x10"), ("u", b"\x00\x01", b"d"), ("u", b"\x00", L)],
    [("d", b"\x30"), ("u", b"\x30", b"other" * 8), ("u", b"\x35\x55", L)],
    [("d", b"dog"), ("d", b"do"), ("u", b"dog", b"cat" * 20), ("u", b"d", L)],
]


LINE_WRITES = {0: (0,), 1: (1, 3), 2: (1, 4), 3: (0,), 4: (2,), 5: (1,), 7: (0,)}   # explored at line level in the quick tier


def keys_for(ci, write=None):
    """Keys worth reading: stored ones, the written one, and absent ones next to them."""
    ks = list(CONTENTS[ci])[:4]
    if write:
        ks = [write[1]] + [k for k in ks if k != write[1]][:2]
    ks = ks[:3]
    extra = [k + b"\x00" for k in ks[:1]] + [b"\x12\x34\x58"]
    return list(dict.fromkeys(ks + extra))


def fresh(ci, secure, watched):
    """A trie with this content on a storage whose accesses are steps."""
    from pymt.mpt import MPT
    cls = watched_class(MPT) if watched else MPT
    key = (ci, secure, watched)
    if key not in _base:
        st = WatchedDict()
        t = cls(st, secure=secure)
        for k, v in CONTENTS[ci].items():
            t.update(k, v)
        _base[key] = (t, dict(st))
    t, nodes = _base[key]
    st = WatchedDict(nodes)
    o = cls(st, root=t.root(), secure=secure) if CONTENTS[ci] else cls(st, secure=secure)
    return o, st


_base = {}


def attach(o, st, run):
    st.run = run
    if hasattr(type(o), "_w_run"):
        object.__setattr__(o, "_w_run", run)


def read_fn(o, r):
    kind, arg = r
    if kind == "get":
        return lambda: o.get(arg)
    if kind == "contains":
        return lambda: o.contains(arg)
    if kind == "poi":
        return lambda: o.get_proof_of_inclusion(arg)
    if kind == "poe":
        return lambda: o.get_proof_of_exclusion(arg)
    if kind == "vpoi":
        return lambda: o.verify_proof_of_inclusion(arg)
    if kind == "vpoe":
        return lambda: o.verify_proof_of_exclusion(arg)
    raise KeyError(kind)


def write_fn(o, w):
    return (lambda: o.update(w[1], w[2])) if w[0] == "u" else (lambda: o.delete(w[1]))


def norm(x):
    """What a reader got, in a comparable form."""
    if x is None:
        return None
    kind, v = x
    if kind == "ok" and hasattr(v, "trie_root"):
        return kind, (v.type, v.target_key, v.trie_root, tuple(v.proof))
    if kind == "ok" and isinstance(v, (bytes, bytearray)):
        return kind, bytes(v)
    return kind, v


def reader_model(m, r):
    """The answers a lookup or membership test may give on contents m: ('ok', value) or 'raises'."""
    kind, k = r
    if kind == "get":
        return ("ok", m[k]) if k in m else "raises"
    return ("ok", k in m)


def agrees(res, want):
    return res[0] == "raised" if want == "raises" else res == want


def schedules(counts, bound):
    """All schedules of len(counts) threads with up to `bound` preemptions, given the steps each thread takes alone."""
    n = len(counts)

    def rec(cur, segs, left, pre):
        yield segs
        if pre == 0:
            return
        for s in range(1 if segs or True else 0, left[cur]):
            for t in range(n):
                if t != cur and left[t] > 0:
                    l2 = list(left)
                    l2[cur] -= s
                    yield from rec2(t, segs + [(cur, s)], l2, pre - 1)

    def rec2(cur, segs, left, pre):
        # cur has the turn: it runs to its end, or is preempted again
        yield segs + [(cur, None)]
        if pre == 0:
            return
        for s in range(1, left[cur]):
            for t in range(n):
                if t != cur and left[t] > 0:
                    l2 = list(left)
                    l2[cur] -= s
                    yield from rec2(t, segs + [(cur, s)], l2, pre - 1)

    for first in range(n):
        yield from rec2(first, [], list(counts), bound)


def explore(ctx, ci, secure, make_fns, bound, lines, fine, judge, label):
    """Run every schedule; judge(trie, storage, results) returns an error text or None."""
    watched = not lines or fine
    alone = []
    o, st = fresh(ci, secure, watched)
    for i in range(len(make_fns(o))):
        o, st = fresh(ci, secure, watched)
        fns = make_fns(o)
        run = Run([fns[i]], [], lines, fine)
        attach(o, st, run)
        run.run()
        alone.append(run.count[0])
    # a thread may take more steps than alone (after a concurrent change); room for that at the end
    counts = [c + 1 for c in alone]
    for segs in schedules(counts, bound):
        o, st = fresh(ci, secure, watched)
        run = Run(make_fns(o), segs, lines, fine)
        attach(o, st, run)
        res = run.run()
        attach(o, st, None)
        ctx.count("states")
        ctx.count("schedules")
        ctx.count("transitions", sum(run.count))
        if run.free:
            ctx.count("blocked")
            if ctx.stats["blocked"] > 40:   # the code under test serialises its operations with locks
                return False
        e = judge(o, st, [norm(r) for r in res])
        if e:
            ctx.report("%s\n%s, contents %r, secure=%r\nschedule (thread, steps): %r" % (e, label, CONTENTS[ci], secure, segs))
            return False
        ctx.count("traces_validated_against_impl")
        if ctx.stats["schedules"] % 4001 == 1:
            ctx.sample("%s: schedule %r -> %r" % (label, segs, res))
    return True


def final_error(o, st, m, secure):
    """The trie after the run: root, contents, and readability of everything from the storage."""
    from pymt.mpt import MPT
    want = ref.root_hash({ref.keccak(k): v for k, v in m.items()} if secure else m)
    if o.root_hash() != want:
        return "the root hash afterwards is not that of the writer running alone"
    t = MPT(st, root=o.root(), secure=secure)
    for k, v in m.items():
        try:
            if o.get(k) != v or t.get(k) != v:
                return "afterwards get(%r) gives another value" % k
        except Exception as e:
            return "afterwards get(%r) raised %r" % (k, e)
    return None


def c28_writer(ctx, ci, wi, secure, bound, lines, fine, nreaders=1):
    w = WRITES[ci][wi]
    before = dict(CONTENTS[ci])
    after = dict(before)
    if w[0] == "u":
        after[w[1]] = w[2]
    else:
        after.pop(w[1])
    reads = [(kind, k) for k in keys_for(ci, w) for kind in ("get", "contains")]
    combos = [(r,) for r in reads] if nreaders == 1 else [(reads[0], reads[1]), (reads[0], reads[2]), (reads[2], reads[3])]
    for rs in combos:
        def judge(o, st, res):
            if res[0][0] != "ok":
                return "the writer (%r) gave %r" % (w[:2], res[0])
            for r, x in zip(rs, res[1:]):
                if not agrees(x, reader_model(before, r)) and not agrees(x, reader_model(after, r)):
                    return "%s(%r) during %r of %r gave %r, which is neither the answer before nor the one after" % (r[0], r[1], {"u": "update", "d": "delete"}[w[0]], w[1], x)
            return final_error(o, st, after, secure)
        explore(ctx, ci, secure, lambda o: [write_fn(o, w)] + [read_fn(o, r) for r in rs], bound, lines, fine, judge, "%s(%r) with %s" % ({"u": "update", "d": "delete"}[w[0]], w[1], rs))


def provers(ci, secure):
    """Verifications and generations of different proofs: valid ones, and one that has to be rejected."""
    from pymt.proof import Proof
    o, st = fresh(ci, secure, False)
    out = []
    deep = sorted(CONTENTS[ci], key=lambda k: -len(k))
    # two present keys with paths as different as possible, and two absent ones
    for k in (deep[0], next((k for k in deep if k[:1] != deep[0][:1]), deep[-1])):
        p = o.get_proof_of_inclusion(k)
        out += [("vpoi", p), ("poi", k)]
    out.append(("vpoi", Proof(p.target_key, p.trie_root, out[0][1].proof, b"MPT-POI")))
    for k in (deep[0] + b"\x00", b"\x93" if deep[0][:1] != b"\x93" else b"\x94"):
        if k not in CONTENTS[ci]:
            p = o.get_proof_of_exclusion(k)
            out += [("vpoe", p), ("poe", k)]
    return out


def c28_readers(ctx, ci, secure, bound, lines, fine, part, parts, threads=2, proofs=False):
    """Readers only: each gets exactly the answer it gets alone."""
    o, st = fresh(ci, secure, False)
    few = QUICK
    if proofs:
        pairs = [rs for rs in itertools.combinations(provers(ci, secure), 2) if "v" in rs[0][0] + rs[1][0]]
        return explore_readers(ctx, ci, secure, bound, lines, fine, [rs for i, rs in enumerate(pairs) if i % parts == part])
    present = list(CONTENTS[ci])[:2 if few else 3]
    absent = [k for k in keys_for(ci) if k not in CONTENTS[ci]][:1 if few else 2]
    reads = []
    for k in present + absent:
        reads += [("get", k), ("contains", k)]
    if few:
        reads.remove(("contains", present[1]))
    for k in present[-1:] if few else present[:2]:
        p = o.get_proof_of_inclusion(k)
        reads += [("poi", k), ("vpoi", p)]
    for k in absent:
        p = o.get_proof_of_exclusion(k)
        reads += [("poe", k), ("vpoe", p)]
    if present and absent and not few:
        from pymt.proof import Proof
        p = o.get_proof_of_inclusion(present[0])
        reads.append(("vpoi", Proof(absent[0], p.trie_root, p.proof, b"MPT-POI")))
    n = 0
    todo = []
    for rs in itertools.combinations_with_replacement(reads, threads):
        n += 1
        if n % parts != part:
            continue
        kinds = {r[0] for r in rs}
        if threads > 2 and len(kinds) < 2 or few and kinds in ({"get", "contains"}, {"poi", "poe"}, {"vpoi", "vpoe"}):
            continue
        todo.append(rs)
    explore_readers(ctx, ci, secure, bound, lines, fine, todo)


def explore_readers(ctx, ci, secure, bound, lines, fine, todo):
    for rs in todo:
        want = []
        for r in rs:
            o, st = fresh(ci, secure, False)
            try:
                want.append(norm(("ok", read_fn(o, r)())))
            except Exception as e:
                want.append(("raised", type(e).__name__))

        def judge(o, st, res):
            for r, x, y in zip(rs, res, want):
                if x != y:
                    return "%s(%r) gave %r next to another reader, alone %r" % (r[0], r[1], x, y)
            return final_error(o, st, CONTENTS[ci], secure)
        explore(ctx, ci, secure, lambda o: [read_fn(o, r) for r in rs], bound, lines, fine, judge, "readers %s" % (rs,))


def c28_tasks(tier):
    th = tier == "thorough"
    out = []
    for ci in range(len(CONTENTS)):
        for wi in range(len(WRITES[ci])):
            sec = wi == 0
            if th or wi in LINE_WRITES.get(ci, ()):
                out.append(("c28_writer", dict(ci=ci, wi=wi, secure=False, bound=1, lines=True, fine=False)))
            out.append(("c28_writer", dict(ci=ci, wi=wi, secure=False, bound=3 if th else 2, lines=False, fine=False)))
            if sec or th:
                out.append(("c28_writer", dict(ci=ci, wi=wi, secure=True, bound=2 if not th else 3, lines=False, fine=False)))
            if th:
                out.append(("c28_writer", dict(ci=ci, wi=wi, secure=False, bound=1, lines=True, fine=True)))
                out.append(("c28_writer", dict(ci=ci, wi=wi, secure=False, bound=2, lines=False, fine=False, nreaders=2)))
    for ci in ((2, 4) if not th else (1, 2, 3, 4, 5, 7)):
        parts = 8
        for p in range(parts):
            out.append(("c28_readers", dict(ci=ci, secure=False, bound=1, lines=True, fine=False, part=p, parts=parts)))
            if th or p == 0:
                out.append(("c28_readers", dict(ci=ci, secure=True, bound=2, lines=False, fine=False, part=p, parts=parts)))
            if th:
                out.append(("c28_readers", dict(ci=ci, secure=False, bound=1, lines=True, fine=True, part=p, parts=parts)))
    for ci in (2, 3, 7) if not th else (1, 2, 3, 4, 5, 6, 7):
        for p in range(8):
            out.append(("c28_readers", dict(ci=ci, secure=False, bound=1, lines=True, fine=False, part=p, parts=8, proofs=True)))
        out += [("c28_readers", dict(ci=ci, secure=sec, bound=2, lines=False, fine=False, part=p, parts=4, proofs=True)) for p in range(4) for sec in (False, True)]
    out.sort(key=lambda t: (not t[1]["lines"], -t[1]["ci"]))
    return out


# ---------------------------------------------------------------- C32
def calm(x):
    """A result in a comparable form: proofs without the time they were made at."""
    if hasattr(x, "trie_root"):
        return "proof", x.type, x.target_key, x.trie_root, tuple(x.proof)
    if isinstance(x, (list, tuple)):
        return tuple(calm(y) for y in x)
    if isinstance(x, bytearray):
        return bytes(x)
    if isinstance(x, dict):
        return tuple(sorted((calm(k), calm(v)) for k, v in x.items()))
    if hasattr(x, "key") and hasattr(x, "data") and hasattr(x, "encode"):
        return "reference", x.key, x.data
    if hasattr(x, "encode_rlp"):
        return "value", x.encode_rlp()
    return x


def tried(f):
    try:
        return "ok", calm(f())
    except Exception as e:
        return "raised", type(e).__name__


def data(ci):
    return CONTENTS[ci]


def trie_kinds():
    """kind -> (new object of content ci, questions, changes, view). Questions and changes: name -> function of the object."""
    from pymt.empt import EMPT, SparseEMPT, RootEMPT
    from pymt.mpt import MPT

    def full(ci, secure):
        t = EMPT({}, {}, secure=secure)
        for k, v in data(ci).items():
            t[k] = v
        return t

    mades = {}

    def made(ci, secure):
        if (ci, secure) not in mades:
            t = full(ci, secure)
            ks = sorted(data(ci), key=lambda k: -len(k))
            other = EMPT(secure=secure)
            other[ks[0]] = b"elsewhere" * 5
            p = [t.get_proof_of_inclusion(ks[0]), t.get_proof_of_inclusion(ks[-1]), t.get_proof_of_exclusion(ks[0] + b"\x00"), other.get_proof_of_inclusion(ks[0])]
            mades[ci, secure] = t, ks, p
        return mades[ci, secure]

    def questions(ci, secure, kind):
        t, ks, p = made(ci, secure)
        a, b, no = ks[0], ks[-1], ks[0] + b"\x00"
        q = {"root": lambda o: o.root_hash(), "poi": lambda o: o.verify_proof_of_inclusion(p[0]), "poi2": lambda o: o.verify_proof_of_inclusion(p[1]),
             "poe": lambda o: o.verify_proof_of_exclusion(p[2]), "bad": lambda o: o.verify_proof_of_inclusion(p[3])}
        if kind == "root":
            q["encode"] = lambda o: o.encode_rlp()
            return q
        q.update({"has": lambda o: a in o, "hasnot": lambda o: no in o, "mkpoi": lambda o: o.get_proof_of_inclusion(b), "mkpoe": lambda o: o.get_proof_of_exclusion(no)})
        if kind == "mpt":
            q.update({"encode": lambda o: o.encode(), "get": lambda o: o.get(a), "none": lambda o: o.get(no), "node": lambda o: o.root(), "same": lambda o: (o == o, hash(o))})
        if kind in ("full", "sparse"):
            q.update({"ref": lambda o: o.get_reference(a), "ref2": lambda o: o.get_reference(b), "rootview": lambda o: o.get_root_trie().root_hash()})
        if kind == "sparse":
            q["encode"] = lambda o: o.encode_rlp()
        if kind == "full":
            q.update({"get": lambda o: o.get(a), "get2": lambda o: o[b], "none": lambda o: o.get(no), "len": lambda o: len(o), "items": lambda o: sorted(o.items()),
                      "sparse": lambda o: [o.get_sparse_trie().root_hash(), o.get_sparse_trie().get_reference(a)]})
        return q

    def changes(ci, secure, kind):
        t, ks, p = made(ci, secure)
        a, b, new = ks[0], ks[-1], ks[0] + b"\x07"
        c = {"add": lambda o: o.update(new, b"added" * 9), "over": lambda o: o.update(a, b"over" * 9), "del": lambda o: o.delete(a), "del2": lambda o: o.delete(b), "delno": lambda o: o.delete(new)}
        if kind == "full":
            c.update({"build": lambda o: o.build_trie(), "pop": lambda o: o.pop(b), "setdef": lambda o: o.setdefault(new, b"default" * 6), "clear": lambda o: o.clear()})
        return c

    def view(kind):
        def f(ci, o, q):
            return [tried(lambda g=q[n]: g(o)) for n in ("root", "get", "ref", "items", "has", "poi") if n in q]
        return f

    stored = {}

    def storages(ci, secure):
        if (ci, secure) not in stored:
            nodes, vals = {}, {}
            t = EMPT(nodes, vals, secure=secure)
            for k, v in data(ci).items():
                t[k] = v
            stored[ci, secure] = nodes, vals, t.root()
        return stored[ci, secure]

    def new(kind):
        def f(ci, secure):
            nodes, vals, root = storages(ci, secure)
            if kind == "full":
                return EMPT(dict(nodes), dict(vals), root, secure)
            if kind == "sparse":
                return SparseEMPT(dict(nodes), root, secure)
            if kind == "root":
                return RootEMPT(root, secure)
            return MPT(dict(nodes), root, secure)
        return f
    return {k: (new(k), lambda ci, s, k=k: questions(ci, s, k), (lambda ci, s, k=k: changes(ci, s, k)) if k != "root" else (lambda ci, s: {}), view(k)) for k in ("mpt", "full", "sparse", "root")}


def merkle_kinds():
    from pymt.merkletools import MerkleTools
    from pymt.mt import MerkleTree
    leaves = [[b"a%d" % i for i in range(n)] for n in (3, 5, 6)]

    def new(cls):
        def f(ci, secure):
            t = cls("sha256" if ci != 1 else "sha512", True) if cls is MerkleTools else cls(True, "sha256" if ci != 1 else "sha512")
            for x in leaves[ci % 3]:
                t.add_leaf(x)
            t.make_tree()
            return t
        return f

    def questions(cls):
        def f(ci, secure):
            t = new(cls)(ci, secure)
            ls = leaves[ci % 3]
            q = {"root": lambda o: o.get_merkle_root(), "poi": lambda o: o.get_proof_of_inclusion(ls[0]), "poi2": lambda o: o.get_proof_of_inclusion(ls[-1]), "none": lambda o: o.get_proof_of_inclusion(b"none"),
                 "leaf": lambda o: (o.get_leaf(1), o.get_leaf_count(), len(o), o.get_tree_ready_state()), "same": lambda o: (o == o, hash(o))}
            ps = [t.get_proof_of_inclusion(x) for x in (ls[0], ls[-1])]
            if cls is MerkleTree:
                from pymt.proof import Proof
                bad = Proof(target_key=b"none", root_hash=ps[0].trie_root, proof=ps[0].proof, proof_type=b"MT-POI")
                far = MerkleTree(True, "sha256" if ci != 1 else "sha512")
                far.put_list([ls[0], b"elsewhere"])
                far.make_tree()
                for n, p in (("v", ps[0]), ("v2", ps[1]), ("bad", bad), ("foreign", far.get_proof_of_inclusion(ls[0]))):
                    q[n] = lambda o, p=p: o.verify_proof_of_inclusion(p)
            else:
                for n, p, x in (("v", ps[0], ls[0]), ("v2", ps[1], ls[-1]), ("bad", ps[0], ls[1])):
                    q[n] = lambda o, p=p, x=x: o.verify_proof_of_inclusion(p, o.hash_function(x).digest(), bytes.fromhex(super(cls, o).get_merkle_root() if cls is MerkleTree else o.get_merkle_root()))
            return q
        return f

    def changes(cls):
        def f(ci, secure):
            c = {"add": lambda o: (o.add_leaf(b"new"), o.make_tree(), o.get_merkle_root()), "add2": lambda o: ([o.add_leaf(b"n%d" % i) for i in range(3)], o.make_tree(), o.get_merkle_root()),
                 "reset": lambda o: (o.reset_tree(), o.add_leaf(b"only"), o.make_tree(), o.get_merkle_root()), "make": lambda o: o.make_tree()}
            if cls is MerkleTree:
                c["list"] = lambda o: (o.put_list([b"p", b"q"]), o.get_merkle_root())
            return c
        return f

    def view(ci, o, q):
        return [tried(lambda g=g: g(o)) for g in q.values()] + [tried(o.get_merkle_root)]
    return {c.__name__: (new(c), questions(c), changes(c), view) for c in (MerkleTree, MerkleTools)}


def key_kinds():
    import copy
    from .c_crypto import pair
    out = {}
    other = pair("RsaKeyPair", "other")
    for name in ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"):
        def new(ci, secure, name=name):
            return copy.copy(pair(name, "key%d" % (ci % 3)))

        def questions(ci, secure, name=name):
            o = new(ci, secure, name)
            q = {"public": lambda o: o.public_key, "name": lambda o: o.nickname, "same": lambda o: (o == o, hash(o))}
            if name != "RsaEncKeyPair":
                s, s2 = o.sign(b"message"), other.sign(b"message")
                q.update({"sign": lambda o: o.sign(b"message"), "sign2": lambda o: o.sign(b"other"), "valid": lambda o: o.signature_valid(b"message", s), "invalid": lambda o: o.signature_valid(b"other", s),
                          "foreign": lambda o: o.signature_valid(b"message", s2, other.public_key), "foreign2": lambda o: o.signature_valid(b"message", s2)})
            if name != "RsaAuthKeyPair":
                m, m2 = other.encrypt(b"sealed", o.public_key), other.encrypt(b"second", o.public_key)
                mine = o.encrypt(b"out", other.public_key)
                q.update({"open": lambda o: o.decrypt(m, other.public_key), "open2": lambda o: o.decrypt(m2, other.public_key), "notmine": lambda o: o.decrypt(mine, o.public_key),
                          "seal": lambda o: other.decrypt(o.encrypt(b"one", other.public_key), o.public_key), "seal2": lambda o: other.decrypt(o.encrypt(b"two", other.public_key), o.public_key)})
            return q

        def changes(ci, secure, name=name):
            def rename(n):
                return lambda o: setattr(o, "nickname", n)
            return {"anna": rename("anna"), "bert": rename("bert")}
        out[name] = (new, questions, changes, lambda ci, o, q: [tried(lambda: o.nickname), tried(lambda: o.public_key)])
    return out


def plain_kinds():
    """Functions and values without an object of their own: paths, nodes, references, proofs, digests, password encryption."""
    from pymt.empt import DataReference
    from pymt.proof import Proof
    from pymt.utils.hash import keccak_hash, keccak_hash_list
    from pymt.utils.nibble_path import NibblePath
    from pymt.utils.node import Branch, Extension, Leaf, Node
    from pymt.utils.utils import Utils

    def path_ops(ci):
        x, y = [(b"\x12\x34\x56", b"\x12\x35"), (b"\x12\x3f", b"\xff\xee\xdd\xcc"), (b"\x00", b"\x01\x10")][ci % 3]
        def show(p):
            return [len(p)] + [p.at(i) for i in range(len(p))]
        leaf, ext = Leaf(NibblePath(x), b"data" * (ci + 1) * 3), Extension(NibblePath(y), keccak_hash(x))
        br = Branch([keccak_hash(y) if i % 5 == ci % 3 else b"" for i in range(16)], x)
        codes = [n.encode() for n in (leaf, ext, br)]
        d = DataReference(x, y)
        pr = Proof(target_key=x, root_hash=keccak_hash(y), proof=((b"left", codes[0]), (b"right", codes[1])), proof_type=b"MT-POI")
        prc, prj, dc = pr.encode_rlp(), Proof(target_key=b"k", root_hash=b"r%d" % ci, proof=((b"left", b"aa"), (b"right", b"bb")), proof_type=b"MT-POI").encode_json(), d.encode()
        enc = Utils.encrypt(x, "pw%d" % ci) if ci in _enc or _enc.setdefault(ci, None) is None else None

        def node(c):
            n = Node.decode(c)
            return [type(n).__name__, n.encode()] + (show(n.path) if hasattr(n, "path") else []) + [calm(getattr(n, "data", None)), calm(getattr(n, "next_ref", None)), calm([b for b in getattr(n, "branches", [])])]
        return {"consume": lambda o: show(NibblePath(x).consume(1)), "common": lambda o: show(NibblePath(x).common_prefix(NibblePath(y))), "combine": lambda o: show(NibblePath(x, 1).combine(NibblePath(y, 1))),
                "pencode": lambda o: [NibblePath(x, 1).encode(True), NibblePath(y).encode(False)], "pdecode": lambda o: [(show(p), b) for p, b in [NibblePath.decode_with_type(NibblePath(x, 1).encode(True))]],
                "starts": lambda o: NibblePath(x).starts_with(NibblePath(y)), "leaf": lambda o: node(codes[0]), "ext": lambda o: node(codes[1]), "branch": lambda o: node(codes[2]),
                "into": lambda o: [Node.into_reference(leaf), Node.into_reference(br)], "keccak": lambda o: [keccak_hash(x), keccak_hash(y, True)], "list": lambda o: [keccak_hash_list([x, y]), keccak_hash_list([y, x], True)],
                "sha": lambda o: [Utils.sha256(x), Utils.sha512(y), Utils.hash_data(x)], "ref": lambda o: DataReference.decode(dc), "refhash": lambda o: [hash(DataReference(x, y)), DataReference(x, y).encode()],
                "proof": lambda o: Proof.decode_rlp(prc), "pjson": lambda o: Proof.decode_json(prj), "prlp": lambda o: [pr.encode_rlp(), hash(pr)],
                "crypt": lambda o: Utils.decrypt(enc, "pw%d" % ci), "crypt2": lambda o: Utils.decrypt(Utils.encrypt(y, "p"), "p"), "crypt3": lambda o: Utils.decrypt(enc, "wrong")}
    _enc = {}
    return {"values": (lambda ci, s: None, lambda ci, s: path_ops(ci), lambda ci, s: {}, lambda ci, o, q: [])}


def c32_kinds():
    return {**trie_kinds(), **merkle_kinds(), **key_kinds(), **plain_kinds()}


def c32_run(ctx, label, make, fns, view, bound=1, fine=False):
    """Every schedule of the operations; make() gives the objects (one or one per thread), fns take them."""
    want, counts = [], []
    for i, f in enumerate(fns):
        objs = make()
        run = Run([lambda: calm(f(objs[i]))], [], True, fine)
        run.run()
        want.append(run.results[0])
        counts.append(run.count[0] + 1)
        objs2 = make()
        if objs2[0] is not objs2[-1]:
            tried(lambda: f(objs2[i]))
    objs = make()
    for i, f in enumerate(fns):
        tried(lambda: f(objs[i]))
    after = view(objs)
    for segs in schedules(counts, bound):
        objs = make()
        run = Run([lambda i=i, f=f: calm(f(objs[i])) for i, f in enumerate(fns)], segs, True, fine)
        res = run.run()
        ctx.count("states")
        ctx.count("schedules")
        ctx.count("transitions", sum(run.count))
        if run.free:
            ctx.count("blocked")
            if ctx.stats["blocked"] > 40:
                return
        for i, (x, y) in enumerate(zip(res, want)):
            if x != y:
                ctx.report("%s: thread %d got %.300r, alone it gets %.300r\nschedule (thread, steps): %r" % (label, i, x, y, segs))
                return
        if view(objs) != after:
            ctx.report("%s: afterwards the objects show something else than after running one operation after the other\nschedule (thread, steps): %r" % (label, segs))
            return
        ctx.count("traces_validated_against_impl")


CORE = {"full": ["get", "ref", "none", "has", "mkpoi", "mkpoe", "poi", "poe", "items", "sparse"], "sparse": ["ref", "ref2", "mkpoi", "poe", "encode"],
        "mpt": ["encode", "mkpoi", "node", "same"], "root": ["poi", "poe", "bad"]}


def c32_shared(ctx, kind, ci, secure, part, parts, fine=False):
    """Two threads with questions on one object."""
    new, questions, changes, view = c32_kinds()[kind]
    q = questions(ci, secure)
    core = CORE.get(kind, q) if QUICK else q
    pairs = list(itertools.combinations_with_replacement(core, 2))
    for n, (a, b) in enumerate(pairs):
        if n % parts != part:
            continue

        def make():
            o = new(ci, secure)
            return [o, o]
        c32_run(ctx, "%s of content %d, secure=%r, questions %s and %s on one object" % (kind, ci, secure, a, b), make, [q[a], q[b]], lambda objs: view(ci, objs[0], q), fine=fine)
    ctx.sample("%s: pairs of %s" % (kind, ", ".join(q)))


def c32_separate(ctx, kind, ci, cj, secure, part, parts, fine=False):
    """Two threads, each with an object of its own, at least one of which changes it."""
    new, questions, changes, view = c32_kinds()[kind]
    qa, qb = questions(ci, secure), questions(cj, secure)
    ca, cb = changes(ci, secure), changes(cj, secure)
    few = ["root", "get", "ref", "mkpoi", "mkpoe", "poi", "poe", "v", "items", "sign", "open"]
    pairs = [(x, y) for x in ca for y in list(cb) + [k for k in qb if k in few]] if ca else list(itertools.product(qa, qb))
    if QUICK and kind in CORE:
        partners = ["over", "del", "mkpoi"]
        pairs = [(x, y) for i, x in enumerate(ca) for y in ([partners[i % 3], partners[(i + 1) % 3]] if kind == "full" else partners[:2] if kind == "mpt" else ["over", "mkpoi"])]
    fa, fb = {**qa, **ca}, {**qb, **cb}
    for n, (a, b) in enumerate(pairs):
        if n % parts != part:
            continue

        def make():
            return [new(ci, secure), new(cj, secure)]
        c32_run(ctx, "%s, secure=%r, %s on an object of content %d and %s on another of content %d" % (kind, secure, a, ci, b, cj), make, [fa[a], fb[b]],
                lambda objs: view(ci, objs[0], qa) + view(cj, objs[1], qb), fine=fine)
    ctx.sample("%s: %s against %s" % (kind, ", ".join(fa), ", ".join(fb)))


def c32_tasks(tier):
    th = tier == "thorough"
    out = []
    for kind, parts in (("full", 16), ("sparse", 6), ("mpt", 6), ("root", 2)):
        for ci, secure in (((2, False),) if kind in ("full", "mpt") else ((2, True),)) if not th else [(c, s) for c in (2, 3, 4, 5, 7) for s in (False, True)]:
            out += [("c32_shared", dict(kind=kind, ci=ci, secure=secure, part=p, parts=parts)) for p in range(parts)]
            if kind != "root":
                out += [("c32_separate", dict(kind=kind, ci=ci, cj=3, secure=secure, part=p, parts=parts)) for p in range(parts)]
    for kind in ("MerkleTree", "MerkleTools"):
        for ci in (0, 1):
            out += [("c32_shared", dict(kind=kind, ci=ci, secure=True, part=p, parts=2)) for p in range(2)]
            out += [("c32_separate", dict(kind=kind, ci=ci, cj=2, secure=True, part=p, parts=2)) for p in range(2)]
    for kind in ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"):
        out += [("c32_shared", dict(kind=kind, ci=0, secure=False, part=p, parts=4)) for p in range(4)]
        out += [("c32_separate", dict(kind=kind, ci=0, cj=1, secure=False, part=p, parts=2)) for p in range(2)]
    out += [("c32_separate", dict(kind="values", ci=0, cj=1, secure=False, part=p, parts=12)) for p in range(12)]
    if th:
        out += [(f, dict(p, fine=True)) for f, p in out]
    return out
