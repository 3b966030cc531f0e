"""C07 snapshots, C08 trie codec, C09 storage faults, C10 secure mode."""
import copy
import itertools
from . import fam, ref
from .c_dict import lookup_errors, reflective, show, run_history, check_root, DFS_KEYS, absent_line
from .fam import attempt, bs
from .c_proofs import accepts

V2 = [b"v", b"W" * 33]


# ---------------------------------------------------------------- C07
def opened(storage, root, secure):
    from pymt.mpt import MPT
    return MPT(storage, root, secure)


def check_snapshot(ctx, storage, form, root, m, keys, hist, secure=False, key=None, proofs=True):
    """A trie opened on the storage with this root shows exactly the contents m."""
    ctx.count("snapshots_checked")

    def bad(what):
        nonlocal key
        ctx.report("a trie opened with an earlier root (%s %r) %s\nroot of %r; storage after %s" % (form, root, what, m, show(hist)),
                   key=key, script=["from pymt.mpt import MPT", "storage = {}", "t = MPT(storage, secure=%r)" % secure] +
                   ["t.update(%r, %r)" % o[1:] if o[0] == "u" else "t.delete(%r)" % o[1] for o in hist] +
                   ["s = MPT(storage, %r, %r)" % (root, secure),
                    "assert s.root_hash().hex() == %r" % ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m.items()}).hex(),
                    "for k, v in %r.items(): assert s.get(k) == v" % (m,),
                    "for k in %r:\n    try: got = s.get(k)\n    except Exception: continue\n    raise AssertionError((k, got))" % (
                        [k for k in keys if k not in m],)])

    r = attempt(opened, storage, root, secure)
    if r[0] != "ok":
        return bad("cannot be opened: " + r[1])
    s = r[1]
    want = ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m.items()})
    got = attempt(s.root_hash)
    if got != ("ok", want):
        if key and got != ("ok", root):
            key = None     # the known finding is that the 32-byte node itself is taken for the root hash
        return bad("has another root hash")
    key = None
    e = lookup_errors(s, m, keys, dunder=False)
    if e:
        return bad("answers " + e[0])
    if proofs and m:
        k = next(iter(m))
        a = next((x for x in keys if x not in m), b"\x99\x98")
        r = attempt(s.get_proof_of_inclusion, k)
        if r[0] != "ok" or not accepts(s, r[1]):
            return bad("gives no valid inclusion proof for %r" % k)
        r = attempt(s.get_proof_of_exclusion, a)
        if r[0] != "ok" or not accepts(s, r[1], True):
            return bad("gives no valid exclusion proof for %r" % a)
    return True


def snapshot_forms(t, m, secure):
    """The forms in which the current root can be kept: (name, value, known-finding key)."""
    rt = ref.trie({(ref.keccak(k) if secure else k): v for k, v in m.items()})
    out = [("root()", t.root(), None), ("root_hash()", t.root_hash(), None)] if len(rt.root_node) >= 32 or not m else \
        [("root()", t.root(), None)]
    if m:
        out.append(("encoded root node", rt.root_node, "encoded-root-of-32-bytes" if len(rt.root_node) == 32 else None))
    return out


def c07_families(ctx, fam_name, part, parts, secure=False):
    """Along every history of the family, every root is kept and opened again at the end."""
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        ctx.count("states")
        for hist in hists:
            snaps = []
            storage = {}
            t = fam.new_trie(secure, storage)
            m = {}
            ok = True
            for i, op in enumerate(hist):
                r = attempt(fam.apply, t, op)
                ctx.count("transitions")
                if r[0] != "ok":
                    ctx.report("%s raised %s\nafter %s" % (show([op]), r[1], show(hist[:i])), fam.script(hist[:i + 1], [], secure))
                    ok = False
                    break
                m = dict(m)
                if op[0] == "u":
                    m[op[1]] = op[2]
                else:
                    del m[op[1]]
                if len(hist) < 20 or i % 5 == 0:
                    snaps.append((m, snapshot_forms(t, m, secure)))
            if not ok:
                continue
            ctx.count("traces_validated_against_impl")
            for n, (m, forms) in enumerate(snaps):
                keys = list(m)[:5] + [k for k in universe if k not in m][:2] + [k for k in pairs if k not in m][:2]
                for form, root, key in (forms if len(snaps) < 6 or n % 3 == 0 else forms[:1]):
                    check_snapshot(ctx, storage, form, root, m, keys, hist, secure, key, proofs=n % 2 == 0)
        ctx.sample(show(hists[-1]))


def c07_dfs(ctx, keys, values, depth, first):
    """Every operation sequence; at the end every root on the way is opened again (after failed operations too)."""
    ops = [("u", k, v) for k in keys for v in values] + [("d", k) for k in keys]

    def visit(storage, t, m, hist, snaps):
        ctx.count("states")
        if len(hist) == depth:
            ctx.count("traces_validated_against_impl")
            for sm, forms in snaps:
                for form, root, key in forms:
                    check_snapshot(ctx, storage, form, root, sm, keys, hist, False, key, proofs=False)
            return
        for op in ops:
            if op[0] == "d" and op[1] not in m:
                continue
            st2 = dict(storage)
            t2 = opened(st2, t.root(), False)
            fam.apply(t2, op)
            ctx.count("transitions")
            m2 = dict(m)
            if op[0] == "u":
                m2[op[1]] = op[2]
            else:
                del m2[op[1]]
            visit(st2, t2, m2, hist + [op], snaps + [(m2, snapshot_forms(t2, m2, False))])

    storage = {}
    t = fam.new_trie(False, storage)
    snaps, m, hist = [({}, snapshot_forms(t, {}, False))], {}, []
    for i in first:
        op = ops[i]
        if op[0] == "d" and op[1] not in m:
            return
        fam.apply(t, op)
        hist.append(op)
        m = fam.model(hist)
        snaps.append((m, snapshot_forms(t, m, False)))
    visit(storage, t, m, hist, snaps)


def c07_two(ctx, keys, value, depth, first):
    """Two live tries on one storage, the second opened at any root seen so far; every interleaving of operations."""
    base = [("u", k, value) for k in keys] + [("d", k) for k in keys]

    def run(script):
        storage = {}
        tries, models, snaps = [fam.new_trie(False, storage)], [{}], [({}, [("root()", ref.EMPTY_ROOT, None)])]
        for step in script:
            if step[0] == "open":
                m, forms = snaps[step[1]]
                tries.append(opened(storage, forms[0][1], False))
                models.append(dict(m))
                continue
            i, op = step
            fam.apply(tries[i], op)
            if op[0] == "u":
                models[i] = models[i] | {op[1]: op[2]}
            else:
                models[i] = {k: v for k, v in models[i].items() if k != op[1]}
            snaps.append((models[i], snapshot_forms(tries[i], models[i], False)))
        return storage, tries, models, snaps

    def choices(models, snaps):
        out = []
        if len(models) == 1:
            out += [("open", n) for n in range(len(snaps))]
        for i, m in enumerate(models):
            out += [(i, op) for op in base if op[0] == "u" or op[1] in m]
        return out

    def visit(script):
        storage, tries, models, snaps = run(script)
        ctx.count("states")
        ctx.count("transitions")
        hist = ["%r" % (s,) for s in script]
        for t, m in zip(tries, models):
            e = lookup_errors(t, m, keys, dunder=False)
            if e or t.root_hash() != ref.root_hash(m):
                ctx.report("two tries on one storage: a trie that should hold %r answers %s\nsteps %s" % (m, e and e[0], hist))
                return
        if len(script) == depth:
            ctx.count("traces_validated_against_impl")
            for m, forms in snaps:
                for form, root, key in forms:
                    ctx.count("snapshots_checked")
                    s = opened(storage, root, False)
                    e = lookup_errors(s, m, keys, dunder=False)
                    if e or s.root_hash() != ref.root_hash(m):
                        if s.root_hash() != root:
                            key = None
                        ctx.report("two tries on one storage: the %s %r kept earlier no longer shows %r: %s\nsteps %s" % (
                            form, root, m, e and e[0], hist), key=key)
                        return
            return
        for c in choices(models, snaps):
            visit(script + [c])

    # `first` numbers the first two choices
    script = []
    for f in first:
        storage, tries, models, snaps = run(script)
        cs = choices(models, snaps)
        if f >= len(cs):
            return
        script.append(cs[f])
    visit(script)


def c07_empt(ctx, fam_name, part, parts):
    """Roots of full tries, opened again as full and sparse tries on the same node storage."""
    from pymt.empt import EMPT, SparseEMPT
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        hist = hists[-1]
        ts, ds = {}, {}
        t = EMPT(ts, ds)
        m, snaps = {}, []
        for op in hist:
            fam.apply(t, op)
            ctx.count("transitions")
            m = m | {op[1]: op[2]} if op[0] == "u" else {k: v for k, v in m.items() if k != op[1]}
            snaps.append((m, t.root(), t.root_hash()))
        ctx.count("states")
        ctx.count("traces_validated_against_impl")
        for m, root, h in snaps[-8:]:
            ctx.count("snapshots_checked")
            for v in (EMPT(ts, {}, root=root if root is not None else ref.EMPTY_ROOT), SparseEMPT(ts, root)):
                bad = v.root_hash() != h
                for k in list(m)[:6]:
                    r = attempt(v.get_reference, k)
                    bad = bad or r[0] != "ok" or r[1].data != m[k] or not v.contains(k)
                for k in [k for k in universe if k not in m][:6]:
                    bad = bad or v.contains(k)
                if bad:
                    ctx.report("%s opened with an earlier root no longer shows %r\nafter %s" % (type(v).__name__, m, show(hist)))


def c07_tasks(tier):
    th = tier == "thorough"
    fams = [("tern2", 6), ("tern3s", 2), ("chain", 6), ("chain2", 3), ("twins", 2), ("words", 3), ("wide", 3), ("nib", 1), ("long_s", 1),
            ("values", 2), ("big", 6), ("huge", 2)]
    if th:
        fams += [("tern3", 8), ("tern4", 8), ("tern3d", 8), ("long", 4)]
    out = [("c07_families", dict(fam_name=f, part=p, parts=n)) for f, n in fams for p in range(n)]
    out += [("c07_families", dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in (("chain_s", 1), ("words_s", 1)) for p in range(n)]
    for name in ("chain4", "twin4") if not th else ("chain4", "twin4", "deep4", "fan5"):
        keys = DFS_KEYS[name]
        vals = [b"W" * 33] if not th else V2
        n = len(keys) * len(vals)
        out += [("c07_dfs", dict(keys=keys, values=vals, depth=5, first=(i, j))) for i in range(n) for j in range(n + len(keys))]
    for keys, v in ((bs("12", "1234", "1235"), b"W" * 33), (bs("0000", "0001", "1001"), b"s" * 40)):
        out += [("c07_two", dict(keys=keys, value=v, depth=5 if th else 4, first=(i, j))) for i in range(4) for j in range(12)]
    out += [("c07_empt", dict(fam_name=f, part=0, parts=1)) for f in ("chain_s", "twins", "words_s")]
    return out


# ---------------------------------------------------------------- C08
def same_proof(p, q):
    return p.proof == q.proof and p.target_key == q.target_key and p.type == q.type and \
        ref.norm_root(p.trie_root) == ref.norm_root(q.trie_root)


def c08_contents(ctx, fam_name, part, parts, secure=False):
    from pymt.mpt import MPT
    from pymt.empt import SparseEMPT, RootEMPT
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        ctx.count("states")
        for hi, hist in enumerate(hists):
            if hi > 2:
                break
            t = run_history(ctx, hist, secure)
            if t is None:
                continue
            probes = list(dict.fromkeys(list(pairs)[:16] + universe[:6] + fam.near(list(pairs)[:3])[:12]))

            def bad(what, tail):
                ctx.report("%s\nafter %s" % (what, show(hist)), fam.script(hist, tail, secure))

            r = attempt(t.encode)
            if r[0] != "ok":
                bad("encode raised " + r[1], ["t.encode()"])
                continue
            enc = r[1]
            r = attempt(MPT.decode, enc)
            if r[0] != "ok":
                bad("decode(encode()) raised " + r[1], ["MPT.decode(t.encode())"])
                continue
            d = r[1]
            ctx.count("transitions", 2)
            if d.root_hash() != t.root_hash() or d.secure != t.secure or d.secure is not secure:
                bad("the decoded trie has another root hash or mode", ["d = MPT.decode(t.encode())", "assert d.root_hash() == t.root_hash() and d.secure == t.secure == %r" % secure])
                continue
            e = lookup_errors(d, pairs, probes, dunder=False)
            if e:
                bad("the decoded trie: " + e[0], ["t = MPT.decode(t.encode())", e[1]])
                continue
            r = attempt(d.encode)
            if r[0] != "ok" or attempt(MPT.decode, r[1])[0] != "ok" or MPT.decode(r[1]).root_hash() != t.root_hash():
                bad("the decoded trie does not survive another round", ["d = MPT.decode(t.encode())", "assert MPT.decode(d.encode()).root_hash() == t.root_hash()"])
            if pairs:
                for k in probes[:10]:
                    poe = k not in pairs
                    m = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
                    r1, r2 = attempt(getattr(t, m), k), attempt(getattr(d, m), k)
                    if r1[0] != "ok" or r2[0] != "ok" or not same_proof(r1[1], r2[1]) or not accepts(d, r1[1], poe) or not accepts(t, r2[1], poe):
                        bad("original and decoded trie give different proofs for %r: %r %r" % (k, r1, r2),
                            ["d = MPT.decode(t.encode())", "a, b = t.%s(%r), d.%s(%r)" % (m, k, m, k), "assert a.proof == b.proof",
                             "assert t.%s(b) and d.%s(a)" % (m.replace("get", "verify"), m.replace("get", "verify"))])
                        break
            # continuations of length two in lockstep with the model, on both, from the same encoding
            if hi > 1:
                continue
            first = (attempt(d.encode), attempt(len, d))
            conts = [("u", k, b"c" * n) for k in (list(pairs)[:2] + universe[-2:] + [b"\x31\x41", b""]) for n in (1, 40)] + \
                [("d", k) for k in list(pairs)[:4]]
            for o1 in conts:
                m1 = pairs | {o1[1]: o1[2]} if o1[0] == "u" else {k: v for k, v in pairs.items() if k != o1[1]}
                d1 = MPT.decode(enc)
                r = attempt(fam.apply, d1, o1)
                ctx.count("transitions")
                want = ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m1.items()})
                if r[0] != "ok" or d1.root_hash() != want:
                    bad("%s on the decoded trie: %r, root differs from the specification" % (show([o1]), r),
                        ["d = MPT.decode(t.encode())"] + ["%s.update(%r, %r)" % ((x,) + o1[1:]) if o1[0] == "u" else "%s.delete(%r)" % (x, o1[1])
                                                          for x in ("t", "d")] + ["assert t.root_hash() == d.root_hash()"])
                    continue
                if len(pairs) > 20:
                    continue
                for o2 in [("d", k) for k in m1][:5] + [("u", b"\x31\x42", b"e" * 3)]:
                    m2 = m1 | {o2[1]: o2[2]} if o2[0] == "u" else {k: v for k, v in m1.items() if k != o2[1]}
                    d2 = fam.fork(d1, hist)
                    r = attempt(fam.apply, d2, o2)
                    ctx.count("transitions")
                    if r[0] != "ok" or d2.root_hash() != ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m2.items()}) \
                            or lookup_errors(d2, m2, list(m2)[:6], False):
                        bad("%s on the decoded trie goes wrong: %r" % (show([o1, o2]), r),
                            ["d = MPT.decode(t.encode())"] + ["%s.update(%r, %r)" % ((x,) + o[1:]) if o[0] == "u" else "%s.delete(%r)" % (x, o[1])
                                                              for o in (o1, o2) for x in ("t", "d")] + ["assert t.root_hash() == d.root_hash()"])
                        break
            # independence: the original still shows the old contents, and changes to it do not reach a decoded trie
            if (attempt(d.encode), attempt(len, d)) != first:
                bad("changing tries decoded from the same bytes changed the encoding of the first one", ["e = t.encode()", "a, b = MPT.decode(e), MPT.decode(e)", "x = a.encode()", "b.update(b'1A', b'c' * 40)", "assert a.encode() == x"])
            e = lookup_errors(t, pairs, probes[:8], False)
            if e:
                bad("changing decoded tries changed the original: " + e[0], ["d = MPT.decode(t.encode())", "d.update(b'1A', b'c')", e[1]])
            t2 = fam.fork(t, hist, secure)
            t2.update(b"\x31\x43", b"f" * 40)
            e = lookup_errors(d, pairs, probes[:8], False)
            if e or d.root_hash() != t.root_hash():
                bad("changing the original changed the decoded trie", ["d = MPT.decode(t.encode())", "r = d.root_hash()", "t.update(b'1C', b'f' * 40)", "assert d.root_hash() == r"])
            # root-only view
            rv = RootEMPT(t.root(), secure)
            r = attempt(lambda: RootEMPT.decode_rlp(rv.encode_rlp()))
            if r[0] != "ok" or r[1].root_hash() != t.root_hash() or r[1].secure is not secure:
                bad("the encoded root-only view does not decode to the same root hash and mode: %r" % (r,),
                    ["from pymt.empt import RootEMPT", "v = RootEMPT(t.root(), %r)" % secure, "d = RootEMPT.decode_rlp(v.encode_rlp())",
                     "assert d.root_hash() == t.root_hash() and d.secure is %r" % secure])
            elif pairs:
                for k in probes[:6]:
                    poe = k not in pairs
                    p = (t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion)(k)
                    if not accepts(r[1], p, poe):
                        bad("the decoded root-only view rejects the proof for %r" % k, ["from pymt.empt import RootEMPT",
                            "d = RootEMPT.decode_rlp(RootEMPT(t.root(), %r).encode_rlp())" % secure,
                            "assert d.verify_proof_of_%sclusion(t.get_proof_of_%sclusion(%r))" % (("ex", "ex", k) if poe else ("in", "in", k))])
                        break
        ctx.sample(show(hists[-1]))


def c08_sparse(ctx, fam_name, part, parts, secure=False):
    """The sparse view: encode, decode, lockstep."""
    from pymt.empt import EMPT, SparseEMPT
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        ctx.count("states")
        hist = hists[-1]
        full = EMPT(secure=secure)
        sp0 = SparseEMPT(secure=secure)
        for op in hist:
            fam.apply(full, op)
            fam.apply(sp0, op)
            ctx.count("transitions", 2)
        ctx.count("traces_validated_against_impl", 2)
        for name, s in (("view of a full trie", full.get_sparse_trie()), ("sparse trie", sp0)):
            head = ["from pymt.empt import EMPT, SparseEMPT", "s = SparseEMPT(secure=%r)" % secure] + \
                ["s.update(%r, %r)" % o[1:] if o[0] == "u" else "s.delete(%r)" % o[1] for o in hist] + ["d = SparseEMPT.decode_rlp(s.encode_rlp())"]
            r = attempt(lambda: SparseEMPT.decode_rlp(s.encode_rlp()))
            if r[0] != "ok" or r[1].root_hash() != s.root_hash():
                ctx.report("encoding and decoding the %s: %r\nafter %s" % (name, r, show(hist)), head + ["assert d.root_hash() == s.root_hash()"])
                continue
            d = r[1]
            probes = list(dict.fromkeys(list(pairs)[:8] + universe[:6]))

            def known(x, k):
                r = attempt(x.get_reference, k)
                return (x.contains(k), (r[1].key, r[1].data) if r[0] == "ok" else None)

            for k in probes:
                want = (True, (k, pairs[k])) if k in pairs else (False, None)
                if known(d, k) != want:
                    ctx.report("decoded %s: key %r gives %r, expected %r\nafter %s" % (name, k, known(d, k), want, show(hist)),
                               head + ["assert d.contains(%r) is %r" % (k, k in pairs)])
                if pairs:
                    poe = k not in pairs
                    m = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
                    p, q = attempt(getattr(s, m), k), attempt(getattr(d, m), k)
                    if p[0] != "ok" or q[0] != "ok" or not same_proof(p[1], q[1]) or not accepts(full, q[1], poe) or not accepts(d, p[1], poe):
                        ctx.report("decoded %s: proofs for %r differ\nafter %s" % (name, k, show(hist)), head + [
                            "assert s.%s(%r).proof == d.%s(%r).proof" % (m, k, m, k)])
            first = attempt(d.encode_rlp)
            modes = attempt(lambda: d.get_root_trie().secure)
            if modes != ("ok", secure):
                ctx.report("decoded %s: mode %r, expected secure=%r\nafter %s" % (name, modes, secure, show(hist)), head + ["assert d.get_root_trie().secure is %r" % secure])
            for op in [("u", b"\x31\x41", b"c" * 40), ("u", (list(pairs) or [b"x"])[0], b"d")] + [("d", k) for k in list(pairs)[:3]]:
                a, b = EMPT(secure=secure), SparseEMPT.decode_rlp(s.encode_rlp())
                for o in hist:
                    fam.apply(a, o)
                fam.apply(a, op)
                ra = attempt(fam.apply, b, op)
                ctx.count("transitions", 2)
                if ra[0] != "ok" or a.root_hash() != b.root_hash():
                    ctx.report("decoded %s: %s gives another root than on the full trie\nafter %s" % (name, show([op]), show(hist)))
            if attempt(d.encode_rlp) != first:
                ctx.report("decoded %s: asking it, or changing tries decoded from the same bytes, changed its encoding\nafter %s" % (name, show(hist)), head + ["x = d.encode_rlp()", "e = SparseEMPT.decode_rlp(s.encode_rlp())", "e.update(b'1A', b'c' * 40)", "assert d.encode_rlp() == x"])


def c08_warm(ctx, kind, depth, first, secure=False):
    """Every sequence of operations on one live object, with every choice of moments at which it is encoded."""
    from pymt.mpt import MPT
    from pymt.empt import EMPT, SparseEMPT, DataReference
    keys, values = [b"\x12", b"\x12\x34", b"\x53"], [b"v", b"W" * 33]
    ops = [("u", k, v) for k in keys for v in values] + [("d", k) for k in keys]

    def fresh():
        return {"plain": lambda: MPT({}, secure=secure), "sparse": lambda: SparseEMPT(secure=secure)}[kind]()

    def enc(t):
        return t.encode() if kind == "plain" else t.encode_rlp()

    def dec(e):
        return MPT.decode(e) if kind == "plain" else SparseEMPT.decode_rlp(e)

    def stored(k, v):
        return v if kind == "plain" else DataReference(k, v).encode()

    for seq in itertools.product(ops, repeat=depth):
        if seq[0] != ops[first]:
            continue
        models, m, ok = [{}], {}, True
        for o in seq:
            if o[0] == "d":
                if o[1] not in m:
                    ok = False
                    break
                m = {k: v for k, v in m.items() if k != o[1]}
            else:
                m = dict(m)
                m[o[1]] = o[2]
            models.append(m)
        if not ok:
            continue
        ctx.count("states")
        for mask in range(1 << depth):       # bit i: encode after i operations; always encoded at the end
            t = fresh()
            for i, o in enumerate(seq + (None,)):
                if i == depth or mask >> i & 1:
                    e = attempt(enc, t)
                    ctx.count("transitions")
                    want = ref.root_hash({(ref.keccak(k) if secure else k): stored(k, v) for k, v in models[i].items()})
                    d = attempt(dec, e[1]) if e[0] == "ok" else e
                    good = d[0] == "ok" and attempt(d[1].root_hash) == ("ok", want)
                    if good and i == depth and mask in (0, (1 << depth) - 1):
                        for k in keys:
                            r = attempt(d[1].get if kind == "plain" else d[1].get_reference, k)
                            if kind != "plain" and r[0] == "ok":
                                r = ("ok", r[1].data)
                            good = good and (r == ("ok", models[i][k]) if k in models[i] else r[0] != "ok") \
                                and attempt(d[1].contains, k) == ("ok", k in models[i])
                    if not good:
                        script = ["from pymt.mpt import MPT", "from pymt.empt import SparseEMPT", "t = %s" % ("MPT({}, secure=%r)" % secure if kind == "plain" else "SparseEMPT(secure=%r)" % secure)]
                        for j, x in enumerate(seq[:i] + (None,)):
                            if j < i and mask >> j & 1:
                                script.append("t.encode()" if kind == "plain" else "t.encode_rlp()")
                            if x:
                                script.append("t.update(%r, %r)" % x[1:] if x[0] == "u" else "t.delete(%r)" % x[1])
                        script += ["d = MPT.decode(t.encode())" if kind == "plain" else "d = SparseEMPT.decode_rlp(t.encode_rlp())",
                                   "assert d.root_hash() == t.root_hash()"] + ["assert d.contains(%r) is %r" % (k, k in models[i]) for k in keys]
                        ctx.report("a trie encoded after %r operations of %s%s does not decode to its contents: %r" % (
                            [j for j in range(i) if mask >> j & 1] + [i], show(seq), " (secure)" if secure else "", d), script)
                if o:
                    fam.apply(t, o)
                    ctx.count("transitions")
            ctx.count("traces_validated_against_impl")


def c08_tasks(tier):
    th = tier == "thorough"
    fams = [("tern2", 6), ("tern3m", 4), ("tern3n", 3), ("chain_s", 6), ("twins", 4), ("words_s", 3), ("wide_s", 2), ("nib", 2), ("long_s", 2), ("values_s", 4), ("big_s", 1), ("huge", 2)]
    sec = [("chain_s", 2), ("words_s", 2), ("big_s", 1)]
    if th:
        fams += [("tern3s", 8), ("tern4", 16), ("long", 4), ("values", 8), ("wide", 4), ("big", 6), ("chain2", 6), ("chain", 8)]
        sec += [("tern3s", 8), ("twins", 2)]
    out = [("c08_contents", dict(fam_name=f, part=p, parts=n)) for f, n in fams for p in range(n)]
    out += [("c08_contents", dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in sec for p in range(n)]
    out += [("c08_sparse", dict(fam_name=f, part=p, parts=n, secure=s)) for f, n in (("chain_s", 1), ("words_s", 1), ("twins", 1), ("big_s", 1))
            for p in range(n) for s in (False, True)]
    out += [("c08_warm", dict(kind=k, depth=4 if th else 3, first=i, secure=s)) for k in ("plain", "sparse") for i in range(6) for s in (False, True)]
    return out


# ---------------------------------------------------------------- C09
class Down(OSError):
    pass


class Gone(KeyError):
    pass


class FaultyStorage(dict):
    """A node storage whose n-th access raises (before or, for writes, after its effect)."""
    left = None
    after = False
    err = Down
    hits = 0

    def __deepcopy__(self, memo):
        new = FaultyStorage()
        dict.update(new, self)
        return new

    def _tick(self):
        self.hits += 1
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                return True
        return False

    def __getitem__(self, k):
        if self._tick():
            raise self.err("storage")
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        bad = self._tick()
        if bad and not self.after:
            raise self.err("storage")
        dict.__setitem__(self, k, v)
        if bad:
            raise self.err("storage")

    def __delitem__(self, k):
        bad = self._tick()
        if bad and not self.after:
            raise self.err("storage")
        dict.__delitem__(self, k)
        if bad:
            raise self.err("storage")

    def _plain(name):
        def f(self, *a):
            if self._tick():
                raise self.err("storage")
            return getattr(dict, name)(self, *a)
        return f

    for _n in ("__contains__", "get", "keys", "values", "items", "pop", "setdefault", "update", "__iter__", "__len__"):
        locals()[_n] = _plain(_n)
    del _n


FAULT_SCRIPT = """class Faulty(dict):
    left = None; after = %r
    def tick(self):
        if self.left is not None:
            self.left -= 1
            return self.left == 0
    def __getitem__(self, k):
        if self.tick(): raise %s('storage')
        return dict.__getitem__(self, k)
    def __setitem__(self, k, v):
        bad = self.tick()
        if not (bad and not self.after): dict.__setitem__(self, k, v)
        if bad: raise %s('storage')"""


def c09_faults(ctx, fam_name, part, parts, secure=False, double=False):
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        if len(pairs) > 20:
            continue
        ctx.count("states")
        hist = hists[0]
        base_st = FaultyStorage()
        base = (base_st, fam.build(hist, secure, base_st))

        def fresh():
            try:
                return copy.deepcopy(base)
            except Exception:
                st = FaultyStorage()
                return st, fam.build(hist, secure, st)

        ops = [("d", k) for k in pairs] + [("u", k, b"other" * 8) for k in list(pairs)[:3]] + \
              [("u", k, b"n" * 40) for k in [x for x in universe if x not in pairs][:3]] + [("u", b"\x77\x77", b"n"), ("u", b"", b"e" * 33)]
        probes = list(pairs)[:6] + [k for k in universe if k not in pairs][:3]
        want0 = ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in pairs.items()})
        for op in dict.fromkeys(ops):
            m2 = pairs | {op[1]: op[2]} if op[0] == "u" else {k: v for k, v in pairs.items() if k != op[1]}
            want2 = ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m2.items()})
            n = 0
            while True:
                n += 1
                done = False
                for after in (False, True):
                    for err in (Down, Gone):
                        if (after or len(pairs) % 2) and err is Gone:
                            continue
                        st, t = fresh()
                        st.left, st.after, st.err = n, after, err
                        r = attempt(fam.apply, t, op)
                        armed = st.left
                        st.left = None
                        ctx.count("transitions")
                        ctx.count("evaluations")
                        if armed is not None and armed > 0:
                            if r[0] != "ok" or t.root_hash() != want2:
                                ctx.report("%s without a fault: %r\nafter %s" % (show([op]), r, show(hist)), fam.script(hist + [op], [], secure))
                            done = True
                            break
                        ctx.count("distinct_nontrivial")

                        def bad(what):
                            ctx.report("storage access %d of %s fails%s (%s): %s\nafter %s" % (
                                n, show([op]), " after its effect" if after else "", err.__name__, what, show(hist)),
                                [FAULT_SCRIPT % (after, err.__base__.__name__, err.__base__.__name__), "from pymt.mpt import MPT", "st = Faulty()",
                                 "t = MPT(st, secure=%r)" % secure] +
                                ["t.update(%r, %r)" % o[1:] if o[0] == "u" else "t.delete(%r)" % o[1] for o in hist] +
                                ["st.left = %d" % n, "try: %s" % ("t.update(%r, %r)" % op[1:] if op[0] == "u" else "t.delete(%r)" % op[1]),
                                 "except Exception: pass", "else: raise AssertionError('the fault was swallowed')", "st.left = None",
                                 "assert t.root_hash().hex() == %r" % want0.hex(),
                                 "for k, v in %r.items(): assert t.get(k) == v" % (pairs,),
                                 "t.update(%r, %r)" % op[1:] if op[0] == "u" else "t.delete(%r)" % op[1],
                                 "assert t.root_hash().hex() == %r" % want2.hex(),
                                 "for k, v in %r.items(): assert t.get(k) == v" % (m2,)])

                        if r[0] == "ok":
                            bad("the operation returned normally")
                            continue
                        if t.root_hash() != want0:
                            bad("the root hash changed")
                            continue
                        e = lookup_errors(t, pairs, probes, False)
                        if e:
                            bad("contents changed: " + e[0])
                            continue
                        if double:     # the second attempt fails too, at every point
                            for n2 in range(1, 40):
                                try:
                                    s3, t3 = copy.deepcopy((st, t))
                                except Exception:
                                    break
                                s3.left = n2
                                r = attempt(fam.apply, t3, op)
                                left, s3.left = s3.left, None
                                ctx.count("evaluations")
                                if left > 0:
                                    break
                                ctx.count("distinct_nontrivial")
                                if r[0] == "ok" or t3.root_hash() != want0 or lookup_errors(t3, pairs, probes, False):
                                    bad("a second failure at access %d" % n2)
                                    break
                                fam.apply(t3, op)
                                if t3.root_hash() != want2:
                                    bad("repeating after two failures (the second at access %d) gives another trie" % n2)
                                    break
                        r = attempt(fam.apply, t, op)
                        if r[0] != "ok" or t.root_hash() != want2:
                            bad("repeating the operation gives another trie: %r" % (r,))
                            continue
                        e = lookup_errors(t, m2, probes, False)
                        if e:
                            bad("repeating the operation: " + e[0])
                        ctx.count("traces_validated_against_impl")
                    if done:
                        break
                if done or n > 400:
                    break
        ctx.sample("%s, then each operation with each storage access failing" % show(hist))


def c09_full(ctx, fam_name, part, parts, kind, secure=False):
    """The same for full and sparse tries: the node storage fails at every access of every operation."""
    from pymt.empt import EMPT, SparseEMPT

    class Val:
        def __init__(self, raw):
            self.raw = raw

        def encode_rlp(self):
            return self.raw

        @staticmethod
        def decode_rlp(b):
            return Val(b)

        def __eq__(self, o):
            return isinstance(o, Val) and o.raw == self.raw

        def __hash__(self):
            return 1

    full = kind == "EMPT"

    def make(hist):
        ns, ds = FaultyStorage(), {}
        t = EMPT(ns, ds, secure=secure) if full else SparseEMPT(ns, secure=secure)
        for op in hist:
            fam.apply(t, op)
        return ns, ds, t

    def wanted(m):
        from pymt.empt import DataReference
        raw = {k: v.raw if isinstance(v, Val) else v for k, v in m.items()}
        return ref.root_hash({(ref.keccak(k) if secure else k): DataReference(k, v).encode() for k, v in raw.items()})

    def wrong(t, m, probes):
        if t.root_hash() != wanted(m):
            return "the root hash is not that of %r" % m
        for k in probes:
            if t.contains(k) is not (k in m):
                return "membership of %r" % k
            r = attempt(t.get_reference, k)
            if (r[0] == "ok") is not (k in m):
                return "get_reference(%r) gave %r" % (k, r)
            if full:
                r = attempt(t.get, k)
                if (r != ("ok", m[k])) if k in m else r[0] == "ok":
                    return "get(%r) gave %r, expected %r" % (k, r, m.get(k))
        if full and (len(t) != len(m) or dict(t.items()) != m):
            return "items() gave %r, expected %r" % (dict(t.items()), m)
        return None

    for pairs, hists, universe in fam.states(fam_name, part, parts):
        hist = hists[0]
        ctx.count("states")
        base = make(hist)
        ops = [("d", k) for k in pairs] + [("u", k, v) for k in list(pairs)[:3] for v in (b"other" * 8, Val(b"coded" * 9))] + \
              [("u", k, b"n" * 40) for k in [x for x in universe if x not in pairs][:3]] + [("u", b"\x77\x77", Val(b"n")), ("u", b"", b"e" * 33)]
        probes = list(pairs)[:6] + [k for k in universe if k not in pairs][:3] + [b"\x77\x77"]
        for op in ops:
            m2 = pairs | {op[1]: op[2]} if op[0] == "u" else {k: v for k, v in pairs.items() if k != op[1]}
            for n in range(1, 400):
                armed = None
                for after in (False, True):
                    for err in (Down, Gone) if not after else (Down,):
                        try:
                            ns, ds, t = copy.deepcopy(base)
                        except Exception:
                            ns, ds, t = make(hist)
                        before = dict(ds)
                        ns.left, ns.after, ns.err = n, after, err
                        r = attempt(fam.apply, t, op)
                        armed, ns.left = ns.left, None
                        ctx.count("transitions")
                        ctx.count("evaluations")
                        if armed > 0:
                            break
                        ctx.count("distinct_nontrivial")
                        e = "the operation returned normally" if r[0] == "ok" else wrong(t, pairs, probes)
                        if not e and full and dict(ds) != before:
                            e = "the data storage changed from %r to %r" % (before, dict(ds))
                        if not e:
                            r = attempt(fam.apply, t, op)
                            e = r[0] != "ok" and "repeating the operation raised %s" % r[1] or wrong(t, m2, probes)
                            e = e and "after repeating the operation: " + e
                        if e:
                            ctx.report("%s: node storage access %d of %s fails%s (%s): %s\nafter %s" % (
                                kind, n, show([op]), " after its effect" if after else "", err.__name__, e, show(hist)))
                        ctx.count("traces_validated_against_impl")
                    if armed > 0:
                        break
                if armed > 0:
                    break
        ctx.sample("%s: %s, then each operation with each access to the node storage failing" % (kind, show(hist)))


def c09_tasks(tier):
    th = tier == "thorough"
    more = [("tern2", 6), ("chain_4", 4), ("words_3", 2), ("twins", 2)] + ([("tern3n", 8), ("wide_s", 4), ("chain2_s", 4)] if th else [])
    fams = [("tern2", 4), ("tern3n", 6), ("chain_4", 8), ("chain2_s", 4), ("twins", 4), ("words_3", 4), ("wide_s", 4), ("nib", 2), ("long_s", 3), ("values_s", 4)]
    out = [("c09_faults", dict(fam_name=f, part=p, parts=n)) for f, n in fams for p in range(n)]
    out += [("c09_faults", dict(fam_name="words_3", part=p, parts=2, secure=True)) for p in range(2)]
    out += [("c09_faults", dict(fam_name=f, part=p, parts=8, double=True)) for f in (("twins", "chain_s", "tern3l", "words_s") if th else ("twins",)) for p in range(8)]
    if th:
        out += [("c09_faults", dict(fam_name=f, part=p, parts=16)) for f in ("tern3s", "tern3l", "tern4", "chain", "chain2", "words_s") for p in range(16)]
    out += [("c09_full", dict(fam_name=f, part=p, parts=n, kind=k)) for f, n in more for p in range(n) for k in ("EMPT", "SparseEMPT")]
    out += [("c09_full", dict(fam_name="words_3", part=0, parts=1, kind=k, secure=True)) for k in ("EMPT", "SparseEMPT")]
    return out


# ---------------------------------------------------------------- C10
def colliding(n, prefix_nibbles):
    """n keys whose Keccak hashes share their first nibbles."""
    groups = {}
    i = 0
    while True:
        k = b"key-%d" % i
        g = groups.setdefault(ref.keccak(k).hex()[:prefix_nibbles], [])
        g.append(k)
        if len(g) == n:
            return g
        i += 1


def c10_keysets():
    k0 = b"alpha"
    return {
        "words": fam.WORDS,
        "tern": fam.TERN[:8],
        "coll2": colliding(5, 2),
        "coll3": colliding(4, 3) + [b""],
        "coll4": colliding(2, 4) + colliding(2, 3) + [b"zz"],
        "selfhash": [k0, ref.keccak(k0), ref.keccak(ref.keccak(k0)), b"", ref.keccak(b"")],
        "long": [b"x" * n for n in (31, 32, 33, 64, 136, 200)],
        "longer": [b"x" * 1024, b"x" * 1024 + b"y", b"x" * 1025, b"y" + b"x" * 1024, b"x" * 4096, b"x" * 4096 + b"y", b"x" * 65536, b"x" * 65535 + b"y"],
    }


def c10_lockstep(ctx, name, profile, part, parts):
    from pymt.mpt import MPT
    from pymt.empt import EMPT, SparseEMPT, RootEMPT
    keys = c10_keysets()[name]
    H = ref.keccak
    n = 0
    for idx in fam.subsets(keys, 0, min(len(keys), 5)):
        n += 1
        if n % parts != part:
            continue
        pairs = {keys[i]: fam.value(profile, i) for i in idx}
        hashed = {H(k): v for k, v in pairs.items()}
        for hist in fam.histories(pairs, keys, ["asc", "delall"]):
            ctx.count("states")
            s, p = MPT({}, secure=True), MPT({})
            full = EMPT(secure=True)
            sparse = SparseEMPT(secure=True)
            refs = MPT({})
            ok = True
            for i, op in enumerate(hist):
                for obj in (s, full, sparse):
                    fam.apply(obj, op)
                fam.apply(p, (op[0], H(op[1])) + op[2:])
                if op[0] == "u":
                    refs.update(H(op[1]), full.get_reference(op[1]).encode())
                else:
                    refs.delete(H(op[1]))
                ctx.count("transitions", 5)
                m = fam.model(hist[:i + 1])
                want = ref.root_hash({H(k): v for k, v in m.items()})
                got = (s.root_hash() == p.root_hash() == want, full.root_hash() == sparse.root_hash() == refs.root_hash())
                if got != (True, True):
                    ctx.report("secure tries differ from the plain trie over hashed keys (MPT agrees: %s, EMPT/SparseEMPT agree: %s)\nafter %s" % (
                        got + (show(hist[:i + 1]),)), fam.script(hist[:i + 1], [
                            "from pymt.utils.hash import keccak_hash as H", "p = MPT({})",
                            "for k, v in %r.items(): p.update(H(k), v)" % (m,), "assert p.root_hash() == t.root_hash()"], True))
                    ok = False
                    break
            if not ok:
                continue
            ctx.count("traces_validated_against_impl", 3)
            root = RootEMPT(s.root(), secure=True)
            froot, sroot = full.get_root_trie(), sparse.get_root_trie()
            plain_full = MPT({}, full.root())
            for k in keys + (reflective(s, pairs, True) + reflective(full, {x: full.get_reference(x).encode() for x in pairs}, True)[:12] if pairs and hist[-1][0] == "u" else []):
                present = k in pairs

                def bad(what, tail):
                    ctx.report("%s for key %r\nafter %s" % (what, k, show(hist)), fam.script(hist, ["from pymt.utils.hash import keccak_hash as H", "from pymt.empt import *"] + tail, True))

                r = attempt(s.get, k)
                if (r != ("ok", pairs[k])) if present else r[0] == "ok":
                    bad("secure get gave %r" % (r,), ["assert t.get(%r) == %r" % (k, pairs.get(k))])
                if p.contains(H(k)) is not present or s.contains(k) is not present or (k in s) is not present or full.contains(k) is not present or sparse.contains(k) is not present:
                    bad("secure membership is wrong", ["assert t.contains(%r) is %r" % (k, present)])
                r = attempt(full.get, k)
                if (r != ("ok", pairs[k])) if present else r[0] == "ok":
                    bad("secure EMPT.get gave %r" % (r,), ["e = EMPT(secure=True)"] + ["e.update(%r, %r)" % o[1:] if o[0] == "u" else "e.delete(%r)" % o[1] for o in hist] + ["assert e.get(%r) == %r" % (k, pairs.get(k))])
                r2 = attempt(sparse.get_reference, k)
                if (r2[0] == "ok") is not present or (present and (r2[1].key, r2[1].data) != (k, pairs[k])):
                    bad("secure SparseEMPT.get_reference gave %r" % (r2,), [])
                if not pairs:
                    continue
                poe = not present
                g = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
                for holder, vs in ((s, (p, root, MPT({}, p.root()))), (full, (plain_full, froot, sparse, sroot)), (sparse, (plain_full, full, froot))):
                    r = attempt(getattr(holder, g), k)
                    ctx.count("verifications", len(vs) + 1)
                    if r[0] != "ok" or r[1].target_key != H(k):
                        bad("%s on %s: %r, or the target is not the hashed key" % (g, type(holder).__name__, r), ["p = t.%s(%r)" % (g, k), "assert p.target_key == H(%r)" % k])
                        continue
                    for v in vs + (holder,):
                        if not accepts(v, r[1], poe):
                            bad("the proof made by a secure %s is rejected by %s" % (type(holder).__name__, type(v).__name__), [
                                "p = t.%s(%r)" % (g, k), "assert MPT({}, t.root()).%s(p)" % g.replace("get", "verify")])
                    wrong = attempt(getattr(holder, "get_proof_of_inclusion" if poe else "get_proof_of_exclusion"), k)
                    if wrong[0] == "ok":
                        bad("a secure %s gave the wrong kind of proof" % type(holder).__name__, [absent_line("t.%s(%r)" % ("get_proof_of_inclusion" if poe else "get_proof_of_exclusion", k))])
                r = attempt(getattr(p, g), H(k))
                if r[0] != "ok" or not accepts(s, r[1], poe) or not accepts(root, r[1], poe):
                    bad("the plain trie's proof for the hashed key is rejected by the secure trie", ["p = MPT({})", "for k, v in %r.items(): p.update(k, v)" % (hashed,), "assert t.%s(p.%s(H(%r)))" % (g.replace("get", "verify"), g, k)])
            # keys that are hashes or encodings of stored nodes come and go
            for k in (reflective(s, pairs, True)[:6] if pairs else []):
                for obj in (s, full, sparse):
                    ctx.count("transitions", 2)
                    h = obj.root_hash()
                    obj.update(k, b"strange" * 6)
                    r = attempt(getattr(obj, "get", None) or obj.get_reference, k) if obj is not sparse else attempt(lambda: obj.get_reference(k).data)
                    p1 = attempt(obj.get_proof_of_inclusion, k)
                    if r != ("ok", b"strange" * 6) or attempt(obj.contains, k) != ("ok", True) or p1[0] != "ok" or p1[1].target_key != H(k) or not accepts(obj, p1[1]) or \
                            any(not obj.contains(x) for x in pairs):
                        ctx.report("a secure %s with the key %r, which is the hash or encoding of a node or key, answers get %r, contains %r, proof %s\nafter %s" % (
                            type(obj).__name__, k, r, attempt(obj.contains, k), p1[0], show(hist)), fam.script(hist, ["k = %r" % k, "t.update(k, b'strange' * 6)", "assert t.contains(k) and t.get(k) == b'strange' * 6"], True))
                    d = attempt(obj.delete, k)
                    if d[0] != "ok" or obj.root_hash() != h or attempt(obj.contains, k) != ("ok", False):
                        ctx.report("deleting the key %r of a secure %s gave %r\nafter %s" % (k, type(obj).__name__, d, show(hist)),
                                   fam.script(hist, ["k = %r" % k, "t.update(k, b'strange' * 6)", "t.delete(k)", "assert not t.contains(k)"], True))
            if [x.secure for x in (s, full, root, froot, sroot)] != [True] * 5 or p.secure is not False:
                ctx.report("a secure trie or view does not say so\nafter %s" % show(hist))
        ctx.sample(show(hist))


def c10_tasks(tier):
    out = []
    for n in c10_keysets():
        for prof in (("mix", "long") if tier == "quick" else ("mix", "long", "tiny", "same", "tricky")):
            out += [("c10_lockstep", dict(name=n, profile=prof, part=p, parts=8)) for p in range(8)]
    return out
