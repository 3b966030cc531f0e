"""C03-C06: completeness and soundness of inclusion and exclusion proofs."""
import itertools
from . import fam, ref
from .c_dict import show, run_history, absent_line, mixed, mixed_tasks
from .fam import attempt, bs

B = bytes


def verifiers(t, pairs, secure, hist):
    """Every way to hold a trie with this root: name -> trie object."""
    from pymt.mpt import MPT
    from pymt.empt import RootEMPT
    rt = ref.trie({(ref.keccak(k) if secure else k): v for k, v in pairs.items()})
    out = [("the trie", t), ("MPT({}, root())", MPT({}, t.root(), secure)), ("MPT({}, root_hash())", MPT({}, t.root_hash(), secure)),
           ("RootEMPT(root())", RootEMPT(t.root(), secure)), ("RootEMPT(root_hash())", RootEMPT(t.root_hash(), not secure)),
           ("decode(encode())", MPT.decode(t.encode()))]
    if len(rt.root_node) != 32:
        out.append(("MPT({}, encoded root node)", MPT({}, rt.root_node, secure)))
    if len(hist) < 30:
        out.append(("another trie with the same pairs", fam.build([("u", k, pairs[k]) for k in sorted(pairs)], secure)))
    return out


def mk(key, root, nodes, typ):
    from pymt.proof import Proof
    return Proof(target_key=key, root_hash=root, proof=tuple(nodes), proof_type=typ)


def accepts(v, proof, poe=False):
    """True if the verifier says yes; an exception is a rejection."""
    try:
        return bool((v.verify_proof_of_exclusion if poe else v.verify_proof_of_inclusion)(proof))
    except Exception:
        return False


def proof_lines(p):
    return ["from pymt.proof import Proof",
            "p = Proof(target_key=%r, root_hash=%r, proof=%r, proof_type=%r)" % (p.target_key, p.trie_root, p.proof, p.type)]


MAXK = 24


def completeness(ctx, fam_name, part, parts, poe, secure=False):
    """C03 / C05: each present (absent) key gets a proof that verifies everywhere and goes stale with the contents."""
    meth = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
    vmeth = "verify_proof_of_exclusion" if poe else "verify_proof_of_inclusion"
    other = "get_proof_of_inclusion" if poe else "get_proof_of_exclusion"
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        if not pairs:
            continue
        ctx.count("states")
        for hi, hist in enumerate(hists):
            if hi > 1 and len(pairs) > 3:
                break
            t = run_history(ctx, hist, secure)
            if t is None:
                continue
            keys = list(pairs)
            if len(keys) > MAXK:
                keys = keys[:8] + keys[len(keys) // 2:len(keys) // 2 + 4] + keys[-4:]
            if poe:
                targets = [k for k in fam.near(keys[:8]) + universe if k not in pairs]
                targets = list(dict.fromkeys(targets))
                if hi:
                    targets = targets[:4]
            else:
                targets = keys
            proofs = []
            vs = verifiers(t, pairs, secure, hist)
            for ti, k in enumerate(targets):
                r = attempt(getattr(t, meth), k)
                ctx.count("transitions")
                if r[0] != "ok":
                    ctx.report("%s(%r) raised %s for a%s key\nafter %s" % (meth, k, r[1], "n absent" if poe else " present", show(hist)),
                               fam.script(hist, ["t.%s(%r)" % (meth, k)], secure))
                    continue
                p = r[1]
                want = ref.keccak(k) if secure else k
                if p.target_key != want or p.type != (b"MPT-POE" if poe else b"MPT-POI") or \
                        ref.norm_root(p.trie_root) != t.root_hash():
                    ctx.report("proof for %r has wrong target, type or root: %r\nafter %s" % (k, p, show(hist)), fam.script(
                        hist, ["p = t.%s(%r)" % (meth, k), "assert p.target_key == %r and MPT({}, p.trie_root).root_hash() == t.root_hash()" % want], secure))
                    continue
                # the trie, the bare root hash and the other verifiers in turn (all of them for the first targets)
                for name, v in (vs if hi == 0 and ti < 4 else [vs[0], vs[2], vs[ti % len(vs)]] if hi == 0 else [vs[ti % len(vs)]]):
                    r = attempt(getattr(v, vmeth), p)
                    ctx.count("verifications")
                    if r != ("ok", True):
                        ctx.report("the proof for %r gave %r when verified by %s\nafter %s" % (k, r, name, show(hist)), fam.script(
                            hist, ["from pymt.empt import RootEMPT", "p = t.%s(%r)" % (meth, k),
                                   "assert t.%s(p) is True" % vmeth,
                                   "for v in (MPT({}, t.root()), MPT({}, t.root_hash()), RootEMPT(t.root()), RootEMPT(t.root_hash()), MPT.decode(t.encode())):",
                                   "    assert v.%s(p) is True, v" % vmeth], secure))
                        break
                proofs.append((k, p))
            # a proof of the other kind is refused
            for k in targets[:12]:
                r = attempt(getattr(t, other), k)
                ctx.count("transitions")
                if r[0] == "ok":
                    ctx.report("%s(%r) did not raise\nafter %s" % (other, k, show(hist)),
                               fam.script(hist, [absent_line("t.%s(%r)" % (other, k))], secure))
            if hi:
                continue
            # changes make every old proof stale; undoing them makes it valid again
            if len(proofs) > 10:
                proofs = proofs[:8] + proofs[-2:]
            changes = [("d", k) for k in keys[:6]] + [("u", keys[0], b"other"), ("u", b"\x77\x77", b"n" * 35), ("u", b"", b"e")]
            if poe:
                changes += [("u", k, b"now-present") for k in targets[:4]]
            for op in changes:
                m2 = dict(pairs)
                if op[0] == "d":
                    del m2[op[1]]
                else:
                    m2[op[1]] = op[2]
                if m2 == pairs:
                    continue
                # on the live object: it answered for these proofs before
                t2 = t
                fam.apply(t2, op)
                ctx.count("transitions")
                for k, p in proofs:
                    ctx.count("verifications")
                    if accepts(t2, p, poe):
                        ctx.report("the old proof for %r still verifies after %s\nafter %s" % (k, show([op]), show(hist)), fam.script(
                            hist, ["p = t.%s(%r)" % (meth, k), "assert t.%s(p) is True" % vmeth, "t.update(%r, %r)" % op[1:] if op[0] == "u" else "t.delete(%r)" % op[1],
                                   "try: r = t.%s(p)\nexcept Exception: r = False" % vmeth, "assert not r"], secure))
                        break
                back = ("u", op[1], pairs[op[1]]) if op[1] in pairs else ("d", op[1])
                fam.apply(t2, back)
                for k, p in proofs:
                    if attempt(getattr(t2, vmeth), p) != ("ok", True):
                        ctx.report("the proof for %r is rejected after %s and %s restored the contents\nafter %s" % (
                            k, show([op]), show([back]), show(hist)), fam.script(hist, ["p = t.%s(%r)" % (meth, k), "assert t.%s(p) is True" % vmeth] + [
                                "t.update(%r, %r)" % o[1:] if o[0] == "u" else "t.delete(%r)" % o[1] for o in (op, back)] +
                                ["assert t.%s(p) is True" % vmeth], secure))
        ctx.sample(show(hists[0]))


def c03_poi(ctx, **kw):
    completeness(ctx, poe=False, **kw)


def c05_poe(ctx, **kw):
    completeness(ctx, poe=True, **kw)


def proof_fams(tier, fn):
    fams = [("tern2", 6), ("tern3s", 6), ("tern3l", 4), ("chain", 4), ("chain2_s", 2), ("twins", 2), ("words_s", 3), ("wide_s", 3), ("nib", 2),
            ("long_s", 4), ("values_s", 8), ("big_s", 1), ("huge", 2)]
    sec = [("chain_s", 2), ("words_s", 2), ("big_s", 1)]
    if tier == "thorough":
        fams += [("tern4", 16), ("long", 8), ("values", 8), ("wide", 8), ("big", 6), ("tern3", 8), ("chain2", 4)]
        sec += [("twins", 1), ("values_s", 2), ("tern3s", 8)]
    return [(fn, dict(fam_name=f, part=p, parts=n)) for f, n in fams for p in range(n)] + \
           [(fn, dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in sec for p in range(n)]


def c03_tasks(tier):
    return proof_fams(tier, "c03_poi") + mixed_tasks("poi", tier)


def c05_tasks(tier):
    return proof_fams(tier, "c05_poe") + mixed_tasks("poe", tier)


# ---------------------------------------------------------------- C04 / C06: the adversary
def K(ks, profile):
    return {k: fam.value(profile, i) for i, k in enumerate(ks)}


TARGETS = {
    "chain-long": (K(bs("", "12", "1234", "1235"), "long"), False),
    "chain-mix": (K(bs("", "12", "1234", "1235"), "mix"), False),
    "chain-mix2": (K(bs("12", "1234", "123456", "1245"), "mix2"), False),
    "twins": (K(bs("0000", "0001", "1000", "1001"), "same"), False),
    "twins-deep": (K(bs("00aa", "00bb", "11aa", "11bb"), "same"), False),
    "words": (K([b"do", b"dog", b"doge", b"horse"], "tricky"), False),
    "tiny": (K(bs("00", "01", "10", "11"), "tiny"), False),
    "one-long": (K(bs("1234"), "long"), False),
    "one-tiny": (K(bs("1234"), "tiny"), False),
    "one-empty": (K(bs(""), "long"), False),
    "ext": (K(bs("1234", "1244", "12"), "long"), False),
    "ext2": (K(bs("123456", "123457", "123466"), "long"), False),
    "nested": (K(bs("00", "0000", "000000", "00000000"), "long"), False),
    "null": ({b"\x12": b"null", b"\x12\x34": b"null" * 9, b"\x13": b"null"}, False),
    "sec-words": (K([b"do", b"dog", b"doge", b"horse"], "mix"), True),
    "sec-two": (K(bs("00", "01"), "long"), True),
}


def relatives(pairs):
    """Tries an attacker may take nodes from."""
    ks = list(pairs)
    out = [{k: v for k, v in pairs.items() if k != ks[-1]} | {b"\x99": b"z" * 40}, {k: v + b"!" for k, v in pairs.items()}]
    if len(ks) > 1:
        out.append({k: v for k, v in pairs.items() if k != ks[0]})
    return out


def poskey(k, secure):
    return ref.keccak(k) if secure else k


class Arena:
    """One trie under attack: its verifiers, the node pool and the judgement."""

    def __init__(self, name, poe, ctx):
        self.ctx, self.poe, self.name = ctx, poe, name
        self.pairs, self.secure = (TARGETS.get(name) or LARGE[name])
        self.hist = [("u", k, v) for k, v in self.pairs.items()]
        self.t = fam.build(self.hist, self.secure)
        self.logical = {poskey(k, self.secure): v for k, v in self.pairs.items()}
        self.rt = ref.trie(self.logical)
        from pymt.mpt import MPT
        from pymt.empt import RootEMPT
        self.vs = [("the trie", self.t), ("MPT({}, root_hash)", MPT({}, self.rt.root_hash)),
                   ("RootEMPT(root)", RootEMPT(self.t.root(), self.secure))]
        if len(self.rt.root_node) != 32:
            self.vs.append(("MPT({}, encoded root node)", MPT({}, self.rt.root_node)))
        self.typ = b"MPT-POE" if poe else b"MPT-POI"
        self.probes = list(dict.fromkeys(fam.near(list(self.pairs))[:30] + list(self.pairs)))
        self.rels = relatives(self.pairs)
        pool = list(self.rt.nodes.values())
        for r in self.rels:
            pool += list(ref.trie({poskey(k, self.secure): v for k, v in r.items()}).nodes.values())
        self.nodes = list(dict.fromkeys(pool))
        self.seen = set()

    def null_leaf(self, target):
        return ref.rlp([ref.hp(ref.nibbles(target), True), b"null"])

    def judge(self, p, vs=None, what=""):
        """Accepting this proof has to be justified by what the proof's nodes show."""
        key = (p.target_key, p.trie_root, tuple(p.proof), p.type)
        if vs is None:
            if key in self.seen:
                return
            self.seen.add(key)
        self.ctx.count("transitions")
        for name, v in (vs or self.vs):
            self.ctx.count("verifications")
            if not accepts(v, p, self.poe):
                self.ctx.outcome("rejected")
                continue
            self.ctx.outcome("accepted")
            kind = ref.walk(self.rt.root_hash, p.target_key, [e for e in p.proof if isinstance(e, (bytes, bytearray))])[0]
            good = kind == ("absent" if self.poe else "present") and ref.norm_root(p.trie_root) == self.rt.root_hash \
                and p.type == self.typ and (p.target_key in self.logical) != self.poe
            # an exclusion proof is the path and its marker, and nothing else
            if good and self.poe:
                path = set(ref.path_nodes(self.rt.root_hash, p.target_key, p.proof))
                good = all(bytes(e) in path for e in p.proof[:-1])
                kind += " with nodes off the path"
            if not good:
                m = "verify_proof_of_exclusion" if self.poe else "verify_proof_of_inclusion"
                self.ctx.report("%s accepts a forged %s proof (%s): target %r is %s in the trie, the nodes leave it %s, recorded root %s\n"
                                "trie of %s" % (name, self.typ.decode(), what, p.target_key,
                                                "present" if p.target_key in self.logical else "absent", kind,
                                                "matches" if ref.norm_root(p.trie_root) == self.rt.root_hash else "differs",
                                                show(self.hist)),
                                fam.script(self.hist, ["from pymt.empt import RootEMPT"] + proof_lines(p) + [
                                    "for v in (t, MPT({}, t.root_hash()), RootEMPT(t.root(), t.secure), MPT({}, %r)):" % self.rt.root_node,
                                    "    try: r = v.%s(p)\n    except Exception: r = False" % m, "    assert not r, v"], self.secure))
                return

    def genuine(self):
        """Genuine proofs of this trie and of its relatives, of both kinds: (source, key, proof)."""
        for src, pairs in [("own", self.pairs)] + [("relative%d" % i, r) for i, r in enumerate(self.rels)]:
            t = fam.build([("u", k, v) for k, v in pairs.items()], self.secure)
            for k in self.probes:
                for poe in (False, True):
                    r = attempt(t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion, k)
                    if r[0] == "ok":
                        yield src, k, r[1]


def roots_for(a):
    rel = [ref.root_hash({poskey(k, a.secure): v for k, v in r.items()}) for r in a.rels]
    return [a.rt.root_hash, a.t.root(), a.rt.root_node] + rel + [b"", b"\x00" * 32, a.rt.root_hash[:31], ref.EMPTY_ROOT]


def adv_edits(ctx, name, poe):
    """Every one-step edit of every genuine proof (own, relatives', either kind)."""
    a = Arena(name, poe, ctx)
    ctx.count("states")
    targets = [poskey(k, a.secure) for k in a.probes]
    roots = roots_for(a)
    n = 0
    for src, k, g in a.genuine():
        n += 1
        nodes, tk, root = list(g.proof), g.target_key, g.trie_root
        relabel = g.type != a.typ

        def go(ns, t=tk, r=root, what="edit"):
            a.judge(mk(t, r, ns, a.typ), what="%s of a proof (%s) for %r" % (what, src, k))
            if relabel:   # an exclusion proof ends with a marker leaf; an inclusion proof does not
                a.judge(mk(t, r, (list(ns) + [a.null_leaf(t)]) if poe else list(ns)[:-1], a.typ), what="relabelled " + what)

        a.judge(g, what="genuine or of the other kind")
        go(nodes, what="relabel")
        for r in roots:
            go(nodes, r=r, what="root change")
        for t in targets:
            go(nodes, t=t, what="target change")
            go(nodes, t=t, r=a.rt.root_hash, what="target and root change")
            if poe:
                go(nodes[:-1] + [a.null_leaf(t)], t=t, what="target and marker change")
                go(nodes[:-1] + [a.null_leaf(t)], t=t, r=a.rt.root_hash, what="target, marker and root change")
        L = len(nodes)
        for i in range(L):
            go(nodes[:i] + nodes[i + 1:], what="dropped node")
            go(nodes[:i + 1] + nodes[i:], what="duplicated node")
            go(nodes[:i], what="truncation")
            go(nodes[i:], what="suffix")
            for j in range(i):
                ns = list(nodes)
                ns[i], ns[j] = ns[j], ns[i]
                go(ns, what="swap")
            for e in a.nodes:
                go(nodes[:i] + [e] + nodes[i + 1:], what="replaced node")
                go(nodes[:i] + [e] + nodes[i:], what="inserted node")
            for t in targets[:8]:
                leaf = ref.rlp([ref.hp(ref.nibbles(t), True), b"forged"])
                go(nodes[:i] + [leaf] + nodes[i + 1:], t=t, what="forged leaf")
                go(nodes[:i] + [leaf] + nodes[i:], t=t, what="inserted forged leaf")
                if poe:
                    go(nodes[:i] + [a.null_leaf(t)], t=t, what="truncated before a marker")
            for junk in (b"", b"\x00", b"\xc0", b"\x80", b"\xff" * 5, ref.rlp([b""] * 17), ref.rlp([b"\x00", b""])):
                go(nodes[:i] + [junk] + nodes[i + 1:], what="junk node")
        go(nodes[::-1], what="reversal")
        go([], what="empty proof")
        for e in a.nodes:
            go(nodes + [e], what="appended node")
            go([e] + nodes, what="prepended node")
    ctx.count("traces_validated_against_impl", n)
    ctx.sample("%s: %d genuine proofs edited, pool of %d nodes" % (name, n, len(a.nodes)))


def adv_bits(ctx, name, poe):
    """Every one-bit change of every byte of each genuine proof of the right kind."""
    a = Arena(name, poe, ctx)
    ctx.count("states")
    vs = [a.vs[0], a.vs[-1]]
    n = 0
    done = set()
    for src, k, g in a.genuine():
        if src != "own" or g.type != a.typ:
            continue
        n += 1
        for what, parts, rebuild in (
                ("target", [g.target_key], lambda x: mk(x[0], g.trie_root, g.proof, a.typ)),
                ("root", [g.trie_root], lambda x: mk(g.target_key, x[0], g.proof, a.typ)),
                ("node", list(g.proof), lambda x: mk(g.target_key, g.trie_root, x, a.typ))):
            for i, b in enumerate(parts):
                if what == "node":
                    # the same node below the same prefix was damaged already for another key
                    sig = (b, i, tuple(g.proof[:i]), len(g.proof) if poe else 0, poe and i == len(g.proof) - 1)
                    if sig in done:
                        continue
                    done.add(sig)
                for j in range(len(b)):
                    for bit in range(8):
                        c = bytearray(b)
                        c[j] ^= 1 << bit
                        a.judge(rebuild(parts[:i] + [B(c)] + parts[i + 1:]), vs, "bit %d of byte %d of %s %d" % (bit, j, what, i))
                for cut in (b[:-1], b[1:], b + b"\x00"):
                    a.judge(rebuild(parts[:i] + [cut] + parts[i + 1:]), vs, "length of %s %d" % (what, i))
    ctx.count("traces_validated_against_impl", n)


def adv_seqs(ctx, name, poe, depth, part, parts):
    """Every sequence of up to `depth` nodes from the pool, for every target."""
    a = Arena(name, poe, ctx)
    targets = [poskey(k, a.secure) for k in a.probes[:14]]
    pool = a.nodes[:9]
    ctx.count("states")
    n = 0
    for d in range(1, depth + 1):
        for seq in itertools.product(pool, repeat=d):
            n += 1
            if n % parts != part:
                continue
            for t in targets:
                ns = list(seq) + ([a.null_leaf(t)] if poe else [])
                a.judge(mk(t, a.rt.root_hash, ns, a.typ), a.vs[1:2], "nodes chosen from the pool")
    ctx.count("traces_validated_against_impl", n // parts)


def adv_absent(ctx, fam_name, part, parts, poe, secure=False):
    """No proof of the wrong kind is produced in any state, and every produced proof is judged by the reference."""
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        if not pairs:
            continue
        ctx.count("states")
        t = run_history(ctx, hists[-1], secure)
        if t is None:
            continue
        rt = ref.trie({poskey(k, secure): v for k, v in pairs.items()})
        from pymt.mpt import MPT
        root_only = MPT({}, rt.root_hash, secure)
        for k in list(dict.fromkeys(fam.near(list(pairs)[:6])[:26] + universe[:10] + list(pairs)[:20])):
            absent = k not in pairs
            r = attempt(t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion, k)
            ctx.count("transitions")
            if absent != poe:
                if r[0] == "ok":
                    m = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
                    ctx.report("%s(%r) did not raise for a%s key\nafter %s" % (m, k, "n absent" if absent else " present", show(hists[-1])),
                               fam.script(hists[-1], [absent_line("t.%s(%r)" % (m, k))], secure))
                # an honest path to the key presented as a proof of the other kind
                kind, _, used = ref.walk(rt.root_hash, poskey(k, secure), rt.nodes.values())
                tk = poskey(k, secure)
                for root in (rt.root_hash, rt.root_node):
                    for ns in ([used + [ref.rlp([ref.hp(ref.nibbles(tk), True), b"null"])]] if poe else [used, used[:-1] or used]):
                        p = mk(tk, root, ns, b"MPT-POE" if poe else b"MPT-POI")
                        for v in (t, root_only):
                            ctx.count("verifications")
                            if accepts(v, p, poe):
                                ctx.outcome("accepted")
                                ctx.report("a forged %s proof for %r is accepted (honest path, key is %s)\nafter %s" % (
                                    p.type.decode(), k, "absent" if absent else "present", show(hists[-1])), fam.script(
                                        hists[-1], proof_lines(p) + ["try: r = t.%s(p)\nexcept Exception: r = False" % (
                                            "verify_proof_of_exclusion" if poe else "verify_proof_of_inclusion"), "assert not r"], secure))
                            else:
                                ctx.outcome("rejected")


LARGE = {
    "deep-long": ({b"\x11" * i + b"\x17": B([i % 256]) * 90 for i in range(40)}, False),
    "deep-short": ({b"\x11" * i + b"\x17": B([i % 128]) for i in range(40)}, False),
    "deep-nested": ({b"\x11" * i: b"value %d" % i * 5 for i in range(60)}, False),
    "many": ({b"k%d" % i: fam.value("mix", i) for i in range(700)}, False),
    "all-bytes": ({B([i]): fam.value("mix2", i) for i in range(256)}, False),
    "long-keys": ({b"\x11" * 600 + x: b"v" * n + x for n, x in enumerate((b"", b"1", b"12", b"2"))} | {b"\x11" * 300 + b"x": b"y" * 40}, False),
    "sec-many": ({b"k%d" % i: fam.value("mix", i) for i in range(300)}, True),
}


def adv_large(ctx, name, poe, part, parts):
    """Proofs in deep and in large tries: each node dropped, altered, exchanged, foreign."""
    a = Arena(name, poe, ctx)
    ctx.count("states")
    ks = list(a.pairs)
    chosen = [ks[0], ks[len(ks) // 2], ks[-2], ks[-1]]
    absent = [k for k in (ks[-1] + b"\x00", ks[-1][:-1] + B([ks[-1][-1] ^ 1]) if ks[-1] else b"q", ks[len(ks) // 2] + b"zz", b"\x91", ks[-1][: len(ks[-1]) // 2] + b"\x99") if k not in a.pairs]
    vs = [a.vs[0], a.vs[1]]
    rel = {k: v + b"!" for k, v in a.pairs.items()}
    other = fam.build([("u", k, v) for k, v in rel.items()], a.secure)
    n = 0
    for ki, k in enumerate(chosen + absent):
        if ki % parts != part:
            continue
        poe_k = k not in a.pairs
        r = attempt(a.t.get_proof_of_exclusion if poe_k else a.t.get_proof_of_inclusion, k)
        q = attempt(other.get_proof_of_exclusion if poe_k else other.get_proof_of_inclusion, k)
        if r[0] != "ok" or q[0] != "ok":
            continue        # C03 and C05 report it
        g, foreign = r[1], list(q[1].proof)
        tk, root = g.target_key, g.trie_root
        nodes = list(g.proof)
        if poe_k != poe:    # a proof of the other kind, relabelled
            nodes = nodes + [a.null_leaf(tk)] if poe else nodes[:-1]
        n += 1

        def go(ns, what, t=tk, r=root):
            a.judge(mk(t, r, ns, a.typ), vs, what)

        go(nodes, "relabelled" if poe_k != poe else "genuine")
        if poe_k != poe:
            for i in range(len(nodes)):
                go(nodes[:i] + ([a.null_leaf(tk)] if poe else []), "relabelled and cut to %d nodes" % i)
                go(nodes[:i] + nodes[i + 1:], "relabelled without node %d" % i)
            continue
        if poe_k == poe and not accepts(a.t, g, poe):
            continue
        L = len(nodes)
        for i in range(L):
            go(nodes[:i] + nodes[i + 1:], "dropped node %d of %d" % (i, L))
            go(nodes[:i], "cut to %d of %d nodes" % (i, L))
            go(nodes[i:], "first %d of %d nodes missing" % (i, L)) if i else None
            if poe:
                go(nodes[:i] + nodes[-1:], "cut to %d of %d nodes before the marker" % (i, L))
                for e in (a.nodes[0], a.nodes[-1], foreign[i % len(foreign)]):
                    if e not in nodes:
                        go(nodes[:i] + [e] + nodes[i:], "foreign node inserted at %d of %d" % (i, L))
            if i + 1 < L:
                go(nodes[:i] + [nodes[i + 1], nodes[i]] + nodes[i + 2:], "nodes %d and %d exchanged" % (i, i + 1))
            if i < len(foreign) and foreign[i] != nodes[i]:
                go(nodes[:i] + [foreign[i]] + nodes[i + 1:], "node %d of another trie" % i)
                go(nodes[:i] + foreign[i:], "from node %d on those of another trie" % i)
            leaf = ref.rlp([ref.hp(ref.nibbles(tk), True), b"forged"])
            go(nodes[:i] + [leaf] + nodes[i + 1:], "forged leaf at %d" % i)
            b = nodes[i]
            step = max(1, len(b) // 16)
            for j in range(0, len(b), step):
                c = bytearray(b)
                c[j] ^= 1 << (i + j) % 8
                go(nodes[:i] + [B(c)] + nodes[i + 1:], "byte %d of node %d of %d altered" % (j, i, L))
            for c in (b[:-1], b[1:], b + b"\x00", b"", b + b):
                go(nodes[:i] + [c] + nodes[i + 1:], "length of node %d of %d altered" % (i, L))
        for t in (tk + b"\x00", tk[:-1], b"", tk[:-1] + B([tk[-1] ^ 1]) if tk else b"q", tk + tk, ref.keccak(tk), *[poskey(x, a.secure) for x in chosen + absent]):
            if t != tk:
                go(nodes, "target changed", t=t)
                if poe:
                    go(nodes[:-1] + [a.null_leaf(t)], "target and marker changed", t=t)
        for r2 in roots_for(a)[3:] + [B([root[0] ^ 1]) + root[1:], root[:-1], root + b"\x00"]:
            go(nodes, "root changed", r=r2)
    ctx.count("traces_validated_against_impl", n)


def adv_tasks(tier, poe):
    th = tier == "thorough"
    out = [("adv_edits", dict(name=n, poe=poe)) for n in TARGETS]
    out += [("adv_bits", dict(name=n, poe=poe)) for n in TARGETS]
    out += [("adv_large", dict(name=n, poe=poe, part=p, parts=9)) for n in LARGE for p in range(9)]
    seq = ["chain-long", "chain-mix", "twins", "words", "tiny", "ext", "nested", "null"] if not th else list(TARGETS)
    for n in seq:
        for p in range(8 if th else 2):
            out.append(("adv_seqs", dict(name=n, poe=poe, depth=4 if th else 3, part=p, parts=8 if th else 2)))
    fams = [("tern2", 2, False), ("tern3s", 3, False), ("tern3l", 3, False), ("chain_s", 1, False), ("chain2_s", 1, False), ("twins", 1, False),
            ("words_s", 2, False), ("wide_s", 2, False), ("nib", 2, False), ("long_s", 1, False), ("values_s", 2, False), ("huge", 2, False), ("words_s", 2, True)]
    if th:
        fams += [("tern4", 8, False), ("long", 4, False), ("values", 4, False), ("chain", 4, False), ("big_s", 1, False), ("tern3s", 4, True)]
    out += [("adv_absent", dict(fam_name=f, part=p, parts=n, poe=poe, secure=s)) for f, n, s in fams for p in range(n)]
    return out


def c04_tasks(tier):
    return adv_tasks(tier, False)


def c06_tasks(tier):
    return adv_tasks(tier, True)
