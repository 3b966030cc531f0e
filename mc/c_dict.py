"""C01 (dictionary behaviour) and C02 (root commitment): explicit-state search over trie contents and histories."""
import copy
from . import fam, ref
from .fam import attempt

OPV = b"new-value"


def lookup_errors(t, m, probes, dunder=True):
    """First disagreement of the trie with the dictionary m, or None."""
    for k in probes:
        if k in m:
            r = attempt(t.get, k)
            if r != ("ok", m[k]):
                return "get(%r) gave %r, stored is %r" % (k, r, m[k]), "assert t.get(%r) == %r" % (k, m[k])
            r = attempt(t.__getitem__, k) if dunder else r
            if r != ("ok", m[k]):
                return "t[%r] gave %r, stored is %r" % (k, r, m[k]), "assert t[%r] == %r" % (k, m[k])
            want = True
        else:
            r = attempt(t.get, k)
            if r[0] == "ok":
                return "get(%r) of an absent key returned %r" % (k, r[1]), absent_line("t.get(%r)" % k)
            r = attempt(t.__getitem__, k) if dunder else r
            if r[0] == "ok":
                return "t[%r] of an absent key returned %r" % (k, r[1]), absent_line("t[%r]" % k)
            want = False
        r = attempt(t.contains, k)
        if r != ("ok", want):
            return "contains(%r) gave %r, expected %r" % (k, r, want), "assert t.contains(%r) is %r" % (k, want)
        r = attempt(t.__contains__, k) if dunder else r
        if r != ("ok", want):
            return "%r in t gave %r, expected %r" % (k, r, want), "assert (%r in t) is %r" % (k, want)
    return None


def absent_line(expr):
    return "try: r = %s\nexcept Exception: pass\nelse: raise AssertionError(('absent key', r))" % expr


def check_lookups(ctx, t, m, probes, hist, secure=False, note="", dunder=False):
    e = lookup_errors(t, m, probes, dunder)
    ctx.count("lookups", (4 if dunder else 2) * len(probes))
    if e:
        ctx.report("%s%s\nafter %s" % (note, e[0], show(hist)), fam.script(hist, [e[1]], secure))
    return not e


def show(hist):
    if len(hist) > 40:
        return "%d operations ... %r" % (len(hist), hist[-3:])
    return "; ".join("%s(%s%s)" % ({"u": "update", "d": "delete"}[op[0]], repr(op[1]),
                                   ", " + repr(op[2]) if op[0] == "u" else "") for op in hist) or "(empty trie)"


def check_root(ctx, t, m, hist, secure=False):
    """C02: the root is the reference root of the contents."""
    want = ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m.items()})
    got = attempt(t.root_hash)
    if got != ("ok", want):
        ctx.report("root hash %r, the specification gives %s for %d pairs\nafter %s" % (
            got[1].hex() if got[0] == "ok" else got, want.hex(), len(m), show(hist)),
            fam.script(hist, ["assert t.root_hash().hex() == %r, t.root_hash().hex()" % want.hex()], secure))
        return False
    r = t.root()
    if ref.norm_root(r) != want:
        ctx.report("root() %r does not stand for the root hash %s\nafter %s" % (r, want.hex(), show(hist)),
                   fam.script(hist, ["assert MPT({}, t.root()).root_hash().hex() == %r" % want.hex()], secure))
        return False
    return True


def run_history(ctx, hist, secure=False, stepwise=None):
    """Execute a history (all its operations must succeed); returns the live trie."""
    t = fam.new_trie(secure)
    m = {}
    for i, op in enumerate(hist):
        r = attempt(fam.apply, t, op)
        ctx.count("transitions")
        if r[0] != "ok":
            ctx.report("%s raised %s\nafter %s" % (show([op]), r[1], show(hist[:i])), fam.script(hist[:i + 1], [], secure))
            return None
        if op[0] == "u":
            m[op[1]] = op[2]
        else:
            del m[op[1]]
        if stepwise and not stepwise(t, m, hist[:i + 1]):
            return None
    ctx.count("traces_validated_against_impl")
    return t


# ---------------------------------------------------------------- mixed histories (C01, C02, C03, C05)
STARTS = {
    "empty": [],
    "pair": [("u", b"\x12\x34", b"v"), ("u", b"\x12\x35", b"W" * 33)],
    "chain": [("u", b"", b"r" * 40), ("u", b"\x12", b"x"), ("u", b"\x12\x34", b"Y" * 33), ("u", b"\x13", b"z" * 32)],
    "fan": [("u", bytes([i << 4]), b"f%d" % i * 9) for i in range(4)] + [("u", b"\x00\x01", b"q"), ("u", b"\x12\x34", b"n" * 50)],
}
MIXKEYS = (b"\x12\x34", b"\x12", b"\x00")


def mixed_ops(values):
    return [("u", k, v) for k in MIXKEYS for v in values] + [("d", k) for k in MIXKEYS] + \
        [("get", k) for k in MIXKEYS[:2]] + [("in", b"\x12\x35"), ("root",), ("hash",), ("proof", MIXKEYS[0]), ("proof", MIXKEYS[1]),
                                            ("verify",), ("reopen",), ("recode",), ("baddel",), ("len",)]


def mixed_apply(state, op, secure):
    """Apply one operation to (trie, model, last proof); read operations must not raise. Returns False if not applicable."""
    from pymt.mpt import MPT
    t, m, last = state["t"], state["m"], state["proof"]
    n = op[0]
    if n == "u":
        t.update(op[1], op[2])
        state["m"] = m | {op[1]: op[2]}
    elif n == "d":
        if op[1] not in m:
            return False
        t.delete(op[1])
        state["m"] = {k: v for k, v in m.items() if k != op[1]}
    elif n == "get":
        attempt(t.get, op[1])
    elif n == "in":
        t.contains(op[1])
    elif n == "root":
        t.root_hash(), t.root()
    elif n == "hash":
        hash(t), t == t, repr(t)
    elif n == "proof":
        if not m:
            return False
        poe = op[1] not in m
        state["proof"] = ((t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion)(op[1]), poe)
    elif n == "verify":
        if last is None:
            return False
        attempt(t.verify_proof_of_exclusion if last[1] else t.verify_proof_of_inclusion, last[0])
    elif n == "reopen":
        if "st" not in state:
            return False
        state["t"] = MPT(state["st"], t.root(), secure)
    elif n == "recode":
        state["t"] = MPT.decode(t.encode())
        state.pop("st", None)
    elif n == "baddel":
        attempt(t.delete, b"\x12\x34\x56")
    elif n == "len":
        attempt(len, t), bool(t.root())
    return True


def mixed_lines(start, seq, secure):
    lines = ["from pymt.mpt import MPT", "st = {}", "t = MPT(st, secure=%r)" % secure, "p = None"]
    for op in list(start) + list(seq):
        n = op[0]
        lines.append({"u": lambda: "t.update(%r, %r)" % op[1:], "d": lambda: "t.delete(%r)" % op[1],
                      "get": lambda: "try: t.get(%r)\nexcept Exception: pass" % op[1], "in": lambda: "t.contains(%r)" % op[1],
                      "root": lambda: "t.root_hash(), t.root()", "hash": lambda: "hash(t), t == t, repr(t)",
                      "proof": lambda: "poe = not t.contains(%r)\np = (t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion)(%r)" % (op[1], op[1]),
                      "verify": lambda: "try: (t.verify_proof_of_exclusion if poe else t.verify_proof_of_inclusion)(p)\nexcept Exception: pass",
                      "reopen": lambda: "t = MPT(st, t.root(), %r)" % secure, "recode": lambda: "t = MPT.decode(t.encode())",
                      "baddel": lambda: "try: t.delete(b'\\x12\\x34\\x56')\nexcept Exception: pass",
                      "len": lambda: "bool(t.root())"}[n]())
    return lines


def mixed(ctx, judge, start, depth, first, values, secure=False):
    """Every sequence of changes and questions on live objects; judged after every one of them."""
    ops = mixed_ops(values)
    begin = STARTS[start]

    def fresh(seq):
        st = {}
        s = {"t": fam.build(begin, secure, st), "m": fam.model(begin), "proof": None, "st": st}
        for op in seq:
            mixed_apply(s, op, secure)
        return s

    def fork(s, seq):
        try:
            return copy.deepcopy(s)
        except Exception:
            return fresh(seq)

    def judged(s, seq):
        t, m = s["t"], s["m"]
        ctx.count("states")
        if judge == "root":
            want = ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m.items()})
            got = attempt(t.root_hash)
            if got != ("ok", want) or ref.norm_root(t.root()) != want:
                ctx.report("root hash %r, the specification gives %s\nafter %s then %s" % (got, want.hex(), show(begin), seq),
                           mixed_lines(begin, seq, secure) + ["assert t.root_hash().hex() == %r" % want.hex()])
                return False
        elif judge == "lookup":
            e = lookup_errors(t, m, [k for k, in {(o[1],) for o in begin}] + list(MIXKEYS) + [b"\x12\x34\x56", b"\x13"], False)
            if e:
                ctx.report("%s\nafter %s then %s" % (e[0], show(begin), seq), mixed_lines(begin, seq, secure) + [e[1]])
                return False
        else:
            poe = judge == "poe"
            make, check = ("get_proof_of_exclusion", "verify_proof_of_exclusion") if poe else ("get_proof_of_inclusion", "verify_proof_of_inclusion")
            targets = [k for k in list(MIXKEYS) + [b"", b"\x12\x34\x56"] if (k in m) != poe]
            from pymt.mpt import MPT
            for k in targets if m else []:
                r = attempt(getattr(t, make), k)
                ok = r[0] == "ok" and attempt(getattr(t, check), r[1]) == ("ok", True) and \
                    attempt(getattr(MPT({}, t.root_hash(), secure), check), r[1]) == ("ok", True) and \
                    r[1].target_key == (ref.keccak(k) if secure else k)
                if not ok:
                    ctx.report("no valid proof for %r: %r\nafter %s then %s" % (k, r, show(begin), seq),
                               mixed_lines(begin, seq, secure) + ["q = t.%s(%r)" % (make, k), "assert t.%s(q) and MPT({}, t.root_hash()).%s(q)" % (check, check)])
                    return False
            last = s["proof"]
            if last is not None and last[1] == poe:
                p = last[0]
                want = ref.norm_root(p.trie_root) == ref.root_hash({(ref.keccak(k) if secure else k): v for k, v in m.items()})
                r = attempt(getattr(t, check), p)
                if (r == ("ok", True)) is not want:
                    ctx.report("a proof made for %s contents gave %r\nafter %s then %s" % ("these" if want else "other", r, show(begin), seq),
                               mixed_lines(begin, seq, secure) + ["try: r = t.%s(p)\nexcept Exception: r = False" % check, "assert bool(r) is %r" % want])
                    return False
        return True

    def visit(s, seq):
        # the questions of the judgement are put to a copy, so that histories without them are explored as well
        if not judged(s if len(seq) == depth else fork(s, seq), seq):
            return
        if len(seq) == depth:
            ctx.count("traces_validated_against_impl")
            return
        for op in ops:
            s2 = fork(s, seq)
            if not mixed_apply(s2, op, secure):
                continue
            ctx.count("transitions")
            visit(s2, seq + [op])

    s, seq = fresh([]), []
    for i in first:
        if not mixed_apply(s, ops[i], secure):
            return
        seq.append(ops[i])
    visit(s, seq)
    ctx.sample("%s; then %s; then every continuation up to %d operations" % (show(begin), seq, depth))


def mixed_tasks(judge, tier, secure=False):
    vals = [b"v"] if tier == "quick" else V2
    n = len(mixed_ops(vals))
    return [("mixed", dict(judge=judge, start=s, depth=5 if tier != "quick" else 3 if judge == "poe" and s in ("empty", "fan") else 4, first=(i,), values=vals)) for s in ("empty", "pair", "chain", "fan") for i in range(n)] + \
           [("mixed", dict(judge=judge, start="chain", depth=3 if tier == "quick" else 4, first=(i,), values=V2, secure=True)) for i in range(len(mixed_ops(V2)))]


# ---------------------------------------------------------------- C01
def c01_contents(ctx, fam_name, part, parts, ops=True, secure=False):
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        probes = fam.near(list(pairs) + universe[:6]) if len(pairs) <= 8 else fam.near(list(pairs)[:12] + list(pairs)[-6:])
        have = set(probes)
        probes += [k for k in list(pairs) + universe if k not in have]
        few = list(pairs) + [k for k in probes if k not in pairs][:6]
        big = len(pairs) > 20
        ctx.count("states")
        for hi, hist in enumerate(hists):
            t = run_history(ctx, hist, secure)
            if t is None:
                continue
            if not check_lookups(ctx, t, pairs, few if hi else probes, hist, secure, dunder=not hi) or hi or not ops:
                continue
            # one more operation from this state: every delete, every overwrite, deletes of absent keys, an insert
            for k in list(pairs)[:30:4] if big else pairs:
                h2 = hist + [("d", k)]
                m2 = {x: v for x, v in pairs.items() if x != k}
                t2 = fam.fork(t, hist, secure)
                r = attempt(t2.delete, k)
                ctx.count("transitions")
                if r[0] != "ok":
                    ctx.report("delete(%r) of a present key raised %s\nafter %s" % (k, r[1], show(hist)), fam.script(h2, [], secure))
                    continue
                check_lookups(ctx, t2, m2, few + [k] if big else probes, h2, secure)
            for k in list(pairs)[:4]:
                h2 = hist + [("u", k, OPV)]
                t2 = fam.fork(t, hist, secure)
                t2[k] = OPV
                ctx.count("transitions")
                check_lookups(ctx, t2, pairs | {k: OPV}, list(pairs), h2, secure, dunder=True)
            bad = [k for k in probes if k not in pairs]
            t2 = fam.fork(t, hist, secure)
            for k in bad:
                r = attempt(t2.delete, k)
                ctx.count("transitions")
                if r[0] == "ok":
                    ctx.report("delete(%r) of an absent key did not raise\nafter %s" % (k, show(hist)),
                               fam.script(hist, [absent_line("t.delete(%r)" % k)], secure))
                    break
            check_lookups(ctx, t2, pairs, list(pairs) + bad[:4], hist, secure, "after failed deletes: ")
        ctx.sample(show(hists[-1]))


def overwrites(ctx, lengths, secure=False, root_too=False):
    """A value replaced by one that resembles it (and back), in every position a value can have, on one live object."""
    for n in lengths:
        for base in (bytes(i % 251 for i in range(n)), b"\x61" * n):
            sims = fam.similar(base) if n < 400 else fam.similar(base)[:14]
            for ks in fam.VALUE_SHAPES if n < 400 else fam.VALUE_SHAPES[:4]:
                for which in range(len(ks)):
                    pairs = {k: base if i == which else b"other-%d" % i * 5 for i, k in enumerate(ks)}
                    hist = fam.ups(pairs, ks)
                    t = run_history(ctx, hist, secure)
                    if t is None:
                        continue
                    ctx.count("states")
                    k = ks[which]
                    for v in sims:
                        for w in (v, base):
                            hist = hist + [("u", k, w)]
                            t.update(k, w)
                            pairs = pairs | {k: w}
                            ctx.count("transitions")
                            if not (check_root(ctx, t, pairs, hist, secure) if root_too else check_lookups(ctx, t, pairs, ks, hist, secure)):
                                break
                    # the same with a neighbour holding the same or a similar value
                    for o in ks:
                        if o != k:
                            for v in [base] + sims[:3] + sims[-4:]:
                                hist = hist + [("u", o, v)]
                                t.update(o, v)
                                pairs = pairs | {o: v}
                                ctx.count("transitions")
                                if not (check_root(ctx, t, pairs, hist, secure) if root_too else check_lookups(ctx, t, pairs, ks, hist, secure)):
                                    break
                    ctx.count("traces_validated_against_impl")


def c01_overwrites(ctx, **kw):
    overwrites(ctx, **kw)


def c02_overwrites(ctx, **kw):
    overwrites(ctx, root_too=True, **kw)


def reflective(t, m, secure):
    """Keys that are made of the trie's own bytes: root hash, node references, encodings, stored values, hashes of keys."""
    rt = ref.trie({(ref.keccak(k) if secure else k): v for k, v in m.items()})
    out = [rt.root_hash, rt.root_node, ref.EMPTY_ROOT] + list(rt.nodes) + list(rt.nodes.values())
    out += list(m.values()) + [ref.keccak(k) for k in m] + [ref.keccak(ref.keccak(k)) for k in m] + [ref.keccak(v) for v in m.values()]
    return [k for k in dict.fromkeys(out) if k not in m and len(k) < 2000][:40]


def c01_reflective(ctx, fam_name, part, parts, secure=False):
    """Keys that equal something the trie stores: absent until inserted, then present, then absent again."""
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        ctx.count("states")
        hist = list(hists[-1])
        t = run_history(ctx, hist, secure)
        if t is None or not pairs:
            continue
        strange = reflective(t, pairs, secure)
        if not check_lookups(ctx, t, pairs, list(pairs) + strange, hist, secure, dunder=True):
            continue
        for k in strange:
            r = attempt(t.delete, k)
            if r[0] == "ok":
                ctx.report("delete(%r) of an absent key did not raise\nafter %s" % (k, show(hist)), fam.script(hist, [absent_line("t.delete(%r)" % k)], secure))
        for k in strange[:10]:
            for v in (b"new", k):      # as a key, and the value is the key
                h2 = hist + [("u", k, v)]
                t.update(k, v)
                m2 = pairs | {k: v}
                ctx.count("transitions", 2)
                ok = check_lookups(ctx, t, m2, list(m2), h2, secure)
                t.delete(k)
                if not ok or not check_lookups(ctx, t, pairs, list(pairs) + strange, h2 + [("d", k)], secure):
                    break
        own = list(pairs)[0]
        for v in strange[:12]:         # a value that equals a node, reference or hash
            h2 = hist + [("u", own, v)]
            t.update(own, v)
            ctx.count("transitions", 2)
            if not check_lookups(ctx, t, pairs | {own: v}, list(pairs), h2, secure) or not check_root(ctx, t, pairs | {own: v}, h2, secure):
                break
            t.update(own, pairs[own])
        check_lookups(ctx, t, pairs, list(pairs) + strange, hist, secure)
        ctx.count("traces_validated_against_impl")


def c01_dfs(ctx, keys, values, depth, first, secure=False, root_too=False):
    """Every operation sequence up to the depth on live objects, without merging states; reads happen in between."""
    ops = [("u", k, v) for k in keys for v in values] + [("d", k) for k in keys]
    probes = fam.near(keys)[:14]
    probes += [k for k in keys if k not in probes]

    def visit(t, m, hist):
        ctx.count("states")
        if root_too:
            if not check_root(ctx, t, m, hist, secure):
                return
        elif not check_lookups(ctx, t, m, keys if len(hist) < depth else keys, hist, secure):
            return
        if len(hist) == depth:
            ctx.count("traces_validated_against_impl")
            return
        if not root_too and not check_lookups(ctx, t, m, probes, hist, secure):
            return
        for op in ops:
            t2 = fam.fork(t, hist, secure)
            r = attempt(fam.apply, t2, op)
            ctx.count("transitions")
            h2 = hist + [op]
            if op[0] == "d" and op[1] not in m:
                if r[0] == "ok":
                    ctx.report("delete(%r) of an absent key did not raise\nafter %s" % (op[1], show(hist)),
                               fam.script(hist, [absent_line("t.delete(%r)" % op[1])], secure))
                elif root_too:
                    check_root(ctx, t2, m, hist, secure)
                else:
                    check_lookups(ctx, t2, m, keys, hist, secure, "after a failed delete: ")
                continue
            if r[0] != "ok":
                ctx.report("%s raised %s\nafter %s" % (show([op]), r[1], show(hist)), fam.script(h2, [], secure))
                continue
            m2 = dict(m)
            if op[0] == "u":
                m2[op[1]] = op[2]
            else:
                del m2[op[1]]
            visit(t2, m2, h2)

    t = fam.new_trie(secure)
    hist, m = [], {}
    for i in first:
        op = ops[i]
        if op[0] == "d" and op[1] not in m:
            return
        if attempt(fam.apply, t, op)[0] != "ok":
            ctx.report("%s raised\nafter %s" % (show([op]), show(hist)), fam.script(hist + [op], [], secure))
            return
        hist.append(op)
        m = fam.model(hist)
    visit(t, m, hist)
    ctx.sample("all continuations of: " + show(hist))


DFS_KEYS = {
    "chain4": fam.bs("", "00", "0000", "0010"),
    "chain5": fam.bs("", "12", "1234", "1235", "1244"),
    "fan5": fam.bs("01", "10", "11", "1101", ""),
    "twin4": fam.bs("0000", "0001", "1000", "1001"),
    "deep4": fam.bs("123456", "123457", "123466", "12"),
}


def dfs_tasks(fn, names, values, depth, **kw):
    out = []
    for n in names:
        keys = DFS_KEYS[n]
        nops = len(keys) * (len(values) + 1)
        out += [(fn, dict(keys=keys, values=values, depth=depth, first=(i, j), **kw))
                for i in range(len(keys) * len(values)) for j in range(nops)]
    return out


V2 = [b"v", b"W" * 33]


def c01_tasks(tier):
    t = []
    for f, n in (("tern2", 8), ("tern3", 8), ("chain", 4), ("chain2", 4), ("twins", 2), ("words", 4), ("wide", 4), ("nib", 2),
                 ("long", 4), ("values_s", 2), ("big", 6), ("huge", 2)):
        t.append((f, n))
    if tier == "thorough":
        t += [("tern3d", 16), ("tern4d", 32), ("values", 8)]
    out = [("c01_contents", dict(fam_name=f, part=p, parts=n)) for f, n in t for p in range(n)]
    out += [("c01_contents", dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in (("chain_s", 1), ("words_s", 1), ("big_s", 1))
            for p in range(n)]
    d = 5 if tier == "thorough" else 4
    out += dfs_tasks("c01_dfs", ["chain4", "twin4"], V2, d)
    if tier == "thorough":
        out += dfs_tasks("c01_dfs", ["chain5", "fan5", "deep4"], V2, 4)
    lens = [2, 3, 8, 31, 32, 33, 55, 56, 64, 100, 128, 255, 256, 257, 258, 300, 513, 1025] + ([600, 1000, 2049, 4097, 65537] if tier == "thorough" else [])
    out += [("c01_overwrites", dict(lengths=lens[i::6])) for i in range(6)]
    out += [("c01_overwrites", dict(lengths=[3, 40, 300], secure=True))]
    for f, n in (("chain_s", 2), ("words_s", 2), ("twins", 1), ("wide_s", 2)):
        for sec in (False, True):
            out += [("c01_reflective", dict(fam_name=f, part=p, parts=n, secure=sec)) for p in range(n)]
    out += mixed_tasks("lookup", tier)
    return out


# ---------------------------------------------------------------- C02
def c02_contents(ctx, fam_name, part, parts, secure=False, ops=True):
    roots = {}
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        ctx.count("states")
        for hi, hist in enumerate(hists):
            t = run_history(ctx, hist, secure, lambda t, m, h: check_root(ctx, t, m, h, secure))
            if t is None:
                continue
            fs = frozenset(pairs.items())
            if roots.setdefault(t.root_hash(), fs) != fs:
                ctx.report("two different contents have the root hash %s" % t.root_hash().hex(), fam.script(hist, [], secure))
            if hi or not ops:
                continue
            for k in list(pairs)[:40]:
                t2 = fam.fork(t, hist, secure)
                r = attempt(t2.delete, k)
                ctx.count("transitions")
                h2 = hist + [("d", k)]
                if r[0] != "ok":
                    ctx.report("delete(%r) of a present key raised %s\nafter %s" % (k, r[1], show(hist)), fam.script(h2, [], secure))
                    continue
                check_root(ctx, t2, {x: v for x, v in pairs.items() if x != k}, h2, secure)
            for k in universe[:21]:
                t2 = fam.fork(t, hist, secure)
                h2 = hist + [("u", k, OPV)]
                t2.update(k, OPV)
                ctx.count("transitions")
                if check_root(ctx, t2, pairs | {k: OPV}, h2, secure) and k not in pairs:
                    t2.delete(k)
                    ctx.count("transitions")
                    check_root(ctx, t2, pairs, h2 + [("d", k)], secure)
            if pairs:
                t2 = fam.fork(t, hist, secure)
                h2 = list(hist)
                m2 = dict(pairs)
                for k in sorted(pairs):
                    t2.delete(k)
                    del m2[k]
                    h2.append(("d", k))
                    ctx.count("transitions")
                    if not check_root(ctx, t2, m2, h2, secure):
                        break
                else:
                    fresh = fam.new_trie(secure)
                    ctx.expect(fresh.root_hash() == t2.root_hash(), "an emptied trie has another root hash than a fresh one",
                               fam.script(h2, ["assert t.root_hash() == MPT({}).root_hash()"], secure))
                    t2.update(b"again", b"1")
                    check_root(ctx, t2, {b"again": b"1"}, h2 + [("u", b"again", b"1")], secure)
        ctx.sample(show(hists[-1]))


def c02_dfs(ctx, **kw):
    c01_dfs(ctx, root_too=True, **kw)


def c02_tasks(tier):
    t = [("tern2", 8), ("tern3", 8), ("chain", 4), ("chain2", 4), ("twins", 2), ("words", 4), ("wide", 4), ("nib", 2),
         ("long", 4), ("values", 6), ("big", 6), ("huge", 2), ("tern4", 8)]
    if tier == "thorough":
        t += [("tern3d", 16), ("tern4d", 32)]
    out = [("c02_contents", dict(fam_name=f, part=p, parts=n)) for f, n in t for p in range(n)]
    out += [("c02_contents", dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in (("chain_s", 1), ("words_s", 1), ("big_s", 1))
            for p in range(n)]
    d = 5 if tier == "thorough" else 4
    out += dfs_tasks("c02_dfs", ["chain4", "twin4"], V2, d)
    if tier == "thorough":
        out += dfs_tasks("c02_dfs", ["chain5", "fan5", "deep4"], V2, 4)
    lens = [2, 3, 8, 31, 32, 33, 55, 56, 64, 100, 128, 255, 256, 257, 258, 300, 513, 1025] + ([600, 1000, 2049, 4097, 65537] if tier == "thorough" else [])
    out += [("c02_overwrites", dict(lengths=lens[i::6])) for i in range(6)]
    out += [("c02_overwrites", dict(lengths=[3, 40, 300], secure=True))]
    out += mixed_tasks("root", tier)
    return out
