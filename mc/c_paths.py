"""C21 nibble paths, C22 node codec and references, C31 hash helpers."""
import hashlib
import itertools
from . import ref
from .fam import attempt


# ---------------------------------------------------------------- C21
def observe(p, want, others=()):
    """First disagreement of the path object p with the nibble list `want`; others: (path, list) pairs to compare with."""
    from pymt.utils.nibble_path import NibblePath
    n = len(want)
    if len(p) != n:
        return "len is %d, expected %d" % (len(p), n), "assert len(p) == %d, len(p)" % n
    for i in range(n):
        if p.at(i) != want[i]:
            return "nibble %d is %r, expected %d" % (i, p.at(i), want[i]), "assert p.at(%d) == %d" % (i, want[i])
    for leaf in (False, True):
        e = p.encode(leaf)
        if type(e) is not bytes or e != ref.hp(want, leaf):
            return "encode(%r) is %r, expected %r" % (leaf, e, ref.hp(want, leaf)), "assert p.encode(%r) == %r" % (leaf, ref.hp(want, leaf))
        q, flag = NibblePath.decode_with_type(e)
        if flag is not leaf or len(q) != n or [q.at(i) for i in range(n)] != list(want) or not (q == p) or not (p == q):
            return "the encoding with leaf=%r decodes to something else" % leaf, "q, f = type(p).decode_with_type(p.encode(%r)); assert f is %r and q == p and len(q) == len(p)" % (leaf, leaf)
        q = NibblePath.decode(e)
        if len(q) != n or [q.at(i) for i in range(n)] != list(want):
            return "decode of the encoding gives another path", "assert NibblePath.decode(p.encode(%r)) == p" % leaf
    if p.encode() != ref.hp(want, False):
        return "encode() is not the extension form", "assert p.encode() == %r" % ref.hp(want, False)
    for q, w in others:
        if (p == q) is not (want == w) or (q == p) is not (want == w) or (p != q) is (want == w):
            return "== with %r is wrong" % (w,), "pass"
        if p.starts_with(q) is not (want[:len(w)] == w):
            return "starts_with(%r) is %r" % (w, p.starts_with(q)), "pass"
        if q.starts_with(p) is not (w[:n] == want):
            return "%r.starts_with(it) is %r" % (w, q.starts_with(p)), "pass"
    if len(p) != n or [p.at(i) for i in range(n)] != list(want):
        return "the path was changed by comparing or encoding it", "pass"
    return None


def cpre(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


def base_specs(alphabet, maxlen):
    """(data, offset) of every path over the byte alphabet."""
    return [(bytes(d), o) for k in range(maxlen + 1) for d in itertools.product(alphabet, repeat=k) for o in range(2 * k + 1)]


def spec_list(s):
    return ref.nibbles(s[0])[s[1]:]


def mkpath(s):
    from pymt.utils.nibble_path import NibblePath
    return NibblePath(s[0], s[1])


def ops_for(model, partners):
    """Derivations from a path with this content."""
    out = [("consume", k) for k in range(len(model) + 1)]
    out += [("decode", False), ("decode", True)]
    for s in partners:
        out += [("common", s), ("rcommon", s), ("combine", s), ("rcombine", s)]
    return out


def derive(p, m, op):
    """Apply a derivation: (new path, new model, error)."""
    from pymt.utils.nibble_path import NibblePath
    k, a = op
    if k == "consume":
        r = p.consume(a)
        return (r if r is not None else p), m[a:], None
    if k == "decode":
        return NibblePath.decode_with_type(p.encode(a))[0], m, None
    q, w = mkpath(a), spec_list(a)
    r, new = {"common": lambda: (p.common_prefix(q), cpre(m, w)), "rcommon": lambda: (q.common_prefix(p), cpre(m, w)),
              "combine": lambda: (p.combine(q), m + w), "rcombine": lambda: (q.combine(p), w + m)}[k]()
    if len(q) != len(w) or [q.at(i) for i in range(len(w))] != list(w):
        return r, new, "the other path was changed"
    if len(p) != len(m) or [p.at(i) for i in range(len(m))] != list(m):
        return r, new, "the path itself was changed"
    if len(r) and len(new) == len(r):
        r.consume(1)                       # results do not share state with their sources
        if len(p) != len(m) or len(q) != len(w):
            return r, new, "consuming from the result changed a source"
        r, new = r, new
        r2 = {"common": lambda: p.common_prefix(q), "rcommon": lambda: q.common_prefix(p), "combine": lambda: p.combine(q), "rcombine": lambda: q.combine(p)}[k]()
        return r2, new, None
    return r, new, None


def path_src(spec, hist):
    lines = ["from pymt.utils.nibble_path import NibblePath", "p = NibblePath(%r, %d)" % spec]
    for k, a in hist:
        lines.append({"consume": lambda: "p = p.consume(%d)" % a, "decode": lambda: "p = NibblePath.decode(p.encode(%r))" % a,
                      "common": lambda: "p = p.common_prefix(NibblePath(%r, %d))" % a, "rcommon": lambda: "p = NibblePath(%r, %d).common_prefix(p)" % a,
                      "combine": lambda: "p = p.combine(NibblePath(%r, %d))" % a, "rcombine": lambda: "p = NibblePath(%r, %d).combine(p)" % a}[k]())
    return lines


def c21_derive(ctx, alphabet, maxlen, palpha, pmax, depth, part, parts):
    specs, partners = base_specs(alphabet, maxlen), base_specs(palpha, pmax)
    others = [(mkpath(s), spec_list(s)) for s in base_specs(palpha, min(pmax, 1))]

    def fail(spec, hist, e, tail="pass"):
        ctx.report("%s\npath %r, %s" % (e, spec, hist), path_src(spec, hist) + [tail])

    def build(spec, hist, warm=False):
        p, m = mkpath(spec), spec_list(spec)
        for op in hist:
            if warm:                       # the same object is asked before it is changed
                p.encode(True), p.encode(), len(p), p == p, attempt(hash, p), attempt(repr, p), attempt(str, p)
            p, m, _ = derive(p, m, op)
        return p, m

    def rec(spec, hist):
        try:
            p, m = build(spec, hist)
            e = observe(p, m, others)
            if not e and hist:
                e = observe(*build(spec, hist, True), others[:4])
                e = e and ("asked between the steps: " + e[0], e[1])
        except Exception as x:
            fail(spec, hist, "raised %r" % x)
            return
        ctx.count("states")
        if e:
            fail(spec, hist, e[0], e[1])
            return
        if len(hist) == depth:
            ctx.count("traces_validated_against_impl")
            return
        for op in ops_for(m, partners):
            try:
                p2, m2 = build(spec, hist)
                p2, m2, e = derive(p2, m2, op)
                ctx.count("transitions")
            except Exception as x:
                e = "raised %r" % x
            if e:
                fail(spec, hist + [op], e)
                continue
            if len(m2) <= 12:
                rec(spec, hist + [op])

    for i, s in enumerate(specs):
        if i % parts == part:
            rec(s, [])
    ctx.sample("%d base paths, %d partners, depth %d" % (len(specs), len(partners), depth))


def c21_pairs(ctx, part, parts):
    """All pairs of paths over a small alphabet: equality, prefix, common prefix, combination."""
    specs = base_specs((0x00, 0x01, 0x10, 0x11), 2) + base_specs((0x0f, 0xf0), 3)
    ps = [(s, spec_list(s)) for s in specs]
    for i, (s, m) in enumerate(ps):
        if i % parts != part:
            continue
        ctx.count("states")
        for s2, m2 in ps:
            p, q = mkpath(s), mkpath(s2)
            ctx.count("transitions", 4)
            bad = None
            if (p == q) is not (m == m2):
                bad = "== is %r" % (p == q)
            elif p.starts_with(q) is not (m[:len(m2)] == m2):
                bad = "starts_with is %r" % p.starts_with(q)
            else:
                c, k = p.common_prefix(q), p.combine(q)
                wc, wk = cpre(m, m2), m + m2
                if len(c) != len(wc) or tuple(c.at(j) for j in range(len(wc))) != wc or c.encode(True) != ref.hp(wc, True):
                    bad = "common_prefix is wrong"
                elif len(k) != len(wk) or tuple(k.at(j) for j in range(len(wk))) != wk or k.encode() != ref.hp(wk, False):
                    bad = "combine is wrong"
                elif (c == p) is not (wc == m) or not k.starts_with(p):
                    bad = "results compare wrongly"
            if bad:
                ctx.report("%s for %r and %r" % (bad, s, s2), ["from pymt.utils.nibble_path import NibblePath", "p, q = NibblePath(%r, %d), NibblePath(%r, %d)" % (s + s2),
                                                                "assert (p == q) is %r and p.starts_with(q) is %r" % (m == m2, m[:len(m2)] == m2),
                                                                "assert p.common_prefix(q).encode() == %r and p.combine(q).encode() == %r" % (ref.hp(cpre(m, m2), False), ref.hp(m + m2, False))])
        ctx.count("traces_validated_against_impl")


def c21_bytes(ctx, part, parts):
    """All one- and two-byte strings at every offset, and long paths at every offset."""
    for v in range(part, 65536, parts):
        d = bytes([v >> 8, v & 255])
        for o in range(5):
            w = ref.nibbles(d)[o:]
            p = mkpath((d, o))
            ctx.count("transitions", 2)
            for leaf in (False, True):
                e = p.encode(leaf)
                q, f = type(p).decode_with_type(e)
                if e != ref.hp(w, leaf) or f is not leaf or not q == p:
                    ctx.report("path %r at offset %d encodes to %r" % (d, o, e), path_src((d, o), []) + ["assert p.encode(%r) == %r" % (leaf, ref.hp(w, leaf))])
        ctx.count("states")
    for n in range(part, 131, parts):
        d = bytes((37 * i + n) % 256 for i in range(n))
        for o in range(2 * n + 1):
            p, w = mkpath((d, o)), ref.nibbles(d)[o:]
            e = observe(p, w)
            ctx.count("states")
            ctx.count("transitions")
            if e:
                ctx.report("%s: %d bytes at offset %d" % (e[0], n, o), path_src((d, o), []) + [e[1]])
            if o % 9 == 0:
                for k in (1, 2, 3, len(w) // 2, len(w)):
                    if k <= len(w):
                        r = mkpath((d, o)).consume(k)
                        e = observe(r, w[k:])
                        if e:
                            ctx.report("%s: %d bytes at offset %d, %d consumed" % (e[0], n, o, k), path_src((d, o), [("consume", k)]) + [e[1]])
                b = bytearray(d)
                if n:
                    b[-1] ^= 1
                c = p.common_prefix(mkpath((bytes(b), o)))
                e = observe(c, cpre(w, ref.nibbles(bytes(b))[o:]))
                if e:
                    ctx.report("%s: common prefix of paths of %d bytes" % (e[0], n))
                k = p.combine(mkpath((d, o // 2)))
                e = observe(k, w + ref.nibbles(d)[o // 2:])
                if e:
                    ctx.report("%s: combination of paths of %d bytes" % (e[0], n))
    if part == 0:
        for b in range(256):
            for o in range(3):
                e = observe(mkpath((bytes([b]), o)), ref.nibbles(bytes([b]))[o:], [(mkpath((bytes([x]), 0)), ref.nibbles(bytes([x]))) for x in (b, b ^ 1, b ^ 16)])
                ctx.count("states")
                if e:
                    ctx.report("%s: byte %d offset %d" % (e[0], b, o))
    ctx.count("traces_validated_against_impl")


def c21_long(ctx, n):
    """Very long paths: lengths, prefixes, combinations and encodings at both ends and around the point where they part."""
    d = bytes((37 * i + i // 256) % 256 for i in range(n))
    nib = ref.nibbles(d)
    for o in (0, 1, 2, 3, n, 2 * n - 1, 2 * n):
        w = nib[o:]
        ctx.count("states")
        e = observe(mkpath((d, o)), w)
        if e:
            ctx.report("%s: %d bytes at offset %d" % (e[0], n, o))
        for at in (0, 1, n // 2, n - 2, n - 1):
            for x in (0x01, 0x10):
                c = bytearray(d)
                c[at] ^= x
                c = bytes(c)
                w2 = ref.nibbles(c)[o:]
                ctx.count("transitions", 4)
                p, q = mkpath((d, o)), mkpath((c, o))
                if (p == q) is not (w == w2) or p.starts_with(q) is not (w == w2):
                    ctx.report("paths of %d bytes that part at byte %d compare wrongly" % (n, at), ["from pymt.utils.nibble_path import NibblePath", "p, q = NibblePath(%r, %d), NibblePath(%r, %d)" % (d, o, c, o), "assert (p == q) is %r and p.starts_with(q) is %r" % (w == w2, w == w2)])
                e = observe(p.common_prefix(q), cpre(w, w2))
                if e:
                    ctx.report("%s: common prefix of paths of %d bytes that part at byte %d" % (e[0], n, at), ["from pymt.utils.nibble_path import NibblePath", "p, q = NibblePath(%r, %d), NibblePath(%r, %d)" % (d, o, c, o), "assert p.common_prefix(q).encode() == %r" % ref.hp(cpre(w, w2), False)])
        same = mkpath((d, o))
        e = observe(same.common_prefix(mkpath((d, o))), w) or observe(same.combine(mkpath((d, o))), w + w) or observe(mkpath((d, 0)).consume(o), w)
        ctx.count("transitions", 3)
        if e:
            ctx.report("%s: paths of %d bytes at offset %d" % (e[0], n, o))
        for leaf in (False, True):
            enc = same.encode(leaf)
            q, f = type(same).decode_with_type(enc)
            ctx.count("transitions", 2)
            if enc != ref.hp(w, leaf) or f is not leaf or not q == same or observe(q, w):
                ctx.report("a path of %d nibbles does not survive encoding" % len(w), path_src((d, o), []) + ["assert p.encode(%r) == %r" % (leaf, ref.hp(w, leaf))])
    ctx.count("traces_validated_against_impl")


def c21_tasks(tier):
    th = tier == "thorough"
    out = [("c21_derive", dict(alphabet=(0x00, 0x12, 0x1f, 0xf0), maxlen=2, palpha=(0x00, 0x12, 0x1f), pmax=1, depth=2, part=p, parts=8)) for p in range(8)]
    out += [("c21_derive", dict(alphabet=(0x01, 0x10), maxlen=1, palpha=(0x01, 0x11), pmax=1, depth=3, part=p, parts=4)) for p in range(4)]
    if th:
        out += [("c21_derive", dict(alphabet=(0x01, 0x10, 0x11), maxlen=2, palpha=(0x01, 0x10), pmax=2, depth=3, part=p, parts=48)) for p in range(48)]
    out += [("c21_pairs", dict(part=p, parts=8)) for p in range(8)]
    out += [("c21_long", dict(n=n)) for n in (255, 256, 257, 511, 1023, 1025, 2049, 4097) + ((16385, 33000, 70000) if th else ())]
    out += [("c21_bytes", dict(part=p, parts=8)) for p in range(8)]
    return out


# ---------------------------------------------------------------- C22
def expected_ref(struct):
    e = ref.rlp(struct)
    return struct if len(e) < 32 else ref.keccak(e)


def impl_ref(struct):
    """What a parent node object stores for this child: its encoding or its hash."""
    e = ref.rlp(struct)
    return e if len(e) < 32 else ref.keccak(e)


def leafs(paths, datas):
    return [[ref.hp(p, True), d] for p in paths for d in datas]


def build_node(struct):
    """The node object of a specification structure (children already as stored references)."""
    from pymt.utils.nibble_path import NibblePath
    from pymt.utils.node import Branch, Extension, Leaf
    if len(struct) == 17:
        return Branch([x if isinstance(x, bytes) else ref.rlp(x) for x in struct[:16]], struct[16])
    nibs, leaf = ref.unhp(struct[0])
    path = NibblePath(bytes(a * 16 + b for a, b in zip(((0,) + nibs if len(nibs) % 2 else nibs)[::2], ((0,) + nibs if len(nibs) % 2 else nibs)[1::2])), len(nibs) % 2)
    return Leaf(path, struct[1]) if leaf else Extension(path, struct[1] if isinstance(struct[1], bytes) else ref.rlp(struct[1]))


def node_error(n, struct):
    """First disagreement of a node object with the structure."""
    from pymt.utils.node import Branch, Extension, Leaf
    if len(struct) == 17:
        if type(n) is not Branch:
            return "kind is %s" % type(n).__name__
        if [bytes(b) for b in n.branches] != [x if isinstance(x, bytes) else ref.rlp(x) for x in struct[:16]]:
            return "child references differ"
        return None if bytes(n.data) == struct[16] else "value is %r" % (n.data,)
    nibs, leaf = ref.unhp(struct[0])
    if type(n) is not (Leaf if leaf else Extension):
        return "kind is %s" % type(n).__name__
    if len(n.path) != len(nibs) or tuple(n.path.at(i) for i in range(len(nibs))) != nibs:
        return "path differs"
    if leaf:
        return None if bytes(n.data) == struct[1] else "value is %r" % (n.data,)
    want = struct[1] if isinstance(struct[1], bytes) else ref.rlp(struct[1])
    return None if bytes(n.next_ref) == want else "child reference is %r" % (n.next_ref,)


def check_node(ctx, struct, make=None):
    from pymt.utils.node import Node
    ctx.count("states")
    want = ref.rlp(struct)

    def bad(text, tail="pass"):
        ctx.report("%s\nnode %r" % (text, struct), ["from pymt.utils.node import Node", "enc = %r" % want, tail])

    try:
        n = (make or build_node)(struct)
        e = n.encode()
        ctx.count("transitions")
    except Exception as x:
        return bad("building or encoding raised %r" % x)
    if e != want:
        return bad("encodes to %r, expected %r" % (e, want), "assert Node.decode(enc).encode() == enc")
    r = Node.into_reference(n)
    ctx.count("transitions")
    if r != (want if len(want) < 32 else ref.keccak(want)):
        return bad("reference of a node of %d bytes is %r" % (len(want), r), "assert len(Node.into_reference(Node.decode(enc))) == %d" % min(32, len(want)))
    if n.encode() != want or node_error(n, struct):
        return bad("the node was changed by encoding it")
    for data in (want, bytearray(want)):
        try:
            d = Node.decode(data)
            ctx.count("transitions")
        except Exception as x:
            return bad("decoding %s raised %r" % (type(data).__name__, x), "Node.decode(enc)")
        err = node_error(d, struct)
        if err:
            return bad("after decoding: " + err, "assert Node.decode(enc).encode() == enc")
        if d.encode() != want or Node.into_reference(d) != r:
            return bad("the decoded node encodes to %r" % d.encode(), "assert Node.decode(enc).encode() == enc")
    # children embedded in the node are reached unchanged
    kids = struct[:16] if len(struct) == 17 else ([] if ref.unhp(struct[0])[1] else [struct[1]])
    refs = d.branches if len(struct) == 17 else ([] if not kids else [d.next_ref])
    for k, c in zip(kids, refs):
        if isinstance(k, list):
            ctx.count("transitions")
            try:
                err = node_error(Node.decode(c), k)
            except Exception as x:
                err = "raised %r" % x
            if err:
                return bad("embedded child %r: %s" % (k, err))
        elif len(k) == 32 and bytes(c) != k:
            return bad("child hash differs")
    ctx.count("traces_validated_against_impl")
    if ctx.stats["states"] % 5003 == 1:
        ctx.sample(struct)


PATHS = [tuple(p) for n in range(5) for p in itertools.product((0, 1, 15), repeat=n)]
DATAS = [b"", b"\x00", b"\x01", b"\x7f", b"\x80", b"\xc0", b"\xff", b"\xb8", b"v", b"vw"] + [bytes([x]) * n for n in (2, 3, 10, 20, 27, 28, 29, 30, 31, 32, 33, 34, 54, 55, 56, 57, 255, 256, 300) for x in (0, 0x80)]


def c22_leafs(ctx, part, parts):
    for i, p in enumerate(PATHS):
        if i % parts == part:
            for d in DATAS:
                check_node(ctx, [ref.hp(p, True), d])
                if len(p) < 4:
                    # the same path cut from a longer one
                    from pymt.utils.nibble_path import NibblePath
                    from pymt.utils.node import Leaf
                    full = (7, 3, 9) + p if len(p) % 2 else (7, 3) + p
                    raw = bytes(full[j] * 16 + full[j + 1] for j in range(0, len(full), 2))
                    check_node(ctx, [ref.hp(p, True), d], lambda s: Leaf(NibblePath(raw).consume(len(full) - len(p)), d))
    for n in range(part, 140, parts):
        for o in (0, 1):
            nibs = tuple((5 * i + n) % 16 for i in range(2 * n))[o:]
            for k in (1, 31, 60):
                check_node(ctx, [ref.hp(nibs, True), b"x" * k])
    for n in range(part, 90, parts):       # value lengths around every header and reference boundary
        for p in ((), (1,), (1, 2), (1, 2, 3), tuple(range(10)), tuple(range(16)) * 2):
            for x in (0x00, 0x7f, 0x80, 0xff):
                check_node(ctx, [ref.hp(p, True), bytes([x]) * n])


def small_kids():
    """Structures that embed (under 32 bytes), of every kind."""
    out = leafs([(), (1,), (2, 3), (15, 0, 1)], [b"\x00", b"a", b"\x80", b"val", b"v" * 20, b"w" * 26])
    out += [[ref.hp(p, False), k] for p in ((1,), (2, 3), (15, 0, 1)) for k in leafs([(), (4,)], [b"a", b"v" * 12])]
    e = [b""] * 17
    b1 = list(e)
    b1[16] = b"x"
    out.append(b1)
    for slots in ((0, 1), (3, 15), (0, 7, 15)):
        b = list(e)
        for s in slots:
            b[s] = [b"\x20", b"q"]
        out.append(b)
    return [s for s in out if len(ref.rlp(s)) < 32]


def big_kids():
    return [ref.keccak(b"%d" % i) for i in range(3)] + [b"\x00" * 32, b"\xff" * 32, b"\xc0" + b"\x80" * 31]


def c22_ext(ctx, part, parts):
    kids = small_kids() + big_kids()
    num = 0
    for p in PATHS[1:] + [tuple(range(16)) * k for k in (1, 2, 4)] + [tuple(range(15)) * k for k in (1, 3)]:
        for k in kids:
            num += 1
            if num % parts == part:
                check_node(ctx, [ref.hp(p, False), k])
                if isinstance(k, list):
                    check_node(ctx, k)


def c22_branch(ctx, part, parts):
    kids = small_kids()
    tiny = [k for k in kids if len(ref.rlp(k)) < 8][:5]
    menu = [b"", ref.keccak(b"1"), b"\x00" * 32] + tiny[:2] + [kids[-1], kids[len(kids) // 2]]
    num = 0
    for value in (b"", b"\x00", b"v", b"\x80", b"x" * 55, b"y" * 256):
        for slots in [(0, 1), (0, 15), (7, 8), (14, 15), (0, 8, 15), (1, 2, 3)]:
            for combo in itertools.product(menu, repeat=len(slots)):
                num += 1
                if num % parts != part:
                    continue
                s = [b""] * 16 + [value]
                for i, c in zip(slots, combo):
                    s[i] = c
                check_node(ctx, s)
    for mask in range(part, 65536, parts):          # every set of occupied slots
        if mask % 3 and mask % 7 and bin(mask).count("1") not in (1, 2, 14, 15, 16):
            continue
        s = [b""] * 16 + [b"v" if mask % 2 else b""]
        for i in range(16):
            if mask >> i & 1:
                s[i] = menu[1 + (i + mask) % (len(menu) - 1)]
        check_node(ctx, s)
    for i in range(16):
        for k in kids + big_kids():
            num += 1
            if num % parts == part:
                check_node(ctx, [b""] * i + [k] + [b""] * (15 - i) + [b""])
                check_node(ctx, [b""] * i + [k] + [b""] * (15 - i) + [b"value"])
                check_node(ctx, [k] * 16 + [b"z"])


def c22_built(ctx, part, parts):
    """Parents built from into_reference of child objects, three levels deep, around the 32-byte boundary."""
    from pymt.utils.nibble_path import NibblePath
    from pymt.utils.node import Branch, Extension, Leaf, Node
    num = 0
    for n in range(0, 40):
        for pl in range(0, 5):
            for gp in (1, 2, 3):
                num += 1
                if num % parts != part:
                    continue
                ls = [ref.hp((1,) * pl, True), b"d" * n]
                leaf = Leaf(NibblePath(b"\x11\x11\x11", 6 - pl), b"d" * n)
                bs_ = [b""] * 3 + [expected_ref(ls)] + [b""] * 12 + [b"\x01"]
                br = Branch([b""] * 3 + [Node.into_reference(leaf)] + [b""] * 12, b"\x01")
                es = [ref.hp((2,) * gp, False), expected_ref(bs_)]
                ex = Extension(NibblePath(b"\x22\x22", 4 - gp), Node.into_reference(br))
                ts = [expected_ref(es), expected_ref(ls)] + [b""] * 14 + [b""]
                top = Branch([Node.into_reference(ex), Node.into_reference(leaf)] + [b""] * 14)
                for obj, s in ((leaf, ls), (br, bs_), (ex, es), (top, ts)):
                    check_node(ctx, s, lambda _s, o=obj: o)
                    ctx.count("transitions")
    if part == 0:
        for bad in (None, 1, "x", [b"x"]):
            for f in (lambda: Leaf(bad, b"d"), lambda: Leaf(NibblePath(b"a"), bad), lambda: Extension(bad, b"x" * 32), lambda: Extension(NibblePath(b"a"), bad), lambda: Branch([bad] * 16, b""),
                      lambda: Node.decode(bad), lambda: Node.into_reference(bad)):
                ctx.count("transitions")
                if attempt(f)[0] == "ok":
                    ctx.report("a node with content of type %s was accepted" % type(bad).__name__)
        ctx.count("transitions")
        if Node.EMPTY_HASH != ref.EMPTY_ROOT:
            ctx.report("EMPTY_HASH is %r" % Node.EMPTY_HASH)
        if attempt(lambda: Branch([b""] * 16).encode())[1] != ref.rlp([b""] * 17) or Branch([b""] * 16, None).encode() != ref.rlp([b""] * 17):
            ctx.report("a branch without a value does not encode an empty value")


def c22_changed(ctx, part, parts):
    """Nodes changed after they were encoded: the encoding and the reference follow every change of path, value or child."""
    from pymt.utils.nibble_path import NibblePath
    from pymt.utils.node import Branch, Extension, Leaf, Node

    def check(n, struct, how):
        want = ref.rlp(struct)
        ctx.count("transitions")
        e = attempt(n.encode)
        r = attempt(Node.into_reference, n)
        err = None
        if e != ("ok", want):
            err = "encodes to %r, expected %r" % (e[1], want)
        elif r != ("ok", want if len(want) < 32 else ref.keccak(want)):
            err = "has the reference %r" % (r[1],)
        else:
            err = node_error(n, struct)
        if err:
            ctx.report("a node changed after it was encoded (%s) %s\nnow %r" % (how, err, struct))
        return not err

    vals = [b"a", b"b", b"\x00", b"\x80", b"v" * 26, b"w" * 26, b"v" * 27, b"x" * 40, b"y" * 40, b"x" * 39 + b"y", b"z" * 60]
    refs = [ref.keccak(b"1"), ref.keccak(b"2"), b"\x00" * 32] + [ref.rlp(k) for k in small_kids()[:14]]
    paths = [p for p in PATHS if len(p) <= 3]
    num = 0
    for p, q in itertools.product(paths, repeat=2):
        num += 1
        if num % parts != part:
            continue
        ctx.count("states")
        for i, v in enumerate(vals):
            n = build_node([ref.hp(p, True), v])
            check(n, [ref.hp(p, True), v], "not yet")
            n.path = build_node([ref.hp(q, True), v]).path
            ok = check(n, [ref.hp(q, True), v], "path %r to %r" % (p, q))
            for w in vals[i + 1:] + vals[:i]:
                n.data = w
                ok = ok and check(n, [ref.hp(q, True), w], "value to %r" % w)
            d = attempt(Node.decode, ref.rlp([ref.hp(p, True), v]))
            if d[0] == "ok":
                d[1].data = vals[0]
                ok = ok and check(d[1], [ref.hp(p, True), vals[0]], "value of a decoded leaf")
        if p and q:
            for i, c in enumerate(refs):
                st = lambda path, r: [ref.hp(path, False), r if len(r) == 32 else ref.unrlp(r)]
                n = build_node(st(p, c))
                check(n, st(p, c), "not yet")
                n.path = build_node(st(q, c)).path
                check(n, st(q, c), "path of an extension")
                for o in refs[i + 1:i + 4] + refs[:2]:
                    n.next_ref = o
                    check(n, st(q, o), "child of an extension")
        # paths shortened in place
        for leaf in (True, False):
            last = b"v" * 30 if leaf else refs[0]
            n = build_node([ref.hp(p + q, leaf), last])
            for k in range(len(p + q) + (1 if leaf else 0)):
                if not check(n, [ref.hp((p + q)[k:], leaf), last], "path consumed"):
                    break
                if k < len(p + q):
                    n.path.consume(1)
        ctx.count("traces_validated_against_impl")
    for slots in itertools.product(range(16), repeat=2):
        num += 1
        if num % parts != part:
            continue
        ctx.count("states")
        s = [b""] * 16 + [b"v"]
        n = build_node(s)
        for step in range(12):
            check(n, [x if len(x) in (0, 32) or i == 16 else ref.unrlp(x) for i, x in enumerate(s)], "slot or value of a branch")
            if step % 3 == 2:
                s[16] = vals[step % len(vals)]
                n.data = s[16]
            else:
                i = slots[step % 2]
                s[i] = (refs + [b""])[(step * 5 + i) % (len(refs) + 1)]
                n.branches[i] = s[i]
        ctx.count("traces_validated_against_impl")


def c22_tasks(tier):
    out = []
    n = 8
    for f in ("c22_leafs", "c22_ext", "c22_branch", "c22_built", "c22_changed"):
        out += [(f, dict(part=p, parts=n)) for p in range(n)]
    return out


# ---------------------------------------------------------------- C31
def hash_inputs(part, parts, top):
    for n in list(range(part, top, parts)) + [[4096], [8191], [8192], [8193], [16384], [20000], [65536], [65537]][part % 8]:
        for pat in (bytes(n), b"\xff" * n, bytes((i * 167 + n) % 256 for i in range(n))):
            yield pat


def c31_digests(ctx, part, parts, top):
    from pymt.utils.hash import keccak_hash, keccak_hash_list
    from pymt.utils.utils import Utils
    for d in hash_inputs(part, parts, top):
        ctx.count("states")
        k = ref.keccak_pure(d)
        s256, s512 = hashlib.sha256(d), hashlib.sha512(d)
        cases = [("keccak_hash(d)", keccak_hash(d), k), ("keccak_hash(d, True)", keccak_hash(d, True), k.hex().encode()), ("keccak_hash(d, hexdigest=False)", keccak_hash(d, hexdigest=False), k),
                 ("keccak_hash_list([d])", keccak_hash_list([d]), k), ("keccak_hash_list([d], True)", keccak_hash_list([d], True), k.hex().encode()),
                 ("Utils.hash_data(d)", Utils.hash_data(d), s256.hexdigest().encode()), ("Utils.hash_data(d, type='sha512')", Utils.hash_data(d, type="sha512"), s512.hexdigest().encode()),
                 ("Utils.sha256(d)", Utils.sha256(d), s256.hexdigest().encode()), ("Utils.sha512(d)", Utils.sha512(d), s512.hexdigest().encode()),
                 ("Utils.hash_data(d, False).digest()", Utils.hash_data(d, False).digest(), s256.digest()), ("Utils.hash_data(d, False, 'sha512').digest()", Utils.hash_data(d, False, "sha512").digest(), s512.digest()),
                 ("Utils.sha256(d, False).digest()", Utils.sha256(d, False).digest(), s256.digest()), ("Utils.sha512(d, finalize=False).hexdigest()", Utils.sha512(d, finalize=False).hexdigest(), s512.hexdigest())]
        for name, got, want in cases:
            ctx.count("transitions")
            if got != want:
                ctx.report("%s of %d bytes gives %r, expected %r" % (name, len(d), got, want), ["from pymt.utils.hash import keccak_hash, keccak_hash_list", "from pymt.utils.utils import Utils", "d = %r" % d, "assert %s == %r" % (name, want)])
        # repeated calls are independent of each other
        if keccak_hash(d) != k or Utils.hash_data(d) != s256.hexdigest().encode():
            ctx.report("hashing %d bytes twice gives different digests" % len(d))
        ctx.count("traces_validated_against_impl")
    ctx.sample("all lengths under %d that are %d mod %d, three patterns" % (top, part, parts))


def c31_lists(ctx, part, parts, n):
    """Every way to cut short strings into chunks (empty chunks included), and cuts of longer ones at every place."""
    from pymt.utils.hash import keccak_hash_list
    num = 0

    def check(chunks, want):
        ctx.count("transitions", 2)
        ctx.count("states")
        for f in (list, tuple, iter):
            got = keccak_hash_list(f(chunks))
            if got != want:
                ctx.report("keccak_hash_list(%r) is %r" % (chunks, got), ["from pymt.utils.hash import keccak_hash, keccak_hash_list", "assert keccak_hash_list(%r) == keccak_hash(%r)" % (chunks, b"".join(chunks))])
                return
        if keccak_hash_list(chunks, hexdigest=True) != want.hex().encode():
            ctx.report("keccak_hash_list(%r, hexdigest=True) is wrong" % (chunks,))
        ctx.count("traces_validated_against_impl")

    for k in range(n + 1):
        d = bytes(range(65, 65 + k))
        want = ref.keccak_pure(d)
        for mask in range(1 << max(0, k - 1)):
            num += 1
            if num % parts != part:
                continue
            chunks, cur = [], d[:1]
            for i in range(1, k):
                if mask >> (i - 1) & 1:
                    chunks.append(cur)
                    cur = b""
                cur += d[i:i + 1]
            chunks.append(cur)
            check(chunks, want)
            for e in range(len(chunks) + 1):
                check(chunks[:e] + [b""] + chunks[e:], want)
    for length in (64, 136, 137, 272, 300):
        d = bytes((i * 31 + length) % 256 for i in range(length))
        want = ref.keccak_pure(d)
        for i in range(part, length + 1, parts):
            check([d[:i], d[i:]], want)
            check([d[:i // 2], d[i // 2:i], d[i:]], want)
    if part == 0:
        check([], ref.keccak_pure(b""))


def c31_unfinished(ctx, depth, first):
    """Every sequence of starting, continuing and finishing hashes: unfinished ones are those of hashlib and independent of each other."""
    from pymt.utils.hash import keccak_hash, keccak_hash_list
    from pymt.utils.utils import Utils
    starts = [(n, d) for n in ("sha256", "sha512", "hash_data256", "hash_data512") for d in (b"", b"ab")]
    ops = [("start",) + x for x in starts] + [("update", i, d) for i in (0, 1) for d in (b"", b"x")] + [("copy", 0)] + [("whole", b""), ("whole", b"ab")]
    make = {"sha256": lambda d: Utils.sha256(d, False), "sha512": lambda d: Utils.sha512(d, finalize=False), "hash_data256": lambda d: Utils.hash_data(d, False), "hash_data512": lambda d: Utils.hash_data(d, finalize=False, type="sha512")}

    def run(seq):
        ctx.count("states")
        live = []

        def judge():
            for h, m in live:
                if h.digest() != m.digest() or h.hexdigest() != m.hexdigest():
                    # SHA objects of pycryptodome refuse nothing after digest()
                    return "an unfinished hash has digest %s, expected %s" % (h.hexdigest(), m.hexdigest())

        for op in seq:
            ctx.count("transitions")
            if op[0] == "start":
                live.append((make[op[1]](op[2]), hashlib.sha256(op[2]) if op[1].endswith("256") else hashlib.sha512(op[2])))
            elif op[0] == "update":
                if op[1] >= len(live):
                    return
                for x in live[op[1]]:
                    x.update(op[2])
            elif op[0] == "copy":
                if not live:
                    return
                live.append((live[0][0].copy(), live[0][1].copy()))
            else:
                d = op[1]
                if Utils.sha256(d) != hashlib.sha256(d).hexdigest().encode() or Utils.hash_data(d) != hashlib.sha256(d).hexdigest().encode() or \
                        Utils.sha512(d) != hashlib.sha512(d).hexdigest().encode() or keccak_hash(d) != ref.keccak(d) or keccak_hash_list([d, d]) != ref.keccak(d + d):
                    ctx.report("after %r the digest of %r is wrong" % (seq, d))
        bad = judge()
        if bad:
            lines = ["import hashlib", "from pymt.utils.utils import Utils", "live = []"]
            for op in seq:
                if op[0] == "start":
                    call = {"sha256": "Utils.sha256(%r, False)", "sha512": "Utils.sha512(%r, finalize=False)", "hash_data256": "Utils.hash_data(%r, False)", "hash_data512": "Utils.hash_data(%r, finalize=False, type='sha512')"}[op[1]] % op[2]
                    lines.append("live.append((%s, hashlib.%s(%r)))" % (call, "sha256" if op[1].endswith("256") else "sha512", op[2]))
                elif op[0] == "update":
                    lines.append("for x in live[%d]: x.update(%r)" % (op[1], op[2]))
                elif op[0] == "copy":
                    lines.append("live.append((live[0][0].copy(), live[0][1].copy()))")
            lines.append("for h, m in live: assert h.digest() == m.digest()")
            ctx.report("after %r %s" % (seq, bad), lines)
        else:
            ctx.count("traces_validated_against_impl")
        if len(seq) < depth and not bad:
            for op in ops:
                run(seq + [op])

    run([first])
    ctx.sample("sequences up to %d that begin with %r" % (depth, first))


def c31_errors(ctx):
    from pymt.utils.hash import keccak_hash, keccak_hash_list
    from pymt.utils.utils import Utils
    bad = [None, 1, "text", 1.5, ["x"], {}, "", True]
    tests = []
    for x in bad:
        tests += [("keccak_hash(%r)" % (x,), lambda x=x: keccak_hash(x)), ("keccak_hash_list([%r])" % (x,), lambda x=x: keccak_hash_list([b"a", x])),
                  ("Utils.hash_data(%r)" % (x,), lambda x=x: Utils.hash_data(x)), ("Utils.hash_data(%r, type='sha512')" % (x,), lambda x=x: Utils.hash_data(x, type="sha512")),
                  ("Utils.sha256(%r)" % (x,), lambda x=x: Utils.sha256(x)), ("Utils.sha512(%r)" % (x,), lambda x=x: Utils.sha512(x, False))]
    for ty in ("md5", "sha1", "SHA256", "sha-256", "", "sha3_256", "sha384", "sha2567", "sha", None, 256, "sha512 ", "sha224", "keccak", b"sha256"):
        for fin in (True, False):
            tests.append(("Utils.hash_data(b'x', %r, type=%r)" % (fin, ty), lambda ty=ty, fin=fin: Utils.hash_data(b"x", fin, type=ty)))
    for name, f in tests:
        ctx.count("transitions")
        ctx.count("states")
        if attempt(f)[0] == "ok":
            ctx.report("%s did not raise" % name, ["from pymt.utils.hash import keccak_hash, keccak_hash_list", "from pymt.utils.utils import Utils", "try: %s\nexcept Exception: pass\nelse: raise AssertionError" % name])
        ctx.count("traces_validated_against_impl")


def c31_big(ctx, lengths):
    """Very long inputs and very long lists (the reference is fed in pieces of 1000 bytes)."""
    from Crypto.Hash import keccak
    from pymt.utils.hash import keccak_hash, keccak_hash_list
    from pymt.utils.utils import Utils
    for n in lengths:
        d = bytes(i * 167 % 251 for i in range(997)) * (n // 997 + 1)
        d = d[:n]
        h = keccak.new(digest_bits=256)
        for i in range(0, n, 1000):
            h.update(d[i:i + 1000])
        k = h.digest()
        ctx.count("states")
        half, step = n // 2, max(1, n // 5000)
        s256, s512 = hashlib.sha256(d).hexdigest().encode(), hashlib.sha512(d).hexdigest().encode()
        head = ["from Crypto.Hash import keccak", "from pymt.utils.hash import keccak_hash, keccak_hash_list", "from pymt.utils.utils import Utils", "import hashlib", "n = %d" % n,
                "d = (bytes(i * 167 %% 251 for i in range(997)) * (n // 997 + 1))[:n]" .replace("%%", "%"), "h = keccak.new(digest_bits=256)", "for i in range(0, n, 1000): h.update(d[i:i + 1000])"]
        for what, f, want, line in (
                ("keccak_hash", lambda: keccak_hash(d), k, "keccak_hash(d) == h.digest()"), ("keccak_hash as hex", lambda: keccak_hash(d, True), k.hex().encode(), "keccak_hash(d, True) == h.hexdigest().encode()"),
                ("keccak_hash_list of one", lambda: keccak_hash_list([d]), k, "keccak_hash_list([d]) == h.digest()"),
                ("keccak_hash_list of two", lambda: keccak_hash_list([d[:half], d[half:]]), k, "keccak_hash_list([d[:n // 2], d[n // 2:]]) == h.digest()"),
                ("keccak_hash_list of %d" % len(range(0, n, step)), lambda: keccak_hash_list([d[i:i + step] for i in range(0, n, step)]), k, "keccak_hash_list([d[i:i + %d] for i in range(0, n, %d)]) == h.digest()" % (step, step)),
                ("sha256", lambda: Utils.sha256(d), s256, "Utils.sha256(d) == hashlib.sha256(d).hexdigest().encode()"), ("hash_data", lambda: Utils.hash_data(d), s256, "Utils.hash_data(d) == hashlib.sha256(d).hexdigest().encode()"),
                ("sha512", lambda: Utils.hash_data(d, type="sha512"), s512, "Utils.hash_data(d, type='sha512') == hashlib.sha512(d).hexdigest().encode()")):
            ctx.count("transitions")
            r = attempt(f)
            if r != ("ok", want):
                ctx.report("%s of %d bytes gives %r, expected %r" % (what, n, r, want), head + ["assert " + line])
        ctx.count("traces_validated_against_impl")


def c31_tasks(tier):
    th = tier == "thorough"
    big = [131071, 131072, 131073, 262145, 1 << 20, (1 << 20) + 1, (1 << 20) + 5, (3 << 20) + 1] + ([(1 << 24) + 1, (1 << 26) + 1] if th else [])
    return [("c31_big", dict(lengths=[n])) for n in big] + [("c31_digests", dict(part=p, parts=8, top=2200 if th else 1100)) for p in range(8)] + \
        [("c31_lists", dict(part=p, parts=8, n=14 if th else 12)) for p in range(8)] + [("c31_errors", {})] + \
        [("c31_unfinished", dict(depth=5 if th else 4, first=("start", n, d))) for n in ("sha256", "sha512", "hash_data256", "hash_data512") for d in (b"", b"ab")]
