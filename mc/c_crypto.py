"""C23 signatures, C24 sealed messages, C25 saved keys, C26 roles, C27 password encryption."""
import itertools
import json
import os
import random
import shutil
import tempfile
import time
from .fam import attempt

_KEYS = {}


def pair(cls_name, name):
    """A key pair object (1024 bit keys, made once per worker process and class)."""
    from pymt import keypairs
    k = (cls_name, name)
    if k not in _KEYS:
        o = getattr(keypairs, cls_name)(name, _generate_keys=False)
        o.generate_keypair(1024)
        _KEYS[k] = o
    return _KEYS[k]


def gen(name):
    return pair("RsaKeyPair", name)


def msg(n, salt=0):
    return bytes((i * 73 + n * 5 + salt * 11) % 256 for i in range(n))


def flip(b, bit):
    x = bytearray(b)
    x[bit // 8] ^= 1 << bit % 8
    return bytes(x)


SIGN_SRC = ["from pymt.keypairs import RsaKeyPair", "A = RsaKeyPair('A', _generate_keys=False)", "A.generate_keypair(1024)", "B = RsaKeyPair('B', _generate_keys=False)", "B.generate_keypair(1024)"]


def verdict(f, *a):
    """'true', 'false' or 'raised'."""
    r = attempt(f, *a)
    if r[0] != "ok":
        return "raised " + str(r[1])
    return {True: "true", False: "false"}.get(r[1], "returned %r" % (r[1],))


# ---------------------------------------------------------------- C23
def expect_sig(ctx, want, f, args, what, script=()):
    ctx.count("transitions")
    v = verdict(f, *args)
    if v != want:
        ctx.report("%s: %s, expected %s" % (what, v, want), SIGN_SRC + list(script) if script else None)
        return False
    return True


def c23_messages(ctx, part, parts):
    """Messages of every length, each with every small edit of the message."""
    A, B = gen("A"), gen("B")
    from pymt.keypairs import RsaKeyPair
    blank = RsaKeyPair("blank", _generate_keys=False)
    lens = list(range(0, 140)) + [255, 256, 257, 1000, 4095, 4096, 4097, 65536, 1 << 20, (1 << 20) + 7, 3 << 20]
    for n in lens[part::parts]:
        for m in (msg(n), bytes(n)):
            s = A.sign(m)
            ctx.count("states")
            src = ["m = %r" % (m if n < 200 else b"") + (" + bytes((i * 73 + %d) %% 256 for i in range(%d))" % (n * 5, n) if n >= 200 else ""), "s = A.sign(m)"]
            for name, f, a in (("the signer", A.signature_valid, (m, s)), ("the signer, key given", A.signature_valid, (m, s, A.public_key)), ("another pair, key given", B.signature_valid, (m, s, A.public_key)),
                               ("a pair without keys, key given", blank.signature_valid, (m, s, A.public_key)), ("the signer, later", A.signature_valid, (m, s))):
                expect_sig(ctx, "true", f, a, "own signature of a message of %d bytes checked by %s" % (n, name), src + ["assert A.signature_valid(m, s) and B.signature_valid(m, s, A.public_key)"])
            expect_sig(ctx, "false", B.signature_valid, (m, s), "foreign signature without naming the key (%d bytes)" % n, src + ["assert not B.signature_valid(m, s)"])
            expect_sig(ctx, "false", B.signature_valid, (m, s, B.public_key), "signature checked with another key (%d bytes)" % n, src + ["assert not B.signature_valid(m, s, B.public_key)"])
            expect_sig(ctx, "false", A.signature_valid, (m, s, B.public_key), "signature checked by the signer with another key (%d bytes)" % n, src + ["assert not A.signature_valid(m, s, B.public_key)"])
            edits = [m + b"\x00", b"\x00" + m, m + b"a", m + b" ", m + b"\n", m + m if n else b"\x00\x00", m.hex().encode() if n else b"00"]
            if n:
                edits += [m[:-1], m[1:], b""]
                pos = range(n) if n < 140 else [0, 1, 31, 32, 63, 64, 100, n // 2, n - 65, n - 2, n - 1]
                edits += [flip(m, 8 * i + (i + n) % 8) for i in pos]
                if n <= 12:
                    edits += [flip(m, b) for b in range(8 * n)]
                edits += [m[i:] + m[:i] for i in {1, n // 2, n - 1}] + [m[::-1]]
            for e in dict.fromkeys(edits):
                if e != m:
                    expect_sig(ctx, "false", A.signature_valid, (e, s), "signature of %r (%d bytes) checked for another message" % (m[:20], n), src + ["assert not A.signature_valid(%r, s)" % e] if n < 200 else ())
            ctx.count("traces_validated_against_impl")
    ctx.sample("message lengths %r..." % lens[part::parts][:6])


def c23_signatures(ctx, part, parts):
    """Every one-bit change, truncation and extension of signatures."""
    A, B = gen("A"), gen("B")
    from Crypto.PublicKey import RSA
    pub = RSA.import_key(A.public_key)
    n_mod = int(pub.n)
    for k, m in enumerate((b"", b"message", msg(200))):
        s, t = A.sign(m), B.sign(m)
        other = A.sign(m + b"!")
        ctx.count("states")
        edits = [flip(s, b) for b in range(len(s) * 8)] + [s[:i] for i in range(len(s))] + [s[i:] for i in range(1, len(s))]
        edits += [s + bytes([x]) for x in range(256)] + [bytes([x]) + s for x in range(256)] + [s + s, s[::-1], bytes(len(s)), b"\xff" * len(s), t, other, s[len(s) // 2:] + s[:len(s) // 2]]
        edits += [s.hex().encode(), s + bytes(16), bytes(16) + s, s[:-1] + t[-1:], t[:64] + s[64:], m, b""]
        v = int.from_bytes(s, "big")
        for x in (v + n_mod, n_mod - v, v + 2 * n_mod):
            for ln in (len(s), len(s) + 1):
                if x < 1 << 8 * ln:
                    edits.append(x.to_bytes(ln, "big"))
        for i, e in enumerate(dict.fromkeys(edits)):
            if i % parts == part and e != s:
                for f, a in ((A.signature_valid, (m, e)), (B.signature_valid, (m, e, A.public_key))):
                    expect_sig(ctx, "false", f, a, "altered signature %d of message %r" % (i, m[:10]), ["m = %r" % m, "s = A.sign(m)", "import itertools", "alt = [s[:-1], s[1:], s + b'\\0', b'\\0' + s, B.sign(m)] + [bytes(x ^ (1 << b if i == j else 0) for j, x in enumerate(s)) for i in range(len(s)) for b in range(8)]",
                                                                                                 "assert not any(A.signature_valid(m, e) for e in alt)"])
        for form in ("DER", "OpenSSH"):
            key = pub.export_key(format=form)
            expect_sig(ctx, "true", B.signature_valid, (m, s, bytes(key)), "the signer's key given as " + form)
        ctx.count("traces_validated_against_impl")


TRIMMED = (b"\x00", b" ", b"\n")


def trims(b):
    """What is left of a byte string if characters at its ends get lost, or are added."""
    out = [b[1:], b[:-1], b.strip(), b.strip(b"\x00"), b.lstrip(b"\x00"), b.rstrip(b"\x00"), b.lstrip(), b.rstrip()]
    out += [x + b for x in TRIMMED] + [b + x for x in TRIMMED] + [b"\x00" + b[1:] + b"\x00", b[1:] + b"\x00", b"\x00" + b[:-1]]
    return [x for x in dict.fromkeys(out) if x != b]


def c23_ends(ctx, where, ch):
    """Signatures that begin or end with a zero or white space, and what is left of them without it."""
    A, B = gen("A"), gen("B")
    for i in range(6000):
        m = b"message %d" % i
        s = A.sign(m)
        if s[where] == ch:
            break
    ctx.count("states")
    for f, a in ((A.signature_valid, (m, s)), (B.signature_valid, (m, s, A.public_key))):
        expect_sig(ctx, "true", f, a, "a signature with byte %d equal to %d" % (where, ch))
        for e in trims(s):
            expect_sig(ctx, "false", f, a[:1] + (e,) + a[2:], "a signature with byte %d equal to %d, altered at its ends (%d bytes of %d)" % (where, ch, len(e), len(s)),
                       ["for i in range(6000):", "    m = b'%d' % i", "    s = A.sign(m)", "    assert not (s[0] == 0 and A.signature_valid(m, s[1:]))", "    assert not (s[-1] in b'\\0 \\n' and A.signature_valid(m, s[:-1]))"])
    ctx.count("traces_validated_against_impl")


def c23_histories(ctx, first):
    """Every sequence of three questions and changes on the same objects."""
    from pymt.keypairs import RsaKeyPair
    A, B = RsaKeyPair("A", _generate_keys=False), RsaKeyPair("B", _generate_keys=False)
    m1, m2 = b"pay 1 to bert", b"pay 9 to bert"
    old = gen("old")
    s_old = old.sign(m1)
    keyA, keyB = gen("A"), gen("B")
    sA, sB, sA2 = keyA.sign(m1), keyB.sign(m1), keyA.sign(m2)
    pkA, pkB, pkO = keyA.public_key, keyB.public_key, old.public_key
    qs = [("A m1 sA", "true", lambda: keyA.signature_valid(m1, sA)), ("A m2 sA", "false", lambda: keyA.signature_valid(m2, sA)), ("A m1 sB", "false", lambda: keyA.signature_valid(m1, sB)),
          ("B m1 sA pkA", "true", lambda: keyB.signature_valid(m1, sA, pkA)), ("B m1 sA", "false", lambda: keyB.signature_valid(m1, sA)), ("A m2 sA2", "true", lambda: keyA.signature_valid(m2, sA2)),
          ("A m1 sA pkB", "false", lambda: keyA.signature_valid(m1, sA, pkB)), ("A m1 sB pkB", "true", lambda: keyA.signature_valid(m1, sB, pkB)), ("A m1 old", "false", lambda: keyA.signature_valid(m1, s_old)),
          ("B m2 sA2 pkA", "true", lambda: keyB.signature_valid(m2, sA2, pkA)), ("A m1 bad", "false", lambda: keyA.signature_valid(m1, sA[:-1])), ("sign A m1", None, lambda: keyA.sign(m1)),
          ("sign B m2", None, lambda: keyB.sign(m2)), ("rename A", None, lambda: setattr(keyA, "nickname", "other"))]
    for seq in itertools.product(range(len(qs)), repeat=2):
        seq = (first,) + seq
        ctx.count("states")
        for i in seq:
            name, want, f = qs[i]
            ctx.count("transitions")
            v = verdict(f)
            if want and v != want:
                ctx.report("in the sequence %s: %s, expected %s" % (" / ".join(qs[j][0] for j in seq), v, want))
                return
            if name == "sign A m1" and v != "returned %r" % sA and verdict(keyA.signature_valid, m1, f()) != "true":
                ctx.report("signing again gives an invalid signature")
        ctx.count("traces_validated_against_impl")
    if first == 0:
        A.generate_keypair(1024)
        s = A.sign(m1)
        expect_sig(ctx, "true", A.signature_valid, (m1, s), "before renewing the key")
        pk = A.public_key
        A.generate_keypair(1024)
        expect_sig(ctx, "false", A.signature_valid, (m1, s), "old signature after renewing the key")
        expect_sig(ctx, "true", A.signature_valid, (m1, s, pk), "old signature with the old key named")
        expect_sig(ctx, "true", A.signature_valid, (m1, A.sign(m1)), "new signature after renewing the key")
        for bad in (None, 1, "text", bytearray(b"x"), [b"x"]):
            for f in (lambda: keyA.sign(bad), lambda: keyA.signature_valid(bad, sA), lambda: keyA.signature_valid(m1, bad)):
                ctx.count("transitions")
                r = attempt(f)
                if r[0] == "ok" and r[1] is not False:
                    ctx.report("an argument of type %s was accepted: %r" % (type(bad).__name__, r[1]))
        for bad in (b"", b"garbage", pkA[:-40], sA):
            v = verdict(keyA.signature_valid, m1, sA, bad)
            if v == "true":
                ctx.report("a signature verifies under the public key %r" % bad)


SIZES = (1031, 1536, 2048, 3072, 4096)


def sized(bits, name="A", cls_name="RsaKeyPair"):
    from pymt import keypairs
    o = getattr(keypairs, cls_name)(name, _generate_keys=False)
    o.generate_keypair(bits) if bits != 4096 else o.generate_keypair()
    return o


def spread(b, step=1):
    """One-bit changes all over a byte string, cuts, and extensions of many lengths."""
    n = len(b)
    out = [flip(b, 8 * i + (i * 5) % 8) for i in range(0, n, step)] + [b[:i] for i in range(0, n, max(step, 7))] + [b[:n - 1], b[1:], b[n // 2:]]
    out += [b + bytes(k) for k in (1, 2, 3, 16, 64, 128, 256, 512, 1024, 4096)] + [b + x for x in (b"x", b"\n", b" ", b"\xff", b)] + [bytes(k) + b for k in (1, 2, 16, 128, 256)] + [b[::-1], bytes(n)]
    out += trims(b)
    return [x for x in dict.fromkeys(out) if x != b]


def c23_sized(ctx, bits):
    """Signatures of keys of other sizes."""
    A, B, small = sized(bits), gen("B"), gen("A")
    pk = A.public_key
    for m in (b"", b"message", msg(300), msg(5000)):
        s = A.sign(m)
        ctx.count("states")
        src = ["A = RsaKeyPair('A', _generate_keys=False)", "A.generate_keypair(%d)" % bits, "m = b'message'", "s = A.sign(m)"]
        for f, a in ((A.signature_valid, (m, s)), (A.signature_valid, (m, s, pk)), (B.signature_valid, (m, s, pk))):
            expect_sig(ctx, "true", f, a, "own signature with a key of %d bits" % bits, src + ["assert A.signature_valid(m, s) and B.signature_valid(m, s, A.public_key)"])
        for f, a in ((B.signature_valid, (m, s)), (A.signature_valid, (m, s, B.public_key)), (A.signature_valid, (m, small.sign(m))), (A.signature_valid, (m, s, small.public_key))):
            expect_sig(ctx, "false", f, a, "foreign key and a key of %d bits" % bits)
        for e in spread(s):
            for f, a in ((A.signature_valid, (m, e)), (B.signature_valid, (m, e, pk))):
                expect_sig(ctx, "false", f, a, "altered signature (%d bytes of %d) of a key of %d bits" % (len(e), len(s), bits),
                           src + ["for e in (s + b'x', s[:-1], s[1:], b'\\0' + s, s + bytes(16), s[:-1] + bytes([s[-1] ^ 1])): assert not A.signature_valid(m, e), e"])
        for e in (m + b"x", b"x" + m, m[:-1] if m else b"y", m[::-1] if len(m) > 1 else b"z"):
            expect_sig(ctx, "false", A.signature_valid, (e, s), "another message and a key of %d bits" % bits)
        ctx.count("traces_validated_against_impl")


def damaged_keys(pub):
    """A public key with every character and every bit changed, cut at every place, in PEM, DER and OpenSSH form; those that still are the same key left out."""
    from Crypto.PublicKey import RSA
    k = RSA.import_key(pub)
    out = []
    for b in (pub, k.export_key("DER"), k.export_key("OpenSSH")):
        out += [b[:i] for i in range(len(b))] + [b[i:] for i in range(1, len(b))] + [flip(b, i) for i in range(8 * len(b))] + [b[:i] + b[i + 1:] for i in range(len(b))]
        if b != pub:
            out += [b + b]
    out += [b" ", b"-", pub.split(b"\n")[0], b"".join(pub.split(b"\n")[1:-1])]
    for e in out:
        try:
            same = RSA.import_key(e) == k
        except Exception:
            same = False
        if not same:
            yield e


def c23_keys(ctx, part, parts):
    """Damaged public keys: a signature verifies under none of them."""
    A = gen("A")
    m = b"message"
    s = A.sign(m)
    for i, e in enumerate(damaged_keys(A.public_key)):
        if i % parts != part:
            continue
        ctx.count("transitions")
        ctx.count("states")
        if verdict(A.signature_valid, m, s, e) == "true":
            ctx.report("a signature verifies under a damaged public key %r" % e, SIGN_SRC + ["m = b'message'", "s = A.sign(m)", "# the key was damaged like this: %r" % e, "try: r = A.signature_valid(m, s, b'garbage')", "except Exception: r = False", "assert not r"])
    if verdict(A.signature_valid, m, s, A.public_key) != "true":
        ctx.report("the signature no longer verifies")
    ctx.count("traces_validated_against_impl")


def c23_tasks(tier):
    th = tier == "thorough"
    return [("c23_sized", dict(bits=b)) for b in SIZES + ((8192,) if th else ())] + [("c23_messages", dict(part=p, parts=16)) for p in range(16)] + [("c23_signatures", dict(part=p, parts=8)) for p in range(8)] + [("c23_histories", dict(first=i)) for i in range(14)] + \
        [("c23_ends", dict(where=w, ch=c)) for w in (0, -1) for c in (0, 10, 32)] + [("c23_keys", dict(part=p, parts=8)) for p in range(8)]


# ---------------------------------------------------------------- C24
FIELDS = ["enc_session_key", "nonce", "tag", "ciphertext", "signature"]
SEAL_SRC = SIGN_SRC + ["import json", "m = A.encrypt(b'hello', B.public_key)"]


def parsed(data):
    """The five fields of a sealed message, or None."""
    try:
        d = json.loads(data.decode())
        return tuple(bytes.fromhex(d[f]) for f in FIELDS)
    except Exception:
        return None


def opens(ctx, who, data, sender_pk):
    ctx.count("transitions")
    return attempt(who.decrypt, data, sender_pk)


def must_fail(ctx, who, data, sender_pk, what, script=(), key=None):
    r = opens(ctx, who, data, sender_pk)
    if r[0] == "ok":
        ctx.report("%s: opened to %r" % (what, r[1]), SEAL_SRC + list(script) if script else None, key)
        return False
    ctx.count("refused")
    return True


def fail_line(expr):
    return ["d = json.loads(m.decode())", expr, "try: r = B.decrypt(json.dumps(d).encode(), A.public_key)\nexcept Exception: pass\nelse: raise AssertionError(r)"]


def c24_roundtrip(ctx, part, parts):
    ks = [gen(x) for x in "ABC"]
    lens = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 300000, 1 << 20, (1 << 20) + 5]
    for n in lens[part::parts]:
        for m in (msg(n), bytes(n)):
            for a, b in itertools.product(ks, ks) if n < 20 or n == 256 else [(ks[n % 3], ks[(n + 1) % 3])]:
                ctx.count("states")
                e = attempt(a.encrypt, m, b.public_key)
                if e[0] != "ok":
                    ctx.report("encrypting %d bytes raised %s" % (n, e[1]))
                    continue
                for rep in range(2):
                    r = opens(ctx, b, e[1], a.public_key)
                    if r != ("ok", m):
                        ctx.report("a message of %d bytes sealed by %s for %s opens to %r" % (n, a.nickname, b.nickname, r if n < 100 else r[0]),
                                   SIGN_SRC + ["x = bytes((i * 73 + %d) %% 256 for i in range(%d))" % (n * 5, n), "assert B.decrypt(A.encrypt(x, B.public_key), A.public_key) == x"])
                for o in ks:
                    if o is not b:
                        must_fail(ctx, o, e[1], a.public_key, "opened by another key pair (%d bytes)" % n, ["try: r = A.decrypt(m, A.public_key)\nexcept Exception: pass\nelse: raise AssertionError(r)"])
                    if o is not a:
                        must_fail(ctx, b, e[1], o.public_key, "opened naming another sender (%d bytes)" % n, ["try: r = B.decrypt(m, B.public_key)\nexcept Exception: pass\nelse: raise AssertionError(r)"])
                ctx.count("traces_validated_against_impl")
    ctx.sample("lengths %r" % lens[part::parts][:8])


def c24_damage(ctx, n, part, parts):
    """Every one-bit change, every truncation and every menu edit of every field."""
    A, B = gen("A"), gen("B")
    m = A.encrypt(msg(n), B.public_key)
    d = json.loads(m.decode())
    other = json.loads(A.encrypt(msg(n, 1), B.public_key).decode())
    same = json.loads(A.encrypt(msg(n), B.public_key).decode())
    back = json.loads(B.encrypt(msg(n), A.public_key).decode())
    fields = parsed(m)
    ctx.count("states")
    if fields is None or set(d) != set(FIELDS):
        # another container: only the container itself can be damaged
        for i in range(part, len(m) * 8, parts):
            r = opens(ctx, B, flip(m, i), A.public_key)
            if r[0] == "ok" and r[1] != msg(n):
                ctx.report("a damaged message opened to %r" % (r[1],))
        return
    num = 0
    for f, raw in zip(FIELDS, fields):
        edits = [("bit %d flipped" % b, flip(raw, b)) for b in range(len(raw) * 8)] + [("cut to %d" % i, raw[:i]) for i in range(len(raw))] + [("head of %d cut" % i, raw[i:]) for i in range(1, len(raw))]
        edits += [("extended", raw + bytes([x])) for x in (0, 1, 255)] + [("extended", bytes([x]) + raw) for x in (0, 1, 255)] + [("doubled", raw + raw), ("reversed", raw[::-1]), ("zeroed", bytes(len(raw))), ("16 bytes added", raw + bytes(16))]
        if len(raw) >= 32:
            edits += [("blocks exchanged", raw[16:32] + raw[:16] + raw[32:])]
        edits += [("of another message", bytes.fromhex(x[f])) for x in (other, same, back)]
        edits += [("of field " + g, y) for g, y in zip(FIELDS, fields) if g != f]
        for what, e in edits:
            num += 1
            if num % parts != part or e == raw:
                continue
            must_fail(ctx, B, json.dumps(dict(d, **{f: e.hex()})).encode(), A.public_key, "field %s %s (message of %d bytes)" % (f, what, n),
                      fail_line("d[%r] = %s" % (f, "''" if not e else "('%%0%dx' %% (int(d[%r], 16) ^ 1))" % (2 * len(raw), f) if len(e) == len(raw) else "d[%r][:%d]" % (f, 2 * len(e)))))
        for what, v in [("null", None), ("number", 1), ("list", [d[f]]), ("not hex", "zz"), ("odd", d[f][:-1] if d[f] else "0"), ("object", {}), ("true", True)]:
            num += 1
            if num % parts == part:
                must_fail(ctx, B, json.dumps(dict(d, **{f: v})).encode(), A.public_key, "field %s: %s" % (f, what))
        num += 1
        if num % parts == part:
            x = dict(d)
            del x[f]
            must_fail(ctx, B, json.dumps(x).encode(), A.public_key, "field %s removed" % f, fail_line("del d[%r]" % f))
        for g in FIELDS:
            num += 1
            if g < f and num % parts == part and d[f] != d[g]:
                must_fail(ctx, B, json.dumps(dict(d, **{f: d[g], g: d[f]})).encode(), A.public_key, "fields %s and %s exchanged" % (f, g), fail_line("d[%r], d[%r] = d[%r], d[%r]" % (f, g, g, f)))
    for i in range(part, len(m), parts):          # the text itself
        must_fail(ctx, B, m[:i], A.public_key, "cut at %d" % i, ["try: r = B.decrypt(m[:%d], A.public_key)\nexcept Exception: pass\nelse: raise AssertionError(r)" % i])
        for x in (1, 2, 0x20, 0x80):
            y = m[:i] + bytes([m[i] ^ x]) + m[i + 1:]
            r = opens(ctx, B, y, A.public_key)
            if r[0] == "ok" and (parsed(y) != fields or r[1] != msg(n)):
                ctx.report("a message with byte %d changed opened to %r" % (i, r[1]), SEAL_SRC + ["d = json.loads(m.decode())"])
    if part == 0:
        for x in (b"\0", b"x", b"trailing", b"}", b"{}", b"null", b",", b"\xff", m, m[:-1], m[-1:], m[1:]):
            for y in (m + x, x + m, m + b" " + x, x + b"\n" + m):
                must_fail(ctx, B, y, A.public_key, "%d bytes put at an end" % len(x), ["try: r = B.decrypt(m + b'trailing', A.public_key)\nexcept Exception: pass\nelse: raise AssertionError(r)"] if y == m + b"trailing" else ())
        for x in (b"", b"null", b"[]", b"{}", b"1", m[1:], json.dumps(list(d.values())).encode(), json.dumps([d]).encode(), b"\xff" + m, None, 1, m.decode(), d):
            must_fail(ctx, B, x, A.public_key, "other content")
        for pk in (b"", b"x", None, A.public_key.decode(), A.public_key[:-30], m):
            must_fail(ctx, B, m, pk, "sender key %r" % (pk,))
            ctx.count("transitions")
            if pk != m and attempt(A.encrypt, b"x", pk)[0] == "ok":
                ctx.report("a message was sealed for the public key %r" % (pk,))
        for x in (None, 1, "t", bytearray(b"x")):
            ctx.count("transitions")
            if attempt(A.encrypt, x, B.public_key)[0] == "ok":
                ctx.report("data of type %s was sealed" % type(x).__name__)
    if opens(ctx, B, m, A.public_key) != ("ok", msg(n)):
        ctx.report("the intact message no longer opens after failed attempts")
    ctx.count("traces_validated_against_impl")
    ctx.sample("fields of lengths %r" % [len(x) for x in fields])


def c24_mix(ctx, n1, n2, first):
    """Every way to put a message together from the fields of four messages."""
    A, B, C = gen("A"), gen("B"), gen("C")
    srcs = [(A, msg(n1)), (A, msg(n2, 1)), (C, msg(n1)), (A, msg(n1))]
    ms = [parsed(s.encrypt(x, B.public_key)) for s, x in srcs]
    if None in ms:
        return
    for combo in itertools.product(range(4), repeat=4):
        combo = (first,) + combo
        ctx.count("states")
        f = tuple(ms[c][i] for i, c in enumerate(combo))
        data = json.dumps({k: v.hex() for k, v in zip(FIELDS, f)}).encode()
        for who, pk in ((A, A.public_key), (C, C.public_key)):
            ok = [x for (s, x), m in zip(srcs, ms) if s is who and m == f]
            r = opens(ctx, B, data, pk)
            if ok and r != ("ok", ok[0]):
                ctx.report("an intact message does not open: %r" % (r,))
            if not ok and r[0] == "ok":
                ctx.report("fields of different messages %r opened to %r" % (combo, r[1]))
        ctx.count("traces_validated_against_impl")


def c24_reseal(ctx):
    """Someone without the sender's key puts the signed ciphertext under a session key of their own."""
    from Crypto.Cipher import AES, PKCS1_OAEP
    from Crypto.PublicKey import RSA
    A, B, C = gen("A"), gen("B"), gen("C")
    ctx.count("states")
    for n in (0, 1, 40):
        d = json.loads(A.encrypt(msg(n), B.public_key).decode())
        if set(d) != set(FIELDS):
            return
        ct = bytes.fromhex(d["ciphertext"])
        sk = b"k" * 16
        ciph = AES.new(sk, AES.MODE_EAX, b"n" * 16)
        plain = ciph.decrypt(ct)
        ciph = AES.new(sk, AES.MODE_EAX, b"n" * 16)
        ct2, tag = ciph.encrypt_and_digest(plain)
        if ct2 != ct:
            return
        for who in (B, C):
            esk = PKCS1_OAEP.new(RSA.import_key(who.public_key)).encrypt(sk)
            x = dict(d, enc_session_key=esk.hex(), nonce=(b"n" * 16).hex(), tag=tag.hex())
            must_fail(ctx, who, json.dumps(x).encode(), A.public_key, "session key, nonce and tag replaced by fitting ones (message of %d bytes)" % n)
    ctx.count("traces_validated_against_impl")


def c24_ends(ctx, field, where):
    """Messages one of whose fields begins or ends with zero, and what is left of the field without it."""
    A, B = gen("A"), gen("B")
    for i in range(3000):
        m = A.encrypt(msg(20, i), B.public_key)
        f = parsed(m)
        if f is None:
            return
        if f[field][where] == 0:
            break
    ctx.count("states")
    if opens(ctx, B, m, A.public_key) != ("ok", msg(20, i)):
        ctx.report("a message whose field %s has a zero at %d does not open" % (FIELDS[field], where))
    d = json.loads(m.decode())
    for e in trims(f[field]):
        must_fail(ctx, B, json.dumps(dict(d, **{FIELDS[field]: e.hex()})).encode(), A.public_key, "field %s, which has a zero at %d, altered at its ends" % (FIELDS[field], where))
    ctx.count("traces_validated_against_impl")


def c24_sized(ctx, bits):
    """Messages between keys of different sizes."""
    A, B, big = gen("A"), gen("B"), sized(bits, "big")
    for a, b in ((A, big), (big, A), (big, big)):
        for n in (0, 1, 16, 1000):
            m = a.encrypt(msg(n), b.public_key)
            ctx.count("states")
            if opens(ctx, b, m, a.public_key) != ("ok", msg(n)):
                ctx.report("a message of %d bytes from a key of %d bits for a key of %d bits does not open" % (n, bits if a is big else 1024, bits if b is big else 1024))
                continue
            for o in (A, B, big):
                if o is not b:
                    must_fail(ctx, o, m, a.public_key, "opened by another key pair")
                if o is not a:
                    must_fail(ctx, b, m, o.public_key, "opened naming another sender")
            fields = parsed(m)
            if fields is None or n == 1000:
                continue
            d = json.loads(m.decode())
            for f, raw in zip(FIELDS, fields):
                for e in spread(raw, max(1, len(raw) // 40)):
                    must_fail(ctx, b, json.dumps(dict(d, **{f: e.hex()})).encode(), a.public_key, "field %s altered (%d bytes of %d), keys of %d and %d bits" % (f, len(e), len(raw), bits if a is big else 1024, bits if b is big else 1024))
            ctx.count("traces_validated_against_impl")


def c24_keys(ctx, part, parts):
    """A sealed message opens for no damaged sender key."""
    A, B = gen("A"), gen("B")
    c = A.encrypt(b"hello", B.public_key)
    for i, e in enumerate(damaged_keys(A.public_key)):
        if i % parts != part:
            continue
        ctx.count("transitions")
        ctx.count("states")
        r = attempt(B.decrypt, c, e)
        if r[0] == "ok":
            ctx.report("a sealed message opens (to %r) when the sender's public key is given as %r" % (r[1], e), SIGN_SRC + ["c = A.encrypt(b'hello', B.public_key)", "# the key was damaged like this: %r" % e, "try: r = B.decrypt(c, b'garbage')", "except Exception: r = None", "assert r is None"])
    if attempt(B.decrypt, c, A.public_key) != ("ok", b"hello"):
        ctx.report("the sealed message no longer opens")
    ctx.count("traces_validated_against_impl")


def c24_tasks(tier):
    th = tier == "thorough"
    out = [("c24_roundtrip", dict(part=p, parts=16)) for p in range(16)]
    out += [("c24_damage", dict(n=n, part=p, parts=8)) for n in ((0, 1, 5, 16, 33, 64, 200) if th else (0, 5, 33)) for p in range(8)]
    out += [("c24_mix", dict(n1=a, n2=b, first=f)) for a, b in ((5, 7), (0, 0), (0, 9)) for f in range(4)]
    out.append(("c24_reseal", {}))
    out += [("c24_sized", dict(bits=b)) for b in SIZES + ((8192,) if th else ())]
    out += [("c24_ends", dict(field=f, where=w)) for f in range(5) for w in (0, -1)]
    out += [("c24_keys", dict(part=p, parts=8)) for p in range(8)]
    return out


# ---------------------------------------------------------------- C25
PASSES = ["pw", "pW", "pw ", " pw", "p", "pwpw", "p\x00w", "x" * 16, "x" * 17, "x" * 64, "x" * 65, "x" * 200, "x" * 201, "äöü", "aou", "1", "pw\n"]
WRONG = ["", "PW", "wp", "x", "x" * 63, "p w"]


def check_loaded(ctx, o, cls_name, name, orig, what):
    """The loaded object is the saved key pair."""
    other = gen("Z")
    bad = None
    if type(o).__name__ != cls_name:
        bad = "kind is %s" % type(o).__name__
    elif name is not None and o.nickname != name:
        bad = "name is %r, expected %r" % (o.nickname, name)
    elif o.public_key != orig.public_key:
        bad = "the public key differs"
    elif name is not None and cls_name == type(orig).__name__ and not (o == orig and hash(o) == hash(orig)):
        bad = "it is not equal to the saved one"
    else:
        ctx.count("transitions", 2)
        if cls_name != "RsaEncKeyPair":
            s = attempt(o.sign, b"data")
            if s[0] != "ok" or not other.signature_valid(b"data", s[1], orig.public_key):
                bad = "its signatures do not verify"
        if not bad and cls_name != "RsaAuthKeyPair":
            e = other.encrypt(b"secret", orig.public_key)
            if attempt(o.decrypt, e, other.public_key) != ("ok", b"secret"):
                bad = "it does not open messages for the key"
    if bad:
        ctx.report("%s: %s" % (what, bad))
        return False
    return True


def readable(blob, orig):
    """Private material of the key pair visible in the saved text."""
    from Crypto.PublicKey import RSA
    text = blob if isinstance(blob, str) else blob.decode()
    try:
        d = json.loads(text)
        raw = bytes.fromhex(d["private_key"])
    except Exception:
        raw = text.encode()
    try:
        RSA.import_key(raw)
        return "the private key can be read without passphrase"
    except Exception:
        pass
    if b"BEGIN RSA PRIVATE KEY" in raw and b"ENCRYPTED" not in raw:
        return "the private key is stored in clear"
    k = getattr(orig, "_key_pair", None)
    if k is not None and hasattr(k, "d"):
        for v in (int(k.d), int(k.p), int(k.q)):
            b = v.to_bytes((v.bit_length() + 7) // 8, "big")
            for hay in (raw, text.encode()):
                if b in hay or b.hex().encode() in hay.lower() or str(v).encode() in hay:
                    return "a private number is stored in clear"
    return None


def c25_pairs(ctx, i):
    """Save with one passphrase; load with every passphrase; by string and by file, for every class and several names."""
    from pymt import keypairs
    p = PASSES[i]
    cls_name = ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"][i % 3]
    cls = getattr(keypairs, cls_name)
    orig = pair(cls_name, ["A", "", "näme \"quoted\"\n", "n" * 300][i % 4])
    tmp = tempfile.mkdtemp(prefix="c25")
    try:
        path = os.path.join(tmp, "key.json")
        ctx.count("states")
        s = orig.to_key_string(p)
        orig.to_key_file(path, p)
        for what, blob in (("string", s), ("file", open(path).read())):
            r = readable(blob, orig)
            if r:
                ctx.report("saved with passphrase %r to a %s: %s" % (p, what, r))
        for q in dict.fromkeys(PASSES + WRONG):
            for how, f in (("string", lambda: cls.from_key_string(s, q)), ("file", lambda: cls.from_key_file(path, q))):
                if how == "file" and q != p and (len(q) + i) % 4:
                    continue
                ctx.count("transitions")
                r = attempt(f)
                if q == p:
                    if r[0] != "ok":
                        ctx.report("loading the key from a %s with its passphrase %r raised %s" % (how, p, r[1]),
                                   SIGN_SRC + ["A.nickname = %r" % orig.nickname, "assert RsaKeyPair.from_key_string(A.to_key_string(%r), %r) == A" % (p, p)])
                    else:
                        check_loaded(ctx, r[1], cls_name, orig.nickname, orig, "key loaded from a " + how)
                elif r[0] == "ok":
                    ctx.report("a key saved with passphrase %r was loaded with %r (%s)" % (p, q, how),
                               SIGN_SRC + ["s = A.to_key_string(%r)" % p, "try: RsaKeyPair.from_key_string(s, %r)\nexcept Exception: pass\nelse: raise AssertionError" % q])
        # generations: save the loaded key again under another passphrase, into the same file
        o = attempt(cls.from_key_file, path, p)
        if o[0] == "ok":
            p2 = PASSES[(i + 1) % len(PASSES)]
            o[1].to_key_file(path, p2)
            r = attempt(cls.from_key_file, path, p2)
            ctx.count("transitions", 2)
            if r[0] != "ok":
                ctx.report("saving a loaded key under another passphrase and loading it raised " + r[1])
            else:
                check_loaded(ctx, r[1], cls_name, orig.nickname, orig, "key saved twice")
            if attempt(cls.from_key_file, path, p)[0] == "ok":
                ctx.report("the old passphrase still opens the key file after saving with another one")
        for bad in (None, 1, b"pw", ["pw"]):
            for f in (lambda: orig.to_key_string(bad), lambda: cls.from_key_string(s, bad), lambda: cls.from_key_file(path, bad), lambda: orig.to_key_file(os.path.join(tmp, "x"), bad),
                      lambda: cls.from_key_string(bad, p), lambda: cls.from_key_file(bad, p), lambda: orig.to_key_file(bad, p)):
                ctx.count("transitions")
                if attempt(f)[0] == "ok":
                    ctx.report("an argument of type %s was accepted" % type(bad).__name__)
        for f in (os.path.join(tmp, "missing"), tmp, ""):
            if attempt(cls.from_key_file, f, p)[0] == "ok":
                ctx.report("a key was loaded from the missing file %r" % f)
        ctx.count("traces_validated_against_impl")
        ctx.sample("passphrase %r against %d others" % (p, len(PASSES + WRONG) - 1))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c25_histories(ctx, cls_name, first, depth):
    """Every sequence of renaming, new keys, saving and loading on one object; each save holds the object of that moment."""
    from pymt import keypairs
    cls = getattr(keypairs, cls_name)
    tmp = tempfile.mkdtemp(prefix="c25h")
    path = os.path.join(tmp, "key")
    ops = ["name A", "name B", "string pw", "string other", "file pw", "load", "new keys", "ask"]

    def play(seq):
        o = cls("A", _generate_keys=False)
        o.generate_keypair(1024)
        saved = []
        files = None
        for op in seq:
            ctx.count("transitions")
            if op.startswith("name"):
                o.nickname = op[5:]
            elif op == "new keys":
                o.generate_keypair(1024)
            elif op.startswith("string"):
                saved.append((o.to_key_string(op[7:]), op[7:], o.nickname, o.public_key))
            elif op == "file pw":
                o.to_key_file(path, "pw")
                files = (o.nickname, o.public_key)
            elif op == "load":
                if not saved:
                    return None
                text, pw, name, pk = saved[-1]
                o = cls.from_key_string(text, pw)
                if (o.nickname, o.public_key) != (name, pk):
                    return "the string saved with %r loads to %r, saved was %r" % (pw, o.nickname, name)
            else:
                attempt(str, o), attempt(hash, o), attempt(lambda: o == o), attempt(o.sign, b"x")
        for text, pw, name, pk in saved:
            r = attempt(cls.from_key_string, text, pw)
            if r[0] != "ok" or (r[1].nickname, r[1].public_key) != (name, pk):
                return "the string saved with %r loads to %r, saved was %r (public keys equal: %s)" % (pw, r[1] if r[0] != "ok" else r[1].nickname, name, r[0] == "ok" and r[1].public_key == pk)
            wrong = "pw" if pw == "other" else "other"
            if attempt(cls.from_key_string, text, wrong)[0] == "ok":
                return "the string saved with %r loads with %r" % (pw, wrong)
        if files:
            r = attempt(cls.from_key_file, path, "pw")
            if r[0] != "ok" or (r[1].nickname, r[1].public_key) != files:
                return "the file loads to %r, saved was %r" % (r[1] if r[0] != "ok" else (r[1].nickname, r[1].public_key == files[1]), files[0])
        return None

    try:
        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
            seq = [ops[i] for i in (first,) + rest]
            saves = [i for i, x in enumerate(seq) if x[0] in "sf"]
            if not saves or seq.count("new keys") > 1 or seq.count("ask") > 1 or seq[-1] in ("ask", "new keys", "name A", "name B") or any(a == b for a, b in zip(seq, seq[1:]) if a[0] in "nl"):
                continue
            ctx.count("states")
            e = play(seq)
            ctx.count("traces_validated_against_impl")
            if e:
                ctx.report("%s\nafter %s on a %s" % (e, ", ".join(seq), cls_name))
                return
        ctx.sample("%s: all sequences of %d operations that begin with %r" % (cls_name, depth, ops[first]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c25_overwrite(ctx, cls_name):
    """Saving to a file that holds something else already."""
    from pymt import keypairs
    cls = getattr(keypairs, cls_name)
    tmp = tempfile.mkdtemp(prefix="c25o")
    try:
        names = ["A", "", "n" * 5000, "name\n"]
        before = [None, b"", b"x", b"x" * 20000, b"{}" * 3000, b"\xff\xfe" * 4000, b"\x00" * 9000] + names
        for i, old in enumerate(before):
            for name in names:
                path = os.path.join(tmp, "key%d" % i)
                orig = pair(cls_name, name)
                ctx.count("states")
                if isinstance(old, bytes):
                    with open(path, "wb") as f:
                        f.write(old)
                elif old is not None:
                    pair(cls_name, old).to_key_file(path, "old")
                ctx.count("transitions")
                r = attempt(orig.to_key_file, path, "pw")
                if r[0] != "ok":
                    ctx.report("saving to a file that holds %r raised %s" % (old if old is None else old[:10], r[1]))
                    continue
                r = attempt(cls.from_key_file, path, "pw")
                if r[0] != "ok":
                    ctx.report("a key saved to a file that held %r (%d long) does not load: %s" % (old if old is None else old[:10], len(old or ""), r[1]), SIGN_SRC + ["import tempfile, os", "p = os.path.join(tempfile.mkdtemp(), 'k')", "open(p, 'w').write('x' * 20000)", "A.to_key_file(p, 'pw')", "assert RsaKeyPair.from_key_file(p, 'pw') == A"])
                    continue
                check_loaded(ctx, r[1], cls_name, name, orig, "key saved over other content")
                if attempt(cls.from_key_file, path, "old")[0] == "ok":
                    ctx.report("the overwritten key still opens")
                ctx.count("traces_validated_against_impl")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c25_clear(ctx):
    """The empty passphrase is refused, or the key saved with it loads back."""
    from pymt import keypairs
    for cls_name in ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"):
        orig = pair(cls_name, "A")
        cls = getattr(keypairs, cls_name)
        ctx.count("states")
        ctx.count("transitions", 2)
        e = attempt(orig.to_key_string, "")
        if e[0] == "ok":
            r = attempt(cls.from_key_string, e[1], "")
            if r[0] != "ok":
                ctx.report("loading a key saved with the empty passphrase raised " + r[1])
            else:
                check_loaded(ctx, r[1], cls_name, "A", orig, "key saved with the empty passphrase")
        ctx.count("traces_validated_against_impl")


def json_ok(text):
    try:
        return json.loads(text)
    except Exception:
        return None


def c25_damage(ctx, passphrase, part, parts, bits, as_file):
    """Saved data cut at every place, every character changed, every field removed or exchanged."""
    from pymt.keypairs import RsaKeyPair
    orig, other = gen("A"), gen("B")
    text = orig.to_key_string(passphrase)
    o2 = other.to_key_string(passphrase)
    tmp = tempfile.mkdtemp(prefix="c25d")
    path = os.path.join(tmp, "key")

    def load(x):
        ctx.count("transitions")
        if as_file:
            with open(path, "w", errors="surrogatepass") as f:
                f.write(x)
            return attempt(RsaKeyPair.from_key_file, path, passphrase)
        return attempt(RsaKeyPair.from_key_string, x, passphrase)

    def damaged(x, what, loss=False):
        r = load(x)
        if r[0] == "raised":
            ctx.count("refused")
            return
        ctx.count("loaded")
        d = json_ok(x)
        if loss:
            ctx.report("damaged data (%s) was loaded" % what, SIGN_SRC + ["s = A.to_key_string(%r)" % passphrase])
            return
        same_name = isinstance(d, dict) and d.get("nickname") == orig.nickname
        check_loaded(ctx, r[1], "RsaKeyPair", orig.nickname if same_name else None, orig, "damaged data (%s) was loaded" % what)

    try:
        ctx.count("states")
        d = json_ok(text)
        cuts = range(len(text)) if bits > 1 else list(range(0, len(text), 3)) + [len(text) - 1, len(text) - 2]
        for n, i in enumerate(cuts):
            if n % parts == part:
                damaged(text[:i], "cut at %d" % i, loss=True)
        for i in range(part, len(text), parts):
            for b in range(bits):
                damaged(text[:i] + chr(ord(text[i]) ^ (1 << (b + i) % 7)) + text[i + 1:], "character %d changed" % i)
            if i % 5 == part % 5:
                damaged(text[:i] + text[i + 1:], "character %d lost" % i)
        if part == 0 and isinstance(d, dict) and {"nickname", "private_key"} <= set(d):
            for f in ("nickname", "private_key"):
                x = dict(d)
                del x[f]
                damaged(json.dumps(x), "field %s lost" % f, loss=True)
            e = json_ok(o2)
            damaged(json.dumps(dict(d, private_key=e["private_key"])), "private key of another pair")
            from Crypto.PublicKey import RSA
            clear = RSA.generate(1024)
            damaged(json.dumps(dict(d, private_key=clear.export_key().hex())), "private key in clear of another pair")
            raw = bytes.fromhex(d["private_key"]) if isinstance(d["private_key"], str) else b""
            for what, y in [("empty", b""), ("half", raw[:len(raw) // 2]), ("tail", raw[len(raw) // 2:]), ("reversed", raw[::-1]), ("public key", orig.public_key), ("zero", bytes(len(raw)))]:
                damaged(json.dumps(dict(d, private_key=y.hex())), "private key " + what)
            for v in (None, 1, [], "zz", d["private_key"][:-1]):
                damaged(json.dumps(dict(d, private_key=v)), "private key %r" % (v if not isinstance(v, str) else v[-5:],))
            for x in ("", "null", "[]", "{}", "1", json.dumps(text), json.dumps([d]), text + "}", "x" + text):
                damaged(x, "other content", loss=True)
        r = load(text)
        if r[0] != "ok":
            ctx.report("the intact data no longer loads: " + r[1])
        ctx.count("traces_validated_against_impl")
        ctx.sample("damage of %d characters, passphrase %r, file %r" % (len(text), passphrase, as_file))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c25_sized(ctx, bits):
    """Keys of other sizes, saved and loaded."""
    from pymt import keypairs
    for cls_name in ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"):
        cls = getattr(keypairs, cls_name)
        o = sized(bits, "name %d" % bits, cls_name)
        ctx.count("states")
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "key")
            o.to_key_file(path, "pass")
            text = open(path).read()
            for what, f in (("string", lambda p: cls.from_key_string(o.to_key_string("pass"), p)), ("file", lambda p: cls.from_key_file(path, p))):
                ctx.count("transitions", 3)
                r = attempt(f, "pass")
                if r[0] != "ok":
                    ctx.report("loading a key of %d bits saved to a %s raised %s" % (bits, what, r[1]))
                else:
                    check_loaded(ctx, r[1], cls_name, o.nickname, o, "a key of %d bits loaded from a %s" % (bits, what))
                for p in ("", "Pass", "pas", "pass "):
                    if attempt(f, p)[0] == "ok":
                        ctx.report("a key of %d bits saved to a %s loads with the passphrase %r" % (bits, what, p))
            for blob in (text, o.to_key_string("pass")):
                w = readable(blob, o)
                if w:
                    ctx.report("a key of %d bits: %s" % (bits, w))
                for i in range(0, len(blob), max(1, len(blob) // 30)):
                    ctx.count("transitions")
                    r = attempt(cls.from_key_string, blob[:i], "pass")
                    if r[0] == "ok":
                        ctx.report("a saved key of %d bits cut to %d of %d characters loads" % (bits, i, len(blob)))
        ctx.count("traces_validated_against_impl")


def c25_tasks(tier):
    th = tier == "thorough"
    out = [("c25_pairs", dict(i=i)) for i in range(len(PASSES))] + [("c25_clear", {})] + [("c25_overwrite", dict(cls_name=c)) for c in ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair")]
    for i, c in enumerate(("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair")):
        out += [("c25_histories", dict(cls_name=c, first=f, depth=3 if not th else 5 if i == 0 else 4)) for f in range(8)]
    out += [("c25_sized", dict(bits=b)) for b in SIZES + ((8192,) if th else ())]
    out += [("c25_damage", dict(passphrase="pw", part=p, parts=32, bits=3 if th else 1, as_file=bool(p % 2))) for p in range(32)]
    return out


# ---------------------------------------------------------------- C26
def c26_forms(cls_name, name):
    """The same key pair as generated, and loaded back."""
    from pymt import keypairs
    cls = getattr(keypairs, cls_name)
    o = pair(cls_name, name)
    return [("generated", o), ("loaded", cls.from_key_string(o.to_key_string("pw"), "pw"))]


def refuse(ctx, f, what, secrets):
    ctx.count("transitions")
    try:
        r = f()
    except BaseException as e:
        t = repr(e) + str(e) + repr(getattr(e, "__dict__", ""))
        for s in secrets:
            if s and len(s) >= 4 and (s.hex() in t or repr(s)[2:-1] in t):
                ctx.report("%s: the error reveals data: %s" % (what, t[:200]))
        return
    ctx.report("%s returned %r" % (what, r))


def c26_roles(ctx):
    from pymt.keypairs import RsaAuthKeyPair, RsaEncKeyPair
    G, G2 = gen("A"), gen("B")
    secret = b"top secret content"
    sealed = {}
    for form, auth in c26_forms("RsaAuthKeyPair", "auth"):
        for encform, enc in c26_forms("RsaEncKeyPair", "enc"):
            ctx.count("states")
            sealed = G.encrypt(secret, auth.public_key)
            sealed_e = G.encrypt(secret, enc.public_key)
            own, sig_own = pair_like(auth).encrypt(secret, auth.public_key), pair_like(enc).sign(secret)
            from_enc = enc.encrypt(secret, auth.public_key)
            for rep in range(2):
                for a in [(secret, G.public_key), (b"", G.public_key), (secret, auth.public_key), (secret, b""), (None, None), (secret, None), (b"x" * 5000, enc.public_key)]:
                    refuse(ctx, lambda: auth.encrypt(*a), "%s authentication pair: encrypt" % form, [secret])
                for a in [(sealed, G.public_key), (sealed, auth.public_key), (sealed_e, G.public_key), (own, auth.public_key), (own, G.public_key), (from_enc, enc.public_key), (b"", b""), (b"{}", G.public_key), (None, None)]:
                    refuse(ctx, lambda: auth.decrypt(*a), "%s authentication pair: decrypt" % form, [secret])
                for a in [(secret,), (b"",), (None,), ("text",), (b"x" * 5000,)]:
                    refuse(ctx, lambda: enc.sign(*a), "%s encryption pair: sign" % encform, [secret])
                sig = G.sign(secret)
                for a in [(secret, sig), (secret, sig, G.public_key), (secret, b""), (b"", b""), (secret, sig, enc.public_key), (secret, sig_own), (secret, sig_own, enc.public_key), (secret + b"x", sig_own), (secret, auth.sign(secret), auth.public_key), (None, None), (secret, sig, b"")]:
                    refuse(ctx, lambda: enc.signature_valid(*a), "%s encryption pair: signature_valid" % encform, [secret])
                # what they may do still works afterwards
                for m in (b"", b"m", secret, msg(300)):
                    s = auth.sign(m)
                    ctx.count("transitions", 6)
                    ok = [auth.signature_valid(m, s), auth.signature_valid(m, s, auth.public_key), G.signature_valid(m, s, auth.public_key), auth.signature_valid(m, G.sign(m), G.public_key),
                          not auth.signature_valid(m + b"x", s), not auth.signature_valid(m, s[:-1]), not auth.signature_valid(m, s, G.public_key), not auth.signature_valid(m, G.sign(m))]
                    if not all(x is True for x in ok):
                        ctx.report("%s authentication pair: signing and verifying gives %r" % (form, ok))
                    if s != pair_like(auth).sign(m):
                        ctx.report("%s authentication pair signs differently from a general pair" % form)
                    for what, a, b in (("to a general pair", enc, G), ("from a general pair", G, enc), ("to itself", enc, enc), ("to another encryption pair", enc, pair("RsaEncKeyPair", "enc2")), ("for an authentication key's owner", enc, pair_like(auth))):
                        ctx.count("transitions", 2)
                        r = attempt(lambda: b.decrypt(a.encrypt(m, b.public_key), a.public_key))
                        if r != ("ok", m):
                            ctx.report("%s encryption pair: %d bytes %s give %r" % (encform, len(m), what, r))
                    e = enc.encrypt(m, G.public_key)
                    for who, pk in ((G2, enc.public_key), (G, G2.public_key)):
                        ctx.count("transitions")
                        if attempt(who.decrypt, e, pk)[0] == "ok":
                            ctx.report("a message of an encryption pair was opened by or from the wrong pair")
                    e = G.encrypt(m, enc.public_key)
                    for bad in (e[:-5], e.replace(b"a", b"b", 1) if b"a" in e else e[1:], flip(e, 8 * 30)):
                        ctx.count("transitions")
                        r = attempt(enc.decrypt, bad, G.public_key)
                        if r[0] == "ok" and parsed(bad) != parsed(e):
                            ctx.report("an encryption pair opened a damaged message to %r" % (r[1],))
                    if attempt(enc.decrypt, e, G2.public_key)[0] == "ok" or attempt(pair("RsaEncKeyPair", "enc2").decrypt, e, G.public_key)[0] == "ok":
                        ctx.report("an encryption pair opened a message naming the wrong sender, or one for another pair")
            ctx.count("traces_validated_against_impl")
    for cls, names in ((RsaAuthKeyPair, ("encrypt", "decrypt")), (RsaEncKeyPair, ("sign", "signature_valid"))):
        o = cls("blank", _generate_keys=False)
        for n in names:
            refuse(ctx, lambda: getattr(o, n)(secret, G.public_key), "%s without keys: %s" % (cls.__name__, n), [secret])
        ctx.count("states")
    ctx.sample("generated and loaded pairs of both roles")


def pair_like(o):
    """A general key pair with the same keys."""
    from pymt.keypairs import RsaKeyPair
    k = ("like", id(o))
    if k not in _KEYS:
        _KEYS[k] = (o, RsaKeyPair.from_key_string(o.to_key_string("pw"), "pw"))
    return _KEYS[k][1]


def c26_cross(ctx):
    """Keys saved by one class and loaded by another get the role of the loading class."""
    from pymt import keypairs
    names = ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]
    G = gen("A")
    for a, b in itertools.product(names, names):
        for how in ("string", "file"):
            src = pair(a, "cross")
            tmp = tempfile.mkdtemp(prefix="c26")
            try:
                ctx.count("states")
                cls = getattr(keypairs, b)
                if how == "string":
                    o = cls.from_key_string(src.to_key_string("pw"), "pw")
                else:
                    p = os.path.join(tmp, "k")
                    src.to_key_file(p, "pw")
                    o = cls.from_key_file(p, "pw")
                may_sign, may_enc = b != "RsaEncKeyPair", b != "RsaAuthKeyPair"
                ctx.count("transitions", 4)
                got = [attempt(o.sign, b"m")[0] == "ok", attempt(o.signature_valid, b"m", G.sign(b"m"), G.public_key) == ("ok", True), attempt(o.encrypt, b"m", G.public_key)[0] == "ok",
                       attempt(o.decrypt, G.encrypt(b"m", src.public_key), G.public_key) == ("ok", b"m")]
                if got != [may_sign, may_sign, may_enc, may_enc]:
                    ctx.report("a %s key loaded from a %s as %s can sign, verify, encrypt, decrypt: %r" % (a, how, b, got))
                ctx.count("traces_validated_against_impl")
            finally:
                shutil.rmtree(tmp, ignore_errors=True)


def c26_tasks(tier):
    return [("c26_roles", {}), ("c26_cross", {})]


# ---------------------------------------------------------------- C27
PWS = ["password", "Password", "password ", " password", "passwor", "passwordpassword", "", " ", "\x00", "a", "b", "x" * 31, "x" * 32, "x" * 33, "x" * 64, "x" * 65, "x" * 72, "x" * 73, "x" * 300, "x" * 301,
       "é", "e\u0301", "\u20ac", "password\n", "password\x00", "0", "00", "пароль", "pass word", "drowssap"]


def c27_open(ctx, c, pw):
    from pymt.utils.utils import Utils
    ctx.count("transitions")
    return attempt(Utils.decrypt, c, pw)


C27_SRC = ["from pymt.utils.utils import Utils"]


def c27_lengths(ctx, part, parts):
    from pymt.utils.utils import Utils
    lens = list(range(0, 140)) + [255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 100000, 1 << 20, (1 << 20) + 5, (3 << 20) + 1]
    for n in lens[part::parts]:
        for j, d in enumerate((msg(n), bytes(n), b" " * n)):
            ctx.count("states")
            pw = PWS[(n + j) % len(PWS)]
            c, c2 = Utils.encrypt(d, pw), Utils.encrypt(d, pw)
            src = C27_SRC + (["d = %r" % d] if n < 300 else ["d = bytes((i * 73 + %d) %% 256 for i in range(%d))" % (n * 5, n)])
            for x in (c, c2, c):
                r = c27_open(ctx, x, pw)
                if r != ("ok", d):
                    ctx.report("%d bytes encrypted with %r decrypt to %r" % (n, pw, r if n < 100 else r[0]), src + ["assert Utils.decrypt(Utils.encrypt(d, %r), %r) == d" % (pw, pw)])
            if c == c2:
                ctx.report("two encryptions of the same %d bytes are equal" % n, src + ["assert Utils.encrypt(d, %r) != Utils.encrypt(d, %r)" % (pw, pw)])
            if n >= 16 and d in c:
                ctx.report("the data can be read in the ciphertext (%d bytes)" % n)
            for q in (PWS if n < 3 or n == 64 else PWS[(n + j + 1) % len(PWS):][:2]):
                if q != pw:
                    r = c27_open(ctx, c, q)
                    if r[0] == "ok":
                        ctx.report("%d bytes encrypted with %r were decrypted with %r to %r" % (n, pw, q, r[1][:50]), src + ["c = Utils.encrypt(d, %r)" % pw, "try: Utils.decrypt(c, %r)\nexcept Exception: pass\nelse: raise AssertionError" % q])
            pos = [0, 15, 16, 31, 32, len(c) - 1, len(c) // 2] + ([n + 31, n // 2 + 32, 48, 64] if n else [])
            for e in [flip(c, 8 * i + (n + i) % 8) for i in pos if i < len(c)] + [c[:-1], c[1:], c + b"\x00", b"\x00" + c, c + c, c[:-16], c[:32]]:
                if e != c:
                    r = c27_open(ctx, e, pw)
                    if r[0] == "ok":
                        ctx.report("altered ciphertext of %d bytes decrypts to %r" % (n, r[1][:50]))
            ctx.count("traces_validated_against_impl")
    ctx.sample("lengths %r" % lens[part::parts][:8])


def c27_passwords(ctx, i):
    """All pairs of passwords, short data."""
    from pymt.utils.utils import Utils
    for d in (b"", b"x", b"some data that is longer than a block"):
        c = Utils.encrypt(d, PWS[i])
        ctx.count("states")
        for j, q in enumerate(PWS):
            r = c27_open(ctx, c, q)
            if (r == ("ok", d)) is not (i == j) or (r[0] == "ok") is not (i == j):
                ctx.report("data encrypted with %r, decrypted with %r: %r" % (PWS[i], q, r))
        ctx.count("traces_validated_against_impl")


def c27_damage(ctx, n, part, parts):
    """Every one-bit change, every cut, every extension by a byte, every exchange of blocks, every mixture of two ciphertexts."""
    from pymt.utils.utils import Utils
    d = msg(n)
    pw = "password"
    c, o, s = Utils.encrypt(d, pw), Utils.encrypt(msg(n, 1), pw), Utils.encrypt(d, pw)
    ctx.count("states")
    edits = [("bit %d flipped" % b, flip(c, b)) for b in range(len(c) * 8)] + [("cut at %d" % i, c[:i]) for i in range(len(c))] + [("head of %d cut" % i, c[i:]) for i in range(1, len(c) + 1)]
    edits += [("byte %d removed" % i, c[:i] + c[i + 1:]) for i in range(len(c))] + [("byte inserted at %d" % i, c[:i] + bytes([x]) + c[i:]) for i in range(len(c) + 1) for x in (0, 255, c[min(i, len(c) - 1)])]
    edits += [("byte appended", c + bytes([x])) for x in range(256)] + [("block appended", c + c[:16]), ("block appended", c + c[-16:]), ("doubled", c + c), ("reversed", c[::-1])]
    blocks = [c[i:i + 16] for i in range(0, len(c), 16)]
    for i in range(len(blocks)):
        for j in range(len(blocks)):
            if i < j:
                b = list(blocks)
                b[i], b[j] = b[j], b[i]
                edits.append(("blocks %d and %d exchanged" % (i, j), b"".join(b)))
        edits.append(("block %d removed" % i, b"".join(blocks[:i] + blocks[i + 1:])))
        edits.append(("block %d doubled" % i, b"".join(blocks[:i + 1] + blocks[i:])))
        edits.append(("block %d zeroed" % i, b"".join(blocks[:i] + [bytes(len(blocks[i]))] + blocks[i + 1:])))
        for x in (o, s):
            edits.append(("block %d of another ciphertext" % i, b"".join(blocks[:i] + [x[16 * i:16 * i + 16]] + blocks[i + 1:])))
    for k in range(1, 27):
        mix = [(c, o, s)[k // 3 ** i % 3] for i in range(3)]
        edits.append(("mixture", mix[0][:16] + mix[1][16:32] + mix[2][32:]))
    for i, (what, e) in enumerate(edits):
        if i % parts != part or e in (c, o, s):
            continue
        r = c27_open(ctx, e, pw)
        if r[0] == "ok":
            ctx.report("ciphertext of %d bytes with %s decrypts to %r" % (n, what, r[1]))
        else:
            ctx.count("refused")
    if c27_open(ctx, c, pw) != ("ok", d):
        ctx.report("the intact ciphertext no longer decrypts")
    ctx.count("traces_validated_against_impl")


def c27_unique(ctx, count):
    """Repeated encryption, also with the clock stopped, the random module seeded and in forked processes."""
    from pymt.utils.utils import Utils
    for d in (b"", b"d", msg(40)):
        seen = set()
        state = random.getstate()
        clocks = {n: getattr(time, n) for n in ("time", "monotonic", "time_ns", "perf_counter")}
        try:
            for i in range(count):
                random.seed(1)
                if i % 2:
                    for n in clocks:
                        setattr(time, n, lambda: 1)
                c = Utils.encrypt(d, "password")
                ctx.count("transitions")
                if c in seen:
                    ctx.report("encryption %d of %r gives the same ciphertext as an earlier one" % (i, d[:5]), C27_SRC + ["import random", "s = set()", "for i in range(2000):", "    random.seed(1)", "    c = Utils.encrypt(b'd', 'password')", "    assert c not in s", "    s.add(c)"])
                    break
                seen.add(c)
        finally:
            random.setstate(state)
            for n, f in clocks.items():
                setattr(time, n, f)
        bodies = []
        for k in range(3):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(w, Utils.encrypt(d, "password"))
                finally:
                    os._exit(0)
            os.close(w)
            bodies.append(os.read(r, 1 << 16))
            os.close(r)
            os.waitpid(pid, 0)
            ctx.count("transitions")
        if len(set(bodies)) != 3 or b"" in bodies:
            ctx.report("processes forked from the same state encrypt %r to the same ciphertext" % d[:5])
        ctx.count("states")
        ctx.count("traces_validated_against_impl")
    for x in (None, 1, "text", bytearray(b"x")):
        for f in (lambda: Utils.encrypt(x, "p"), lambda: Utils.decrypt(x, "p"), lambda: Utils.encrypt(b"d", b"p" if isinstance(x, str) else x), lambda: Utils.decrypt(Utils.encrypt(b"d", "p"), b"p" if isinstance(x, str) else x)):
            ctx.count("transitions")
            if attempt(f)[0] == "ok":
                ctx.report("an argument of type %s was accepted" % type(x).__name__)


def c27_ends(ctx, where, ch):
    """Ciphertexts that begin or end with a zero or white space, and data that does."""
    from pymt.utils.utils import Utils
    for n in (0, 1, 5, 40):
        for d in ([msg(n)] if n == 0 else [msg(n), bytes([ch]) + msg(n - 1), msg(n - 1) + bytes([ch]), bytes([ch]) * n]):
            for i in range(20000):
                c = Utils.encrypt(d, "password")
                if c[where] == ch:
                    break
            ctx.count("states")
            for rep in range(2):
                if c27_open(ctx, c, "password") != ("ok", d):
                    ctx.report("a ciphertext with byte %d equal to %d does not decrypt" % (where, ch))
            for e in trims(c):
                if c27_open(ctx, e, "password")[0] == "ok":
                    ctx.report("a ciphertext with byte %d equal to %d, altered at its ends, decrypts" % (where, ch), C27_SRC + ["for i in range(20000):", "    c = Utils.encrypt(b'd', 'p')", "    if c[%d] == %d:" % (where, ch), "        for e in (c[1:], c[:-1], c + bytes(1), bytes(1) + c):",
                               "            try: Utils.decrypt(e, 'p')\n            except Exception: pass\n            else: raise AssertionError"])
            ctx.count("traces_validated_against_impl")


def c27_tasks(tier):
    th = tier == "thorough"
    return [("c27_lengths", dict(part=p, parts=16)) for p in range(16)] + [("c27_passwords", dict(i=i)) for i in range(len(PWS))] + \
        [("c27_damage", dict(n=n, part=p, parts=4)) for n in ((0, 1, 15, 16, 17, 32, 33, 64, 100, 300) if th else (0, 1, 16, 33, 64)) for p in range(4)] + [("c27_unique", dict(count=20000 if th else 3000))] + \
        [("c27_ends", dict(where=w, ch=c)) for w in (0, -1) for c in (0, 10, 32)]
