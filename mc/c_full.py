"""C11 mapping, C12 tampered data, C13 views, C14 rebuild, C15 isolation, C16 data references."""
import copy
import itertools
import os
from . import fam, ref
from .c_dict import show
from .c_proofs import accepts, mk
from .fam import attempt, bs


class Obj:
    """A value with an RLP codec."""

    def __init__(self, raw):
        self.raw = raw

    def encode_rlp(self):
        return b"O" + self.raw

    @staticmethod
    def decode_rlp(b):
        return Obj(b[1:])

    def __eq__(self, o):
        return isinstance(o, Obj) and o.raw == self.raw

    def __hash__(self):
        return hash(self.raw)

    def __repr__(self):
        return "Obj(%r)" % self.raw

    def __deepcopy__(self, memo):
        return Obj(self.raw)


class Hollow:
    """A storable that encodes to nothing, is false and has no length."""

    def encode_rlp(self):
        return b""

    @staticmethod
    def decode_rlp(b):
        return Hollow()

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Hollow)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Hollow()"


class Holder:
    """A storable whose payload is itself large and mutable."""

    def __init__(self, items):
        self.items = items

    def encode_rlp(self):
        return ref.rlp(self.items)

    @staticmethod
    def decode_rlp(b):
        return Holder(ref.unrlp(b))

    def __eq__(self, o):
        return isinstance(o, Holder) and o.items == self.items

    def __hash__(self):
        return 1

    def __repr__(self):
        return "Holder(%r)" % (self.items,)


OBJ_SRC = ["class Obj:", "    def __init__(self, raw): self.raw = raw", "    def encode_rlp(self): return b'O' + self.raw",
           "    @staticmethod", "    def decode_rlp(b): return Obj(b[1:])", "    def __eq__(self, o): return isinstance(o, Obj) and o.raw == self.raw",
           "class Hollow:\n    def encode_rlp(self): return b''\n    @staticmethod\n    def decode_rlp(b): return Hollow()\n    def __bool__(self): return False",
           "    def __len__(self): return 0\n    def __eq__(self, o): return isinstance(o, Hollow)",
           "class Holder:", "    def __init__(self, items): self.items = items", "    def encode_rlp(self):\n        import rlp\n        return rlp.encode(self.items)",
           "    @staticmethod", "    def decode_rlp(b): return None", "    def __eq__(self, o): return isinstance(o, Holder) and o.items == self.items"]


def raw(v):
    return bytes(v) if isinstance(v, (bytes, bytearray)) else v.encode_rlp()


class NoCodec:
    pass


class HalfCodec:
    def encode_rlp(self):
        return b"x"


class BadCodec:
    def encode_rlp(self):
        return "text"

    def decode_rlp(b):
        return None


class RaisingCodec:
    def encode_rlp(self):
        raise RuntimeError("codec")

    def decode_rlp(b):
        return None


BADVALUES = [1, "text", None, NoCodec(), HalfCodec(), BadCodec(), RaisingCodec(), [b"x"]]
BADKEYS = ["k", 1, None, bytearray(b"k"), (b"k",)]


def expected_root(m, secure):
    from pymt.empt import DataReference
    return ref.root_hash({(ref.keccak(k) if secure else k): DataReference(k, raw(v)).encode() for k, v in m.items()})


def full_errors(t, m, probes, secure):
    """First disagreement of the full trie with the dictionary m: (text, script line) or None."""
    if t.root_hash() != expected_root(m, secure):
        return "root hash is not that of the stored references", "pass"
    if len(t) != len(m):
        return "len is %d, expected %d" % (len(t), len(m)), "assert len(t) == %d" % len(m)
    ks = list(t)
    if len(ks) != len(m) or set(ks) != set(m):
        return "iteration gives %r, expected %r" % (ks, list(m)), "assert sorted(t) == %r" % sorted(m)
    for k in probes:
        r = attempt(t.get, k)
        if k in m:
            if r[0] != "ok" or r[1] != m[k] or raw(r[1]) != raw(m[k]) or type(r[1]) is not type(m[k]):
                return "get(%r) gave %r, expected %r" % (k, r, m[k]), "assert t.get(%r) == %r" % (k, m[k])
            g = attempt(t.get_reference, k)
            if g[0] != "ok" or (g[1].key, g[1].data) != (k, raw(m[k])):
                return "get_reference(%r) gave %r" % (k, g), "r = t.get_reference(%r); assert (r.key, r.data) == %r" % (k, (k, raw(m[k])))
        else:
            if r[0] == "ok":
                return "get(%r) of an absent key returned %r" % (k, r[1]), "try: t.get(%r)\nexcept Exception: pass\nelse: raise AssertionError" % k
            if attempt(t.get_reference, k)[0] == "ok":
                return "get_reference(%r) of an absent key returned" % k, "try: t.get_reference(%r)\nexcept Exception: pass\nelse: raise AssertionError" % k
        for f in (t.contains, t.__contains__):
            c = attempt(f, k)
            if c != ("ok", k in m):
                return "membership of %r is %r" % (k, c), "assert (%r in t) is %r" % (k, k in m)
    return None


def items_error(t, m):
    its = attempt(lambda: list(t.items()))
    if its[0] != "ok" or len(its[1]) != len(m) or dict(its[1]) != m:
        return "items() gave %r, expected %r" % (its, m)
    if sorted(t.keys()) != sorted(m) or [raw(v) for v in t.values()] != [raw(m[k]) for k in t]:
        return "keys() or values() differ from the stored pairs"
    return None


MISSING = object()


def do_op(t, m, op):
    """Run a mapping operation on the trie and the model; returns an error text or None."""
    kind = op[0]
    if kind == "set":
        r = attempt(t.__setitem__ if op[3] else t.update, op[1], op[2])
        m[op[1]] = op[2]
        return None if r[0] == "ok" else "raised " + r[1]
    if kind == "del":
        r = attempt(t.__delitem__ if op[2] else t.delete, op[1])
        if op[1] in m:
            del m[op[1]]
            return None if r[0] == "ok" else "raised " + r[1]
        return "deleting an absent key did not raise" if r[0] == "ok" else None
    if kind == "pop":
        r = attempt(t.pop, op[1])
        if op[1] in m:
            v = m.pop(op[1])
            return None if r == ("ok", v) else "pop gave %r, expected %r" % (r, v)
        return "pop of an absent key returned %r" % (r[1],) if r[0] == "ok" else None
    if kind == "popd":
        r = attempt(t.pop, op[1], MISSING)
        v = m.pop(op[1], MISSING)
        return None if r == ("ok", v) else "pop with a default gave %r, expected %r" % (r, v)
    if kind == "setdefault":
        r = attempt(t.setdefault, op[1], op[2])
        v = m.setdefault(op[1], op[2])
        return None if r == ("ok", v) else "setdefault gave %r, expected %r" % (r, v)
    if kind == "popitem":
        r = attempt(t.popitem)
        if not m:
            return "popitem of an empty trie returned %r" % (r[1],) if r[0] == "ok" else None
        if r[0] != "ok" or r[1][0] not in m or m[r[1][0]] != r[1][1]:
            return "popitem gave %r" % (r,)
        del m[r[1][0]]
        return None
    if kind == "clear":
        r = attempt(t.clear)
        m.clear()
        return None if r[0] == "ok" else "clear raised " + r[1]
    raise KeyError(kind)


def op_line(op):
    return {"set": lambda: "t[%r] = %r" % op[1:3], "del": lambda: "del t[%r]" % op[1], "pop": lambda: "t.pop(%r)" % op[1],
            "popd": lambda: "t.pop(%r, None)" % op[1], "setdefault": lambda: "t.setdefault(%r, %r)" % op[1:3], "popitem": lambda: "t.popitem()",
            "clear": lambda: "t.clear()"}[op[0]]()


def full_script(hist, tail, secure=False):
    return ["from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference"] + OBJ_SRC + ["t = EMPT(secure=%r)" % secure] + \
        ["try: %s\nexcept Exception as e: print('raised', repr(e))" % op_line(o) if o[0] != "set" else op_line(o) for o in hist] + list(tail)


def replay(hist, secure):
    from pymt.empt import EMPT
    t, m = EMPT(secure=secure), {}
    for op in hist:
        do_op(t, m, op)
    return t, m


def c11_dfs(ctx, keys, values, depth, first, secure=False):
    ops = []
    for i, k in enumerate(keys):
        ops += [("set", k, v, j % 2) for j, v in enumerate(values)]
        ops += [("del", k, i % 2), ("pop", k), ("popd", k), ("setdefault", k, values[i % len(values)])]
    ops += [("popitem",), ("clear",)]
    probes = keys + [k + b"\x00" for k in keys[:2]] + [b"\x77"]

    def state_ok(t, m, hist, note=""):
        e = full_errors(t, m, probes, secure)
        if e:
            ctx.report("%s%s\nafter %s" % (note, e[0], "; ".join(map(op_line, hist))), full_script(hist, [e[1]], secure))
            return False
        e = items_error(t, m)
        if e:
            ctx.report("%s\nafter %s" % (e, "; ".join(map(op_line, hist))), full_script(hist, ["assert dict(t.items()) == %r" % m], secure))
            return False
        return True

    def rejected(t, m, hist):
        """Every operation that has to be refused in this state, one after another on the same object."""
        tests = [("set(%r, <%s>)" % (keys[0], type(v).__name__), lambda v=v: t.update(keys[0], v)) for v in BADVALUES]
        tests += [("set of bad key %r" % (k,), lambda k=k: t.update(k, b"v")) for k in BADKEYS]
        tests += [("get of bad key %r" % (k,), lambda k=k: t.get(k)) for k in BADKEYS[:2]]
        tests += [("delete of bad key %r" % (k,), lambda k=k: t.delete(k)) for k in BADKEYS[:2]]
        tests += [("get_reference of bad key %r" % (k,), lambda k=k: t.get_reference(k)) for k in BADKEYS[:2]]
        for k in probes:
            if k not in m:
                tests += [("delete(%r)" % k, lambda k=k: t.delete(k)), ("t[%r]" % k, lambda k=k: t[k]), ("pop(%r)" % k, lambda k=k: t.pop(k))]
        for name, f in tests:
            ctx.count("rejections")
            if attempt(f)[0] == "ok":
                ctx.report("%s did not raise\nafter %s" % (name, "; ".join(map(op_line, hist))), full_script(hist, [], secure))
                return False
        return state_ok(t, m, hist, "after rejected operations: ")

    def visit(t, m, hist):
        ctx.count("states")
        if not state_ok(t, m, hist):
            return
        if len(hist) == depth:
            ctx.count("traces_validated_against_impl")
            return
        for op in ops:
            try:
                t2 = copy.deepcopy(t)
            except Exception:
                t2 = replay(hist, secure)[0]
            m2 = dict(m)
            e = do_op(t2, m2, op)
            ctx.count("transitions")
            h2 = hist + [op]
            if e:
                ctx.report("%s: %s\nafter %s" % (op_line(op), e, "; ".join(map(op_line, hist))), full_script(h2, [op_line(op)], secure))
                continue
            if op[0] in ("del", "pop", "popd") and op[1] not in m:
                if len(hist) < 2:
                    state_ok(t2, m2, h2)     # nothing changed; not explored further
                continue
            visit(t2, m2, h2)
        if len(hist) <= depth - 1:
            rejected(t, m, hist)

    t, m = replay([], secure)
    hist = []
    for i in first:
        op = ops[i]
        if op[0] in ("del", "pop", "popd", "popitem", "clear") and not m and i != first[-1]:
            return
        e = do_op(t, m, op)
        hist.append(op)
        if e:
            ctx.report("%s: %s" % (op_line(op), e), full_script(hist, [], secure))
            return
    visit(t, m, hist)
    ctx.sample("all continuations of " + "; ".join(map(op_line, hist)))


def c11_families(ctx, fam_name, part, parts, secure=False):
    """Larger contents: every family state as a full trie, one operation from it."""
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        hist = [("set",) + op[1:] + (0,) if op[0] == "u" else ("del", op[1], 0) for op in hists[-1]]
        hist = [("set", o[1], [o[2], bytearray(o[2]), Obj(o[2])][i % 3], 0) if o[0] == "set" else o for i, o in enumerate(hist)]
        t, m = replay([], secure)
        for i, op in enumerate(hist):
            e = do_op(t, m, op)
            ctx.count("transitions")
            if e:
                ctx.report("%s: %s" % (op_line(op), e), full_script(hist[:i + 1], [], secure))
                return
        ctx.count("states")
        ctx.count("traces_validated_against_impl")
        probes = list(dict.fromkeys(list(m)[:10] + list(m)[-3:] + universe[:4] + fam.near(list(m)[:2])[:8]))

        def check(t, m, h):
            e = full_errors(t, m, probes, secure)
            if not e:
                e = items_error(t, m) and (items_error(t, m), "assert dict(t.items()) == %r" % m)
            if e:
                ctx.report("%s\nafter %s" % (e[0], "; ".join(map(op_line, h[-12:]))), full_script(h, [e[1]], secure))

        check(t, m, hist)
        for op in [("del", k, 1) for k in list(m)[:5]] + [("set", k, Obj(b"n" * 50), 1) for k in probes[:3]] + [("popitem",), ("clear",)]:
            try:
                t2 = copy.deepcopy(t)
            except Exception:
                t2 = replay(hist, secure)[0]
            m2 = dict(m)
            e = do_op(t2, m2, op)
            ctx.count("transitions")
            if e:
                ctx.report("%s: %s\nafter %s" % (op_line(op), e, "; ".join(map(op_line, hist[-12:]))), full_script(hist + [op], [], secure))
                continue
            check(t2, m2, hist + [op])


class Cell:
    """A storable object whose content the program changes in place."""

    def __init__(self, raw):
        self.raw = raw

    def encode_rlp(self):
        return self.raw

    @staticmethod
    def decode_rlp(b):
        return Cell(b)

    def __repr__(self):
        return "Cell(%r)" % self.raw


CELL_SRC = ["class Cell:", "    def __init__(self, raw): self.raw = raw", "    def encode_rlp(self): return self.raw", "    @staticmethod", "    def decode_rlp(b): return Cell(b)"]
CONTENT = [b"one", b"two" * 15, b""]


def c11_shared(ctx, kinds, depth, first, secure=False):
    """The program keeps the value objects, stores them under several keys, changes them in place and stores them again."""
    from pymt.empt import EMPT
    keys = [b"k", b"k2"]
    ops = [("set", k, i) for k in keys for i in range(2)] + [("change", i, c) for i in range(2) for c in range(2)] + [("del", k) for k in keys] + [("reset", keys[0])]

    def src(op):
        return {"set": lambda: "t[%r] = v[%d]" % op[1:], "del": lambda: "try: del t[%r]\nexcept KeyError: pass" % op[1], "reset": lambda: "t[%r] = t[%r]" % (op[1], op[1]),
                "change": lambda: ("v[%d][:] = %r" if kinds[op[1]] is bytearray else "v[%d].raw = %r") % (op[1], CONTENT[op[2]])}[op[0]]()

    for hist in itertools.product(ops, repeat=depth - 1):
        hist = (ops[first],) + hist
        t, m = EMPT(secure=secure), {}
        objs = [kd(CONTENT[i]) for i, kd in enumerate(kinds)]
        skip = False
        for n, op in enumerate(hist):
            lines = CELL_SRC + ["from pymt.empt import EMPT", "t = EMPT(secure=%r)" % secure, "v = [%s]" % ", ".join("%s(%r)" % (kd.__name__, CONTENT[i]) for i, kd in enumerate(kinds))] + [src(o) for o in hist[:n + 1]]
            if op[0] == "change":
                if raw(objs[op[1]]) == CONTENT[op[2]]:
                    skip = True
                    break
                if kinds[op[1]] is bytearray:
                    objs[op[1]][:] = CONTENT[op[2]]
                else:
                    objs[op[1]].raw = CONTENT[op[2]]
            elif op[0] == "set":
                r = attempt(t.__setitem__, op[1], objs[op[2]])
                m[op[1]] = (objs[op[2]], raw(objs[op[2]]))
                if r[0] != "ok":
                    ctx.report("storing raised %s\n%s" % (r[1], "; ".join(map(src, hist[:n + 1]))), lines)
                    return
            elif op[0] == "reset":             # what is read is stored again under the same key
                if op[1] not in m:
                    skip = True
                    break
                r = attempt(t.get, op[1])
                if r[0] == "ok" and attempt(t.__setitem__, op[1], r[1])[0] != "ok":
                    ctx.report("storing what was read raised\n%s" % "; ".join(map(src, hist[:n + 1])), lines)
                    return
            else:
                r = attempt(t.__delitem__, op[1])
                if r[0] == "ok" and op[1] not in m:
                    ctx.report("deleting an absent key did not raise\n%s" % "; ".join(map(src, hist[:n + 1])), lines)
                    return
                if r[0] != "ok" and op[1] in m:
                    if raw(m[op[1]][0]) == m[op[1]][1]:
                        ctx.report("deleting a key raised %s\n%s" % (r[1], "; ".join(map(src, hist[:n + 1]))), lines)
                        return
                    skip = True                # a value changed behind the trie: refusing is all right
                    break
                m.pop(op[1], None)
            ctx.count("transitions")
            want = {k: x[1] for k, x in m.items()}
            e = None
            if t.root_hash() != expected_root(want, secure):
                e = ("root hash is not that of the values as they were stored", "from pymt.empt import DataReference\nw = EMPT(secure=%r)\nfor k, x in %r.items(): w[k] = x\nassert t.root_hash() == w.root_hash()" % (secure, want))
            elif len(t) != len(m) or set(t) != set(m):
                e = ("keys are %r, expected %r" % (list(t), list(m)), "assert set(t) == %r" % set(m))
            for k, (o, b) in m.items():
                g = attempt(t.get_reference, k)
                r = attempt(t.get, k)
                if g[0] != "ok" or (g[1].key, g[1].data) != (k, b):
                    e = ("get_reference(%r) gave %r" % (k, g), "r = t.get_reference(%r); assert (r.key, r.data) == %r" % (k, (k, b)))
                elif raw(o) == b and (r[0] != "ok" or raw(r[1]) != b):
                    e = ("get(%r) gave %r, expected %r" % (k, r, b), "x = t.get(%r)" % k)
                elif r[0] == "ok" and raw(r[1]) != b:
                    e = ("get(%r) gave %r, stored was %r" % (k, r, b), "x = t.get(%r); assert (x if isinstance(x, (bytes, bytearray)) else x.raw) == %r" % (k, b))
            if e:
                ctx.report("%s\nafter %s" % (e[0], "; ".join(map(src, hist[:n + 1]))), lines + [e[1]])
                return
        if not skip:
            ctx.count("states")
            ctx.count("traces_validated_against_impl")
    ctx.sample("values kept and changed in place: %s, first %s" % ([k.__name__ for k in kinds], src(ops[first])))


def c11_tasks(tier):
    th = tier == "thorough"
    vals = [b"v", bytearray(b"w" * 40), Obj(b"x")]
    out = []

    def dfs(keys, values, depth, secure=False):
        n = len(keys) * (len(values) + 4) + 2
        return [("c11_dfs", dict(keys=keys, values=values, depth=depth, first=(i, j), secure=secure)) for i in range(n) for j in range(n)]

    out += dfs(bs("", "12", "1234"), vals, 4 if th else 3)
    out += dfs(bs("1234", "1235"), vals[:2] if not th else vals, 5 if th else 4)
    out += dfs(bs("00", "10"), [b"v", Obj(b"y" * 60)], 4 if th else 3, True)
    out += [("c11_dfs", dict(keys=bs("00", "10"), values=vals, depth=2, first=(), secure=s)) for s in (False, True)]
    # values that are empty, false or zero in some sense
    out += dfs(bs("00", "0010"), [b"", bytearray(), Obj(b"")], 4 if th else 3)
    out += dfs(bs("", "10"), [Hollow(), b"", b"\x00"], 4 if th else 3)
    for kinds in ((bytearray, Cell), (Cell, bytearray)):
        out += [("c11_shared", dict(kinds=kinds, depth=6 if th else 5, first=i, secure=kinds[0] is Cell)) for i in range(8)]
    out += [("c11_families", dict(fam_name=f, part=p, parts=n, secure=s)) for f, n in (("chain_s", 2), ("words_s", 2), ("twins", 1), ("big_s", 1), ("wide_s", 2), ("values_s", 3), ("long_s", 2), ("huge", 2))
            for p in range(n) for s in ((False, True) if f in ("chain_s", "big_s") else (False,))]
    return out


# ---------------------------------------------------------------- C12
def alterations(v, others):
    """Changed versions of a stored value: (name, new value). Values of other keys are included."""
    r = raw(v)
    out = []

    def wrap(b):
        yield b
        yield bytearray(b)
        if b[:1] == b"O":
            yield Obj(b[1:])

    cands = [("other", b"other"), ("empty", b""), ("truncated", r[:-1]), ("cut", r[1:]), ("extended", r + b"\x00"), ("extended front", b"\x00" + r),
             ("doubled", r + r), ("reference", ref.rlp([b"FF", b"k", r, b"\x01"]))]
    for i in sorted({0, len(r) // 2, len(r) - 1}):
        for bit in (1, 0x80):
            if 0 <= i < len(r):
                b = bytearray(r)
                b[i] ^= bit
                cands.append(("bit", bytes(b)))
    cands += [("value of another key", raw(o)) for o in others]
    for name, b in cands:
        for w in wrap(b):
            out.append((name, w))
    out.append(("same bytes, other type", bytearray(r)))
    out += [("not bytes", 7), ("not bytes", None), ("not bytes", "text"), ("not bytes", [b"x"])]
    return out


def c12_tamper(ctx, contents, secure, olds, part, parts):
    from pymt.empt import EMPT
    keys = list(contents)

    def build():
        ds = {}
        t = EMPT({}, ds, secure=secure)
        for k, v in olds:
            t[k] = v
        for k, v in contents.items():
            t[k] = copy.deepcopy(v)
        for k, _ in olds:
            if k not in contents:
                del t[k]
        return t, ds

    acts = []
    for k in keys:
        others = [contents[x] for x in keys if x != k] + [v for _, v in olds]
        acts += [("replace", k, name, v) for name, v in alterations(contents[k], others)]
        acts += [("remove", k, "", None)]
        if isinstance(contents[k], bytearray):
            acts += [("inplace", k, "append", lambda v: v.append(1)), ("inplace", k, "flip", lambda v: v.__setitem__(0, v[0] ^ 1)), ("inplace", k, "clear", lambda v: v.clear())]
        if isinstance(contents[k], Obj):
            acts += [("inplace", k, "attribute", lambda v: setattr(v, "raw", v.raw + b"!"))]
        if isinstance(contents[k], Holder):
            acts += [("inplace", k, "item", lambda v: v.items.append(b"z"))]
    for a, b in itertools.combinations(keys, 2):
        acts.append(("swap", a, b, None))
    acts += [("add", x, "", b"new") for x in (b"", b"\x12\x99", b"\x77", keys[0] + b"\x00", keys[0][:-1]) if x not in contents]

    def perform(ds, act):
        kind = act[0]
        if kind in ("replace", "add"):
            ds[act[1]] = act[3]
        elif kind == "remove":
            ds.pop(act[1], None)
        elif kind == "inplace":
            if act[1] in ds and type(ds[act[1]]) is type(contents[act[1]]):
                act[3](ds[act[1]])
        elif kind == "swap":
            if act[1] in ds and act[2] in ds:
                ds[act[1]], ds[act[2]] = ds[act[2]], ds[act[1]]

    def warm(t, ds):
        """Read everything in every way; nothing read now may be believed later."""
        for k in keys:
            attempt(t.get, k), attempt(t.__getitem__, k), attempt(t.get_reference, k), attempt(t.contains, k)
        attempt(lambda: (list(t.items()), list(t.values()), len(t), list(t.keys())))
        if keys:
            attempt(t.get_proof_of_inclusion, keys[0])
        t.root_hash(), attempt(hash, t)

    def judge(acts_done, warmed=False):
        t, ds = build()
        if warmed:
            warm(t, ds)
        for i, a in enumerate(acts_done):
            perform(ds, a)
            if warmed and i + 1 < len(acts_done):
                warm(t, ds)
        ctx.count("states")
        ctx.count("transitions", len(acts_done))
        ctx.count("traces_validated_against_impl")

        def text():
            return "data storage changed by %s\ntrie of %r" % ("; ".join("%s %r %r" % (a[0], a[1], a[2] if a[0] != "replace" else a[3]) for a in acts_done), contents)

        def script(line):
            return ["from pymt.empt import EMPT"] + OBJ_SRC + ["ds = {}", "t = EMPT({}, ds, secure=%r)" % secure] + \
                ["t[%r] = %r" % kv for kv in olds] + ["t[%r] = %r" % kv for kv in contents.items()] + \
                ["del t[%r]" % k for k, _ in olds if k not in contents] + \
                (["for k in list(t): t.get(k), t[k]", "list(t.items()), list(t.values())"] if warmed else []) + \
                ["ds.clear(); ds.update(%r)" % ds, line]

        intact = {}
        for k in list(dict.fromkeys(keys + list(ds))):
            now = ds.get(k, MISSING)
            try:
                intact[k] = k in contents and now is not MISSING and raw(now) == raw(contents[k])
            except Exception:
                intact[k] = False
        for k in intact:
            for how, f in (("get", t.get), ("[]", t.__getitem__)):
                r = attempt(f, k)
                ctx.count("reads")
                if r[0] == "ok":
                    ctx.outcome("returned")
                    try:
                        same = k in contents and raw(r[1]) == raw(contents[k])
                    except Exception:
                        same = False
                    if not same:
                        ctx.report("%s(%r) returned %r, last written was %r\n%s" % (how, k, r[1], contents.get(k), text()), script(
                            "try: print('returned', t.get(%r))\nexcept Exception: pass\nelse: raise AssertionError('changed data returned')" % k))
                else:
                    ctx.outcome("raised")
                    if intact[k]:
                        ctx.report("%s(%r) raised %s although the value of this key was not changed\n%s" % (how, k, r[1], text()), script("t.get(%r)" % k))
        # bulk reads
        for name, f in (("items", lambda: list(t.items())), ("values", lambda: list(zip(t, t.values()))), ("popitem", lambda: [t.popitem()])):
            r = attempt(f)
            if r[0] == "ok":
                for k, v in r[1]:
                    try:
                        same = k in contents and raw(v) == raw(contents[k])
                    except Exception:
                        same = False
                    if not same:
                        ctx.report("%s returned %r for key %r, last written was %r\n%s" % (name, v, k, contents.get(k), text()), script(
                            "try: got = dict(t.items())\nexcept Exception: pass\nelse: raise AssertionError(got)"))

    def restore(act):
        """Tampered, read, put right again and read, tampered again and read, written anew and read."""
        t, ds = build()
        warm(t, ds)
        good = {k: copy.deepcopy(v) for k, v in ds.items()}
        lines = []

        def put(contents_now):
            ds.clear()
            ds.update({k: copy.deepcopy(v) for k, v in contents_now.items()})

        def expect_good(when, want):
            for k in keys:
                r = attempt(t.get, k)
                ctx.count("reads")
                if r[0] != "ok" or raw(r[1]) != raw(want[k]):
                    ctx.report("%s: get(%r) gave %r, expected %r\nafter %s %r %r; trie of %r" % (when, k, r, want[k], act[0], act[1], act[2], contents))
                    return False
            return True

        def expect_bad(when):
            for k in keys:
                r = attempt(t.get, k)
                ctx.count("reads")
                if r[0] == "ok" and raw(r[1]) != raw(contents[k]):
                    ctx.report("%s: get(%r) returned %r, last written was %r\nafter %s %r %r" % (when, k, r[1], contents[k], act[0], act[1], act[2]))
                    return False
            return True

        ctx.count("states", 4)
        ctx.count("transitions", 4)
        perform(ds, act)
        if not expect_bad("tampered"):
            return
        put(good)
        if not expect_good("tampered, read and put right", contents):
            return
        perform(ds, act)
        if not expect_bad("tampered a second time"):
            return
        put(good)
        want = dict(contents)
        for i, k in enumerate(keys):
            perform(ds, act)
            new = [b"anew-%d" % i, bytearray(b"anew"), Obj(b"anew")][i % 3]
            r = attempt(t.update, k, copy.deepcopy(new))
            put({**good, k: new})
            good = {x: copy.deepcopy(v) for x, v in ds.items()}
            want[k] = new
            if r[0] != "ok":
                ctx.report("writing %r over changed data raised %s\nafter %s %r %r" % (k, r[1], act[0], act[1], act[2]))
                return
            if not expect_good("written anew over changed data", want):
                return
        ctx.count("traces_validated_against_impl")

    n = 0
    for a in acts:
        n += 1
        if n % parts == part:
            judge([a])
            judge([a], True)
            if a[0] != "add":
                restore(a)
    for a, b in itertools.permutations(acts, 2):
        n += 1
        if n % parts == part and a[1] != b[1]:
            if len(acts) > 60 and n % 3:      # two-step tampering: keep replacement pairs with the most telling values
                if a[0] == b[0] == "replace" and a[2] not in ("value of another key", "truncated"):
                    continue
            judge([a, b], bool(n // parts % 2))
    ctx.sample("%d single and all ordered pairs of alterations of %r" % (len(acts), contents))


def c12_concat(ctx):
    """Values and keys whose concatenations coincide (the reference hashes key + data)."""
    from pymt.empt import EMPT
    word = b"abcdef"
    for secure in (False, True):
        for i in range(len(word)):
            for j in range(len(word)):
                ds = {}
                t = EMPT({}, ds, secure=secure)
                ki, kj = word[:i], word[:j]
                t[ki] = word[i:]
                if kj != ki:
                    t[kj] = word[j:]
                for k in (ki, kj):
                    for v in {word[n:] for n in range(len(word))}:
                        keep = ds[k]
                        ds[k] = v
                        r = attempt(t.get, k)
                        ctx.count("states")
                        ctx.count("transitions")
                        ctx.count("traces_validated_against_impl")
                        good = v == word[len(k):]
                        if (r == ("ok", v)) != good:
                            ctx.report("key %r holds %r, storage changed to %r: get gave %r" % (k, word[len(k):], v, r))
                        ds[k] = keep


def positions(n):
    """Every place within a short string; for long ones both ends, both sides of every power of two and a step of 61."""
    near = {x for k in range(20) for b in (1 << k, (1 << k) + 32, 3 << k) for x in (b - 1, b, b + 1)}
    return sorted(i for i in set(range(min(n, 80))) | set(range(max(0, n - 40), n)) | near | set(range(0, n, 61)) if 0 <= i < n)


def c12_long(ctx, length, secure):
    """A long value altered at one place, and the other ways to change a long value."""
    from pymt.empt import EMPT
    value = bytes((i * 7 + i // 251) % 256 for i in range(length))
    for wrap in (bytes, bytearray, Obj):
        ds = {}
        t = EMPT({}, ds, secure=secure)
        t[b"n"] = b"neighbour"
        t[b"long"] = wrap(value)
        ctx.count("states")
        stored = raw(ds[b"long"])

        def expect(what, new):
            ctx.count("transitions")
            ds[b"long"] = new
            for how, f in (("get", t.get), ("[]", t.__getitem__)):
                r = attempt(f, b"long")
                if r[0] == "ok":
                    ctx.report("%s of a %s of %d bytes changed by %s returned it" % (how, wrap.__name__, length, what), ["from pymt.empt import EMPT"] + OBJ_SRC + [
                        "ds = {}", "t = EMPT({}, ds, secure=%r)" % secure, "t[b'long'] = %s(bytes((i * 7 + i // 251) %% 256 for i in range(%d)))" % (wrap.__name__, length),
                        "ds[b'long'] = %r" % (new,), "try: t[b'long']\nexcept Exception: pass\nelse: raise AssertionError('changed data returned')"])
            if attempt(t.get, b"n") != ("ok", b"neighbour"):
                ctx.report("changing a long value makes another key unreadable")

        for i in positions(length):
            b = bytearray(value)
            b[i] ^= 1
            expect("bit 0 of byte %d" % i, wrap(bytes(b)))
        for i in (1, 32, 64, 256, 1024, 4096):
            if i < length:
                expect("dropping %d bytes at the end" % i, wrap(value[:-i]))
                expect("dropping %d bytes in front" % i, wrap(value[i:]))
                expect("keeping %d bytes" % i, wrap(value[:i]))
                expect("swapping two parts", wrap(value[i:] + value[:i]))
            expect("adding %d bytes" % i, wrap(value + bytes(i)))
        ds[b"long"] = wrap(value)
        got = attempt(t.get, b"long")
        if got[0] != "ok" or raw(got[1]) != stored:
            ctx.report("a %s of %d bytes that was put back is not readable: %r" % (wrap.__name__, length, got[0]))
        ctx.count("traces_validated_against_impl")


def large(count, secure, ds=None):
    """A full trie with many keys (history with overwrites and deletes), and its contents."""
    from pymt.empt import EMPT
    ds = {} if ds is None else ds
    ts = {}
    t, m = EMPT(ts, ds, secure=secure), {}
    for i in range(count):
        k = b"key %d" % i
        if i % 7 == 3:
            t[k] = b"old"
        t[k] = m[k] = [b"value %d" % i, bytearray(b"w" * (i % 70)), Obj(b"%d" % i)][i % 3]
        if i % 50 == 49:
            k = b"key %d" % (i - 20)
            del t[k]
            del m[k]
    return t, m, ds, ts


LARGE_SRC = ["from pymt.empt import EMPT"] + OBJ_SRC


def large_src(count, secure):
    return LARGE_SRC + ["ds = {}", "t, m = EMPT({}, ds, secure=%r), {}" % secure, "for i in range(%d):" % count, "    k = b'key %d' % i", "    if i % 7 == 3: t[k] = b'old'",
                        "    t[k] = m[k] = [b'value %d' % i, bytearray(b'w' * (i % 70)), Obj(b'%d' % i)][i % 3]",
                        "    if i % 50 == 49: k = b'key %d' % (i - 20); del t[k]; del m[k]"]


def c12_large(ctx, count, secure):
    """Alterations in a full trie with many keys."""
    t, m, ds, ts = large(count, secure)
    src = large_src(count, secure)
    ks = list(m)
    ctx.count("states")
    chosen = [ks[0], ks[1], ks[2], ks[len(ks) // 2], ks[-2], ks[-1]]
    for k in chosen:
        keep, other = ds[k], ks[(ks.index(k) + 3) % len(ks)]
        r0 = raw(keep)
        for new in (b"", b"changed", r0 + b"x", r0[:-1] + b"?", ds[other], bytearray(r0 + b"x"), Obj(r0), r0[::-1] + b"!"):
            if raw(new) == r0:
                continue
            ds[k] = new
            ctx.count("transitions", 2)
            for how, f in (("get", lambda: t.get(k)), ("[]", lambda: t[k]), ("items", lambda: dict(t.items())[k]) if k == chosen[3] else ("get", lambda: t.get(k))):
                r = attempt(f)
                if r[0] == "ok" and raw(r[1]) != r0:
                    ctx.report("a trie of %d keys: %s of %r returned %r, written was %r" % (len(m), how, k, r[1], r0), src + [
                        "ds[%r] = %r" % (k, new), "try: t[%r]\nexcept Exception: pass\nelse: raise AssertionError('changed data returned')" % k])
            for o in (other, ks[5]):
                r = attempt(t.get, o)
                if o != k and (r[0] != "ok" or raw(r[1]) != raw(m[o])):
                    ctx.report("a trie of %d keys: changing %r makes %r unreadable: %r" % (len(m), k, o, r))
            ds[k] = keep
        del ds[k]
        r = attempt(t.get, k)
        if r[0] == "ok":
            ctx.report("a trie of %d keys returned %r for %r, whose data is gone" % (len(m), r[1], k))
        ds[k] = keep
    ds[b"unknown"] = b"smuggled"
    if attempt(t.get, b"unknown")[0] == "ok":
        ctx.report("a trie of %d keys returns data that was never written through it" % len(m), src + ["ds[b'unknown'] = b'x'", "try: t[b'unknown']\nexcept Exception: pass\nelse: raise AssertionError"])
    del ds[b"unknown"]
    for k in ks:
        r = attempt(t.get, k)
        ctx.count("transitions")
        if r[0] != "ok" or raw(r[1]) != raw(m[k]):
            ctx.report("a trie of %d keys: %r is not readable with everything put back: %r" % (len(m), k, r))
    ctx.count("traces_validated_against_impl")


def c12_tasks(tier):
    big = bytes(range(256)) * 3
    sets = [
        ({b"\x12": b"one", b"\x12\x34": bytearray(b"two" * 20), b"\x12\x35": Obj(b"three")}, [(b"\x12", b"old"), (b"\x99", b"gone")]),
        ({b"k": b"", b"kk": b"k", b"": b"kkk"}, [(b"k", b"k")]),
        ({b"a": bytearray(b"same"), b"b": b"same", b"c": Obj(b"ame")}, [(b"a", b"first"), (b"b", Obj(b"first"))]),
        ({b"big": big, b"big2": big[:-1], b"h": Holder([b"x", b"y" * 60])}, []),
    ]
    out = [("c12_concat", {})]
    out += [("c12_large", dict(count=n, secure=s)) for n, s in [(300, True), (1100, False)] + ([(5000, False), (5000, True)] if tier == "thorough" else [])]
    out += [("c12_long", dict(length=n, secure=s)) for n, s in [(300, False), (1025, True), (4097, False), (9000, True)] + ([(20000, False), (70000, True)] if tier == "thorough" else [])]
    for c, o in sets:
        for s in (False, True):
            out += [("c12_tamper", dict(contents=c, secure=s, olds=o, part=p, parts=6)) for p in range(6)]
    return out


# ---------------------------------------------------------------- C13
def proof_pool(pairs, hist, secure):
    """Genuine, stale, foreign and damaged proofs around a full trie."""
    from pymt.empt import EMPT
    variants = [pairs, {k: v + b"!" for k, v in pairs.items()}]
    if len(pairs) > 1:
        variants.append(dict(list(pairs.items())[1:]))
    pool = []
    for n, m in enumerate(variants):
        t = EMPT(secure=secure)
        for k, v in m.items():
            t[k] = v
        for k in list(dict.fromkeys(list(pairs)[:5] + [b"", b"\x12\x99"] + [k + b"\x00" for k in list(pairs)[:2]])):
            for poe in (False, True):
                r = attempt(t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion, k)
                if r[0] != "ok":
                    continue
                p = r[1]
                pool.append(p)
                if n:
                    continue
                ns = list(p.proof)
                pool += [mk(p.target_key, p.trie_root, ns[1:], p.type), mk(p.target_key, p.trie_root, ns[:-1], p.type),
                         mk(p.target_key, b"\x00" * 32, ns, p.type), mk(p.target_key, t.root_hash(), ns, p.type), mk(b"\x12\x99", p.trie_root, ns, p.type),
                         mk(p.target_key, p.trie_root, ns, b"MPT-POI" if poe else b"MPT-POE"), mk(p.target_key, p.trie_root, ns + [ns[0]], p.type)]
    return pool


def c13_views(ctx, fam_name, part, parts, secure=False):
    from pymt.empt import EMPT, SparseEMPT, RootEMPT
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        hist = hists[-1]
        full, lock = EMPT(secure=secure), SparseEMPT(secure=secure)
        head = ["from pymt.empt import EMPT, SparseEMPT, RootEMPT", "t = EMPT(secure=%r)" % secure] + \
            ["t[%r] = %r" % o[1:] if o[0] == "u" else "del t[%r]" % o[1] for o in hist]

        def bad(what, tail=()):
            ctx.report("%s\nafter %s" % (what, show(hist)), head + list(tail))

        m = {}
        views = []
        for i, op in enumerate(hist):
            fam.apply(full, op)
            fam.apply(lock, op)
            ctx.count("transitions", 2)
            m = m | {op[1]: op[2]} if op[0] == "u" else {k: v for k, v in m.items() if k != op[1]}
            if lock.root_hash() != full.root_hash():
                bad("the same operations give another root on the sparse trie (step %d)" % i)
            if len(hist) < 12 or i > len(hist) - 4:
                views.append((m, full.root_hash(), full.get_sparse_trie(), full.get_root_trie()))
        views.append((pairs, full.root_hash(), full.get_sparse_trie(), full.get_root_trie()))
        ctx.count("states")
        ctx.count("traces_validated_against_impl")
        probes = list(dict.fromkeys(list(pairs)[:6] + universe[:4] + [k + b"\x00" for k in list(pairs)[:2]]))
        for vm, h, sp, rt in views:       # earlier views still show their moment
            ctx.count("views")
            rt2 = sp.get_root_trie()
            if not (sp.root_hash() == rt.root_hash() == rt2.root_hash() == h):
                bad("a derived view changed its root hash or never had it")
                continue
            if rt.secure is not secure or rt2.secure is not secure:
                bad("a root view has another mode", ["assert t.get_root_trie().secure is %r" % secure])
            for k in probes:
                r = attempt(sp.get_reference, k)
                if sp.contains(k) is not (k in vm) or (k in sp) is not (k in vm) or (r[0] == "ok") is not (k in vm) or \
                        (k in vm and (r[1].key, r[1].data) != (k, vm[k])):
                    bad("a sparse view of %r answers for key %r: contains %r, reference %r" % (vm, k, sp.contains(k), r),
                        ["s = t.get_sparse_trie()", "assert s.contains(%r) is (%r in t)" % (k, k), "r = %r not in t or s.get_reference(%r)" % (k, k)])
                    break
        sp, rt = views[-1][2], views[-1][3]
        if pairs and len(hist) < 30:
            # full, sparse and root accept and reject the same proofs
            holders = [("full", full), ("sparse", sp), ("root", rt), ("root of sparse", sp.get_root_trie()), ("lockstep sparse", lock)]
            for p in proof_pool(pairs, hist, secure):
                for poe in (False, True):
                    got = [accepts(h, p, poe) for _, h in holders]
                    ctx.count("verifications", len(got))
                    ctx.outcome("accepted by all" if all(got) else "rejected by all" if not any(got) else "mixed")
                    if len(set(got)) != 1:
                        bad("the views disagree on a proof (%s): target %r, %d nodes, type %s" % (
                            ", ".join("%s %s" % (n, g) for (n, _), g in zip(holders, got)), p.target_key, len(p.proof), p.type.decode()),
                            ["from pymt.proof import Proof", "p = Proof(target_key=%r, root_hash=%r, proof=%r, proof_type=%r)" % (p.target_key, p.trie_root, p.proof, p.type),
                             "def ok(v):\n    try: return bool(v.verify_proof_of_%s(p))\n    except Exception: return False" % ("exclusion" if poe else "inclusion"),
                             "assert ok(t) == ok(t.get_sparse_trie()) == ok(t.get_root_trie())"])
            for k in probes:
                for holder in (sp, lock):
                    poe = k not in pairs
                    g = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
                    r, f = attempt(getattr(holder, g), k), attempt(getattr(full, g), k)
                    if r[0] != "ok" or f[0] != "ok" or not accepts(full, r[1], poe) or not accepts(rt, r[1], poe) or not accepts(holder, f[1], poe):
                        bad("a sparse view's proof for %r is not accepted by the full trie (or the other way round): %r" % (k, r),
                            ["s = t.get_sparse_trie()", "p = s.%s(%r)" % (g, k), "assert t.%s(p) and t.get_root_trie().%s(p)" % ((g.replace("get", "verify"),) * 2)])
                    if attempt(getattr(holder, "get_proof_of_inclusion" if poe else "get_proof_of_exclusion"), k)[0] == "ok":
                        bad("a sparse view produces the wrong kind of proof for %r" % k)
        # independence and lockstep from here
        if len(pairs) > 20:
            continue
        more = [("d", k) for k in list(pairs)[:3]] + [("u", k, b"m" * 3) for k in probes[:2]] + [("u", b"\x31\x41", b"n" * 40)]
        for a, b in itertools.product(more + ["build_trie", "clear"], repeat=2):       # changes that replace everything
            if isinstance(a, tuple) and isinstance(b, tuple):
                continue
            f2 = EMPT(secure=secure)
            for op in hist:
                fam.apply(f2, op)
            s2, r2, h0 = f2.get_sparse_trie(), f2.get_root_trie(), f2.root_hash()
            for op in (a, b):
                if isinstance(op, tuple):
                    attempt(fam.apply, f2, op)
                else:
                    attempt(getattr(f2, op))
                ctx.count("transitions")
            tail = ["s, r, h = t.get_sparse_trie(), t.get_root_trie(), t.root_hash()"] + [
                ("t[%r] = %r" % o[1:] if o[0] == "u" else "t.pop(%r, None)" % o[1]) if isinstance(o, tuple) else "t.%s()" % o for o in (a, b)]
            if s2.root_hash() != h0 or r2.root_hash() != h0:
                bad("%r, %r on the full trie changed the root hash of a derived view" % (a, b), tail + ["assert s.root_hash() == h == r.root_hash()"])
            for k in probes:
                r = attempt(s2.get_reference, k)
                if (r[0] == "ok") is not (k in pairs) or attempt(s2.contains, k) != ("ok", k in pairs) or (k in pairs and r[1].data != pairs[k]):
                    bad("%r, %r on the full trie changed what a derived view says about %r: %r" % (a, b, k, r), tail + ["assert s.contains(%r) is %r" % (k, k in pairs)] + (
                        ["assert s.get_reference(%r).data == %r" % (k, pairs[k])] if k in pairs else []))
                    break
        for a, b in itertools.product(more, repeat=2):
            if a[0] == b[0] == "d" and a[1] == b[1]:
                continue
            f2 = EMPT(secure=secure)
            for op in hist:
                fam.apply(f2, op)
            s2, r2, h0 = f2.get_sparse_trie(), f2.get_root_trie(), f2.root_hash()
            fam.apply(f2, a)
            m1 = pairs | {a[1]: a[2]} if a[0] == "u" else {k: v for k, v in pairs.items() if k != a[1]}
            if s2.root_hash() != h0 or r2.root_hash() != h0 or any(s2.contains(k) is not (k in pairs) for k in probes):
                bad("changing the full trie (%s) affected a derived view" % show([a]), ["s = t.get_sparse_trie()", "h = s.root_hash()"])
            h1 = f2.root_hash()
            if b[0] == "u" or b[1] in pairs:
                r = attempt(fam.apply, s2, b)
                if r[0] != "ok":
                    bad("%s on a sparse view raised %s" % (show([b]), r[1]))
                if f2.root_hash() != h1 or any(f2.contains(k) is not (k in m1) for k in probes) or any(attempt(f2.get, k) != ("ok", m1[k]) for k in list(m1)[:4]):
                    bad("changing a sparse view (%s) affected the full trie" % show([b]))
            ctx.count("transitions", 2)
            # same further operations on both
            s3 = full.get_sparse_trie()
            f3 = EMPT(secure=secure)
            for op in hist:
                fam.apply(f3, op)
            for op in (a, b):
                if op[0] == "d" and attempt(f3.delete, op[1])[0] != "ok":
                    if attempt(s3.delete, op[1])[0] == "ok":
                        bad("a sparse view deletes a key that the full trie does not have")
                    continue
                if op[0] == "d":
                    s3.delete(op[1])
                else:
                    f3.update(op[1], op[2])
                    s3[op[1]] = op[2]
                if s3.root_hash() != f3.root_hash():
                    bad("the same operations (%s) give different roots on a sparse view and the full trie" % show([a, b]))
                    break
            ctx.count("transitions", 2)
        ctx.sample(show(hist))


def c13_objects(ctx, secure):
    """Values with an RLP codec and bytearrays through the sparse view."""
    from pymt.empt import EMPT, SparseEMPT
    vals = [b"v", bytearray(b"w" * 40), Obj(b"x" * 3), Holder([b"a", b"b" * 60])]
    for idx in itertools.product(range(len(vals)), repeat=3):
        full, sp = EMPT(secure=secure), SparseEMPT(secure=secure)
        for k, i in zip(bs("12", "1234", ""), idx):
            full[k] = vals[i]
            r = attempt(sp.update, k, vals[i])
            ctx.count("transitions", 2)
            if r[0] != "ok" or sp.root_hash() != full.root_hash():
                ctx.report("setting %r to %r on the sparse trie: %r, root %s the full trie's" % (k, vals[i], r, "equals" if sp.root_hash() == full.root_hash() else "differs from"))
                return
            if sp.get_reference(k) != full.get_reference(k):
                ctx.report("references for %r differ" % vals[i])
        ctx.count("states")
        ctx.count("traces_validated_against_impl")
        h = sp.root_hash()
        for v in BADVALUES:
            if attempt(sp.update, b"\x12", v)[0] == "ok" or sp.root_hash() != h:
                ctx.report("the sparse trie took the unsupported value %r" % (v,))
        for k in BADKEYS:
            if attempt(sp.update, k, b"v")[0] == "ok" or attempt(sp.contains, k)[0] == "ok":
                ctx.report("the sparse trie took the key %r" % (k,))
        if attempt(sp.__getitem__, b"\x12")[0] == "ok":
            ctx.report("the sparse trie returned data it does not have")
        del sp[b"\x12"]
        del full[b"\x12"]
        if sp.root_hash() != full.root_hash() or attempt(sp.delete, b"\x12")[0] == "ok":
            ctx.report("deleting through the sparse trie differs from the full trie")


def c13_revisit(ctx, depth, first, secure=False, viewing=True):
    """Every sequence of changes over a few keys and values (states are left and reached again), views taken after every step
    or only at the end; each view must show the state it was taken in, whatever was seen before."""
    from pymt.empt import EMPT
    k1, k2 = b"\x12\x34", b"\x12"
    ops = [("set", k1, b"A" * 40, 0), ("set", k1, b"B" * 40, 0), ("set", k2, b"A" * 40, 0), ("set", k2, b"b", 0), ("del", k1, 0), ("del", k2, 0), ("build",), ("clear",)]

    def show_h(h):
        return "; ".join("t.build_trie()" if o[0] == "build" else op_line(o) for o in h)

    def do(t, m, op):
        if op[0] == "build":
            r = attempt(t.build_trie)
            return None if r[0] == "ok" else "build_trie raised " + r[1]
        return do_op(t, m, op)

    def again(hist):
        t, m = EMPT(secure=secure), {}
        views = [take(t, m)] if viewing else []
        for op in hist:
            do(t, m, op)
            if viewing:
                views.append(take(t, m))
        return t, m, views

    def take(t, m):
        sp, rt = t.get_sparse_trie(), t.get_root_trie()
        return dict(m), sp, rt, sp.get_root_trie(), t

    def judge(view, full, hist, fresh):
        m, sp, rt, rt2, _ = view
        want = expected_root(m, secure)
        ctx.count("views")
        e = None
        if not (sp.root_hash() == rt.root_hash() == rt2.root_hash() == want):
            e = "a view of %r has the root hashes %s" % (m, [x.root_hash().hex()[:8] for x in (sp, rt, rt2)])
        for k in (k1, k2, b""):
            r = attempt(sp.get_reference, k)
            if attempt(sp.contains, k) != ("ok", k in m) or (r[0] == "ok") is not (k in m) or k in m and (r[1].key, r[1].data) != (k, m[k]):
                e = e or "a sparse view of %r answers %r for %r" % (m, r, k)
            if e or not fresh or not m:
                continue
            poe = k not in m
            p = attempt(full.get_proof_of_exclusion if poe else full.get_proof_of_inclusion, k)
            if p[0] != "ok" or not all(accepts(v, p[1], poe) for v in (full, sp, rt, rt2)):
                e = "the proof for %r is not accepted by all views" % k
        if e:
            ctx.report("%s\nafter %s%s" % (e, show_h(hist), ", views taken after every step" if viewing else ""),
                       ["from pymt.empt import EMPT", "t = EMPT(secure=%r)" % secure, "views = []"] + [
                           x for o in hist for x in ("t.build_trie()" if o[0] == "build" else op_line(o), "s = t.get_sparse_trie(); views.append((t.root_hash(), s, t.get_root_trie(), s.get_root_trie()))")] +
                       ["for h, *vs in views:\n    for v in vs: assert v.root_hash() == h, (h, v)"])
        return not e

    def visit(t, m, views, hist):
        ctx.count("states")
        if not viewing and len(hist) == depth:
            views = [take(t, m)]
        if views and not judge(views[-1], t, hist, True):
            return
        if len(hist) == depth:
            for v in views[:-1]:
                if not judge(v, t, hist, False):
                    return
            ctx.count("traces_validated_against_impl")
            return
        for op in ops:
            if op[0] == "del" and op[1] not in m or op[0] == "clear" and not m:
                continue
            try:
                t2, views2 = copy.deepcopy((t, views))
                m2 = dict(m)
            except Exception:
                t2, m2, views2 = again(hist)
            e = do(t2, m2, op)
            ctx.count("transitions")
            if e:
                ctx.report("%s: %s\nafter %s" % (show_h([op]), e, show_h(hist)))
                continue
            visit(t2, m2, views2 + [take(t2, m2)] if viewing else [], hist + [op])

    if ops[first][0] in ("del",):
        return
    t, m, views = again([ops[first]])
    visit(t, m, views, [ops[first]])


def c13_large(ctx, count, secure):
    """Views of a full trie with many keys and many stored nodes."""
    t, m, ds, ts = large(count, secure)
    src = large_src(count, secure)
    ctx.count("states")
    want = expected_root(m, secure)
    s, r = t.get_sparse_trie(), t.get_root_trie()
    sr = s.get_root_trie()
    if not (t.root_hash() == s.root_hash() == r.root_hash() == sr.root_hash() == want):
        ctx.report("views of a trie of %d keys have another root hash" % len(m), src + ["assert t.root_hash() == t.get_sparse_trie().root_hash() == t.get_root_trie().root_hash()"])
    ks = list(m)

    def refs(view, mm, what):
        for k in ks + [b"key x", b"key 29"]:
            ctx.count("transitions")
            g = attempt(view.get_reference, k)
            if attempt(view.contains, k) != ("ok", k in mm) or (g[0] == "ok") != (k in mm) or (k in mm and (g[1].key, g[1].data) != (k, raw(mm[k]))):
                ctx.report("%s of a trie of %d keys: %r gives %r" % (what, len(m), k, g), src + ["s = t.get_sparse_trie()", "for k in m: assert s.contains(k) and s.get_reference(k).key == k"])
                return False
        return True

    if not refs(s, m, "the sparse view"):
        return
    for k in ks[::max(1, len(ks) // 40)] + [b"key x", b"zz", b"key 29", b"key"]:
        poe = k not in m
        g = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
        a, b = attempt(getattr(t, g), k), attempt(getattr(s, g), k)
        ctx.count("transitions", 2)
        if a[0] != "ok" or b[0] != "ok" or a[1].proof != b[1].proof or not all(accepts(v, p, poe) for v in (t, s, r, sr) for p in (a[1], b[1])):
            ctx.report("the proof for %r in a trie of %d keys is not accepted by all views: %r %r" % (k, len(m), a[0], b[0]))
    m2 = dict(m)
    for op in [("set", b"new", b"v" * 40), ("del", ks[0]), ("set", ks[-1], b"other"), ("del", ks[len(ks) // 2])]:
        if op[0] == "set":
            s.update(op[1], op[2])
            m2[op[1]] = op[2]
        else:
            s.delete(op[1])
            del m2[op[1]]
        ctx.count("transitions")
        if s.root_hash() != expected_root(m2, secure):
            ctx.report("the sparse view of a trie of %d keys gets a wrong root after %r" % (len(m), op))
            return
    if t.root_hash() != want or r.root_hash() != want:
        ctx.report("changing the sparse view of a trie of %d keys changed the full trie or its root view" % len(m))
    e = full_errors(t, m, ks[:50] + [b"new"], secure)
    if e:
        ctx.report("changing the sparse view of a trie of %d keys: %s" % (len(m), e[0]))
    refs(s, m2, "the changed sparse view")
    ctx.count("traces_validated_against_impl")


def c13_tasks(tier):
    return [("c13_large", dict(count=n, secure=s)) for n, s in [(300, True), (1600, False)] + ([(6000, False), (6000, True)] if tier != "quick" else [])] + c13_tasks_families(tier) + [("c13_revisit", dict(depth=(5 if viewing else 6) if tier == "quick" else 7, first=i, secure=s, viewing=viewing))
                                       for i in (0, 1, 2, 3, 6) for s in (False, True) for viewing in (True, False) if viewing or not s]


def c13_tasks_families(tier):
    th = tier == "thorough"
    fams = [("tern2", 6), ("chain_s", 6), ("chain2_s", 3), ("twins", 4), ("words_3", 3), ("nib", 2), ("long_s", 6), ("big_s", 1), ("huge", 2), ("values_s", 12)]
    sec = [("chain_4", 3), ("words_3", 2), ("big_s", 1), ("twins", 2)]
    if th:
        fams += [("words_s", 4), ("tern3m", 8), ("tern3s", 8), ("wide_s", 4), ("chain", 8)]
        sec += [("tern2", 8), ("tern3m", 8)]
    return [("c13_views", dict(fam_name=f, part=p, parts=n)) for f, n in fams for p in range(n)] + \
        [("c13_views", dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in sec for p in range(n)] + \
        [("c13_objects", dict(secure=s)) for s in (False, True)]


# ---------------------------------------------------------------- C14
def c14_rebuild(ctx, fam_name, part, parts, secure=False):
    from pymt.empt import EMPT
    for pairs, hists, universe in fam.states(fam_name, part, parts):
        for variant in range(3):
            data = {k: [v, bytearray(v), Obj(v)][(i + variant) % 3] for i, (k, v) in enumerate(pairs.items())}
            want = expected_root(data, secure)
            extra = {k: b"extra" * 9 for k in universe if k not in pairs}
            befores = [("empty trie", {}), ("the same pairs", dict(data)), ("one pair more", dict(data) | dict(list(extra.items())[:1])),
                       ("other pairs", dict(list(extra.items())[:4])), ("other values", {k: raw(v) + b"?" for k, v in data.items()})]
            if variant:
                befores = befores[:1] + befores[3:4]
            for name, before in befores:
                for order in ((0, 1) if len(data) > 1 else (0,)):
                    ts, ds = {}, {}
                    t = EMPT(ts, ds, secure=secure)
                    for k, v in before.items():
                        t[k] = v
                    # the data storage gets its contents without the trie
                    ds.clear()
                    ds.update(dict(reversed(list(data.items()))) if order else data)
                    script = ["from pymt.empt import EMPT, DataReference"] + OBJ_SRC + ["ts, ds = {}, {}", "t = EMPT(ts, ds, secure=%r)" % secure] + \
                        ["t[%r] = %r" % kv for kv in before.items()] + ["ds.clear(); ds.update(%r)" % dict(ds), "t.build_trie()",
                                                                          "f = EMPT(secure=%r)" % secure] + ["f[%r] = %r" % kv for kv in data.items()]

                    def bad(what, tail=()):
                        ctx.report("rebuilding over %s: %s\ndata %r" % (name, what, dict(list(data.items())[:6])), script + ["assert t.root_hash() == f.root_hash()"] + list(tail))

                    r = attempt(t.build_trie)
                    ctx.count("transitions")
                    if r[0] != "ok":
                        bad("build_trie raised " + r[1])
                        continue
                    ctx.count("states")
                    if t.root_hash() != want:
                        bad("the root hash is not that of the pairs")
                        continue
                    probes = list(dict.fromkeys(list(data)[:8] + universe[:4]))
                    e = full_errors(t, data, probes, secure) or (items_error(t, data) and (items_error(t, data), "pass"))
                    if e:
                        bad(e[0], [e[1]])
                        continue
                    f = EMPT(secure=secure)
                    for k, v in data.items():
                        f[k] = v
                    if data:
                        for k in probes[:8]:
                            poe = k not in data
                            g = "get_proof_of_exclusion" if poe else "get_proof_of_inclusion"
                            a, b = attempt(getattr(t, g), k), attempt(getattr(f, g), k)
                            if a[0] != "ok" or b[0] != "ok" or a[1].proof != b[1].proof or not accepts(f, a[1], poe) or not accepts(t, b[1], poe) \
                                    or not accepts(t.get_root_trie(), b[1], poe) or not accepts(t.get_sparse_trie(), b[1], poe):
                                bad("proof for %r differs from that of a fresh trie: %r" % (k, a), ["assert t.%s(%r).proof == f.%s(%r).proof" % (g, k, g, k)])
                                break
                    # further changes, and rebuilding again after them and twice in a row
                    m2 = dict(data)
                    steps = [("set", b"\x31\x41", b"new" * 15, 0)] + [("del", k, 0) for k in list(data)[:2]] + [("set", k, b"", 1) for k in list(data)[:1]]
                    for n, op in enumerate(steps):
                        e = do_op(t, m2, op)
                        ctx.count("transitions")
                        if e or t.root_hash() != expected_root(m2, secure):
                            bad("%s afterwards: %s" % (op_line(op), e or "wrong root"), [op_line(o) for o in steps[:n + 1]])
                            break
                        if n % 2:
                            r = attempt(t.build_trie)
                            if r[0] != "ok" or t.root_hash() != expected_root(m2, secure):
                                bad("rebuilding again after %s: %r" % (op_line(op), r), [op_line(o) for o in steps[:n + 1]] + ["r = t.root_hash()", "t.build_trie()", "assert t.root_hash() == r"])
                                break
                    else:
                        e = full_errors(t, m2, list(m2)[:8], secure)
                        if e:
                            bad("after further changes: " + e[0], [op_line(o) for o in steps] + [e[1]])
                        h = t.root_hash()
                        t.build_trie()
                        if t.root_hash() != h:
                            bad("rebuilding twice changes the root hash", ["h = t.root_hash()", "t.build_trie()", "assert t.root_hash() == h"])
                    ctx.count("traces_validated_against_impl")
        ctx.sample(repr(data)[:300])


def c14_large(ctx, count, secure):
    """Rebuilding a trie with many keys."""
    t, m, ds, ts = large(count, secure)
    src = large_src(count, secure)
    ks = list(m)
    ctx.count("states")
    ds[b"unseen"] = m[b"unseen"] = b"put there directly"
    del ds[ks[3]]
    del m[ks[3]]
    ds[ks[5]] = m[ks[5]] = b"exchanged"
    for rep in range(2):
        r = attempt(t.build_trie)
        ctx.count("transitions")
        want = expected_root(m, secure)
        if r[0] != "ok" or t.root_hash() != want:
            ctx.report("rebuilding a trie of %d keys: %s, another root than that of the pairs" % (len(m), r[0]), src + ["t.build_trie()", "f = EMPT(secure=%r)" % secure, "for k in ds: f[k] = ds[k]", "assert t.root_hash() == f.root_hash()"])
            return
        e = full_errors(t, m, list(m) + [ks[3], b"zz"], secure) or (items_error(t, m) and (items_error(t, m), "pass"))
        if e:
            ctx.report("after rebuilding a trie of %d keys: %s" % (len(m), e[0]))
            return
        for k in list(m)[::max(1, len(m) // 30)] + [ks[3], b"zz"]:
            poe = k not in m
            p = attempt(t.get_proof_of_exclusion if poe else t.get_proof_of_inclusion, k)
            ctx.count("transitions")
            if p[0] != "ok" or not accepts(t, p[1], poe) or not accepts(t.get_root_trie(), p[1], poe):
                ctx.report("after rebuilding a trie of %d keys there is no valid proof for %r" % (len(m), k))
        for op in [("set", b"late", b"l" * 50, 0), ("del", ks[0], 0), ("set", ks[7], b"again", 0)] if not rep else []:
            e = do_op(t, m, op)
            if e or t.root_hash() != expected_root(m, secure):
                ctx.report("after rebuilding a trie of %d keys, %s: %s" % (len(m), op_line(op), e or "wrong root"))
                return
    ctx.count("traces_validated_against_impl")


def c14_tasks(tier):
    th = tier == "thorough"
    fams = [("tern2", 6), ("chain_4", 4), ("chain2_s", 2), ("twins", 2), ("words_3", 2), ("wide_s", 2), ("nib", 2), ("long_s", 4), ("values_s", 8), ("big_s", 1)]
    sec = [("chain_4", 3), ("words_3", 2), ("big_s", 1)]
    if th:
        fams += [("chain_s", 4), ("words_s", 4), ("tern3m", 8), ("tern3s", 8), ("big", 6), ("wide", 4)]
        sec += [("tern2", 8), ("tern3m", 8), ("twins", 2)]
    return [("c14_large", dict(count=n, secure=s)) for n, s in [(300, True), (1100, False)] + ([(5000, False), (5000, True)] if th else [])] + \
        [("c14_rebuild", dict(fam_name=f, part=p, parts=n)) for f, n in fams for p in range(n)] + \
        [("c14_rebuild", dict(fam_name=f, part=p, parts=n, secure=True)) for f, n in sec for p in range(n)]


# ---------------------------------------------------------------- C15
def kinds():
    """name -> (constructor, operations, observation); operations get the object and must not raise."""
    from pymt.mpt import MPT
    from pymt.empt import EMPT, SparseEMPT, RootEMPT
    from pymt.mt import MerkleTree
    from pymt.merkletools import MerkleTools
    from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
    tops = [lambda o: o.update(b"\x12", b"v" * 40), lambda o: o.update(b"\x12\x34", b"w"), lambda o: o.update(b"", b"root value" * 4),
            lambda o: attempt(o.delete, b"\x12"), lambda o: attempt(o.get_proof_of_inclusion, b"\x12")]

    def trie_view(o):
        out = [o.root_hash()]
        for k in (b"", b"\x12", b"\x12\x34", b"\x99"):
            out.append(attempt(o.contains, k))
            r = attempt(getattr(o, "get_reference", getattr(o, "get", None)), k)
            out.append(r[1] if r[0] == "raised" else (r[1] if isinstance(r[1], bytes) else (r[1].key, r[1].data)))
            for poe in (False, True):
                r = attempt(o.get_proof_of_exclusion if poe else o.get_proof_of_inclusion, k)
                out.append(r[1].proof if r[0] == "ok" else r[1])
        if hasattr(o, "__len__"):
            out.append(len(o))
        if isinstance(o, EMPT):
            out += [list(o), [raw(v) for v in o.values()]]
        if hasattr(o, "encode"):
            out.append(o.encode())
        return out

    mops = [lambda o: o.add_leaf(b"leaf1"), lambda o: o.add_leaf(b"x" * 32), lambda o: o.make_tree(), lambda o: o.reset_tree(),
            lambda o: attempt(o.get_proof_of_inclusion, b"leaf1")]

    def mt_view(o):
        r = attempt(o.get_merkle_root)
        return [o.get_leaf_count(), len(o), [o.get_leaf(i) for i in range(o.get_leaf_count())], r, o.get_tree_ready_state(), str(o), o.secure]

    def set_nick(n):
        return lambda o: setattr(o, "nickname", n)

    kops = [set_nick("anna"), set_nick("bert"), lambda o: o.generate_keypair(1024)]

    def key_view(o):
        r = attempt(lambda: o.public_key)
        s = attempt(lambda: o.sign(b"data"))
        return [o.nickname, r, str(o), s, attempt(lambda: o.to_key_string("")) if r[0] == "raised" else None]

    enc = MPT({})
    enc.update(b"\x12", b"seed" * 10)
    enc.update(b"\x99", b"s")
    code = enc.encode()
    sp = SparseEMPT()
    sp.update(b"\x12", b"seed" * 10)
    spcode = sp.encode_rlp()
    # a root without its nodes (computed by the reference): nothing can be read until the nodes are written
    bare = expected_root({b"\x12": b"v" * 40}, False)
    bops = [tops[4], lambda o: attempt(o.get_proof_of_exclusion, b"\x99"), lambda o: attempt(o.contains, b"\x12"), lambda o: attempt(o.update, b"\x12\x34", b"w")]
    node = ref.rlp([ref.hp(ref.nibbles(b"\x12"), True), b"v" * 40])
    fp = [mk(b"\x12", bare, (node,), b"MPT-POI"), mk(b"\x12", bare, (), b"MPT-POI"), mk(b"\x99", bare, (node,), b"MPT-POE")]
    rops = [lambda o: attempt(o.verify_proof_of_inclusion, fp[0]), lambda o: attempt(o.verify_proof_of_exclusion, fp[2]), lambda o: attempt(o.verify_proof_of_inclusion, fp[1]),
            lambda o: o.encode_rlp()]

    def root_view(o):
        return [o.root_hash(), o.secure] + [attempt(f, p) for f in (o.verify_proof_of_inclusion, o.verify_proof_of_exclusion) for p in fp] + [o.encode_rlp()]

    out = {
        "MPT({}, bare root)": (lambda: MPT({}, bare), bops, trie_view), "EMPT({}, {}, bare root)": (lambda: EMPT({}, {}, bare), bops, trie_view),
        "RootEMPT(bare root)": (lambda: RootEMPT(bare), rops, root_view), "RootEMPT(bare root, secure)": (lambda: RootEMPT(bare, True), rops, root_view),
        "MPT({})": (lambda: MPT({}), tops, trie_view), "MPT({}, secure)": (lambda: MPT({}, secure=True), tops, trie_view),
        "MPT.decode": (lambda: MPT.decode(code), tops, trie_view), "EMPT()": (lambda: EMPT(), tops + [lambda o: o.build_trie(), lambda o: o.clear()], trie_view),
        "EMPT(secure)": (lambda: EMPT(secure=True), tops + [lambda o: o.build_trie()], trie_view),
        "EMPT({})": (lambda: EMPT({}), tops, trie_view), "EMPT(data_storage={})": (lambda: EMPT(data_storage={}), tops, trie_view),
        "EMPT({}, {})": (lambda: EMPT({}, {}), tops, trie_view), "SparseEMPT()": (lambda: SparseEMPT(), tops, trie_view),
        "SparseEMPT(secure)": (lambda: SparseEMPT(secure=True), tops, trie_view), "SparseEMPT({})": (lambda: SparseEMPT({}), tops, trie_view),
        "SparseEMPT.decode_rlp": (lambda: SparseEMPT.decode_rlp(spcode), tops, trie_view),
        "MerkleTree()": (lambda: MerkleTree(), mops + [lambda o: o.put_list([b"p", b"q", b"r"])], mt_view),
        "MerkleTree(False)": (lambda: MerkleTree(secure=False, hash_type="sha512"), mops + [lambda o: o.get_merkle_root() if len(o) else 0], mt_view),
        "MerkleTree(False, sha256)": (lambda: MerkleTree(secure=False), mops, mt_view), "MerkleTree(sha3_256)": (lambda: MerkleTree(hash_type="sha3_256"), mops, mt_view),
        "MerkleTools()": (lambda: MerkleTools(), mops, mt_view), "MerkleTools(md5, secure)": (lambda: MerkleTools("md5", True), mops, mt_view),
    }
    for cls in (RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair):
        out[cls.__name__] = (lambda cls=cls: cls("start", _generate_keys=False), kops, key_view)
    return out


def c15_isolated(ctx, name, other):
    allk = kinds()
    make, ops, view = allk[name]
    others = [n for n in allk if (n == name or allk[n][2] is view) and n == other]
    depth = 2 if "Rsa" in name else 3
    for oname in others:
        omake, oops, oview = allk[oname]
        for warm in (False, True):         # the other object unused, or already filled
            for n in range(1, depth + 1):
                for seq in itertools.product(range(len(ops)), repeat=n):
                    if "Rsa" in name and seq.count(2) > 1:
                        continue
                    a, b = (make(), omake()) if not warm else (lambda b: (make(), b))(omake())
                    if warm:
                        for o in oops[:2]:
                            o(b)
                        if len(oops) > 2 and "Merkle" in oname:
                            oops[2](b)
                    before = view(b)
                    for i in seq:
                        ops[i](a)
                        ctx.count("transitions")
                    ctx.count("states")
                    ctx.count("traces_validated_against_impl")
                    if oview(b) != before:
                        ctx.report("operations %r on %s changed a separately created %s (%s)" % (list(seq), name, oname, "in use" if warm else "unused"))
                        return
                    # and a fresh object made afterwards starts empty
                    if n == depth and not warm and oview(omake()) != before and "Rsa" not in name:
                        ctx.report("after operations %r on %s a newly created %s does not start out like the first one" % (list(seq), name, oname))
                        return
    ctx.sample("%s against %s" % (name, ", ".join(others)))


def alone(make, ops, view, seq):
    """What an object shows after the operations, in a process where nothing else was done."""
    import multiprocessing
    mp = multiprocessing.get_context("fork")
    here, there = mp.Pipe(False)

    def child():
        o = make()
        for i in seq:
            ops[i](o)
        there.send_bytes(repr(view(o)).encode())

    pid = os.fork()
    if pid == 0:
        try:
            child()
        finally:
            os._exit(0)
    there.close()
    try:
        return here.recv_bytes().decode()
    except EOFError:
        return None
    finally:
        os.waitpid(pid, 0)
        here.close()


def c15_alone(ctx, name, other):
    """Two objects with interleaved operations: both show what they would show had the other never existed."""
    allk = kinds()
    make, ops, view = allk[name]
    omake, oops, oview = allk[other]
    merkle = view is oview and "Merkle" in name
    more = [(0, 1, 2), (0, 0, 2), (1, 0, 2), (0, 2, 0), (0, 2, 1), (0, 1, 2, 3), (0, 2, 1, 2), (1, 1, 2)] if merkle else [(0, 1, 2), (1, 2, 3)]

    def seqs(ops):
        return list(itertools.product(range(len(ops)), repeat=2)) + more

    want_a = {q: alone(make, ops, view, q) for q in seqs(ops)}
    want_b = {q: alone(omake, oops, oview, q) for q in seqs(oops)}
    for qa in seqs(ops):
        for qb in seqs(oops):
            for order in ("ab", "abab", "ba"):
                a, b = make(), omake()
                steps = {"ab": [(0, i) for i in qa] + [(1, i) for i in qb], "ba": [(1, i) for i in qb] + [(0, i) for i in qa],
                         "abab": [x for p in itertools.zip_longest([(0, i) for i in qa], [(1, i) for i in qb]) for x in p if x]}[order]
                for who, i in steps:
                    (oops if who else ops)[i](b if who else a)
                    ctx.count("transitions")
                ctx.count("states")
                ctx.count("traces_validated_against_impl")
                va, vb = repr(view(a)), repr(oview(b))
                if va != want_a[qa] or vb != want_b[qb]:
                    which, q = (name, qa) if va != want_a[qa] else (other, qb)
                    ctx.report("%s after operations %r shows something else than alone, because a %s was used as well (operations %r, order %s)\nalone %s\nhere  %s" % (
                        which, q, other if which == name else name, qb if which == name else qa, order,
                        str(want_a[qa] if va != want_a[qa] else want_b[qb])[:300], (va if va != want_a[qa] else vb)[:300]))
                    return
    ctx.sample("%s interleaved with %s" % (name, other))


def c15_tasks(tier):
    return c15_pairs(tier) + [("c15_alone", dict(name=p["name"], other=p["other"])) for _, p in c15_pairs(tier) if "Rsa" not in p["name"] and p["name"] <= p["other"]]


def c15_pairs(tier):
    names = ["MPT({}, bare root)", "EMPT({}, {}, bare root)", "RootEMPT(bare root)", "RootEMPT(bare root, secure)", "MPT({})", "MPT({}, secure)", "MPT.decode", "EMPT()", "EMPT(secure)", "EMPT({})", "EMPT(data_storage={})", "EMPT({}, {})", "SparseEMPT()", "SparseEMPT(secure)",
             "SparseEMPT({})", "SparseEMPT.decode_rlp", "MerkleTree()", "MerkleTree(False)", "MerkleTree(False, sha256)", "MerkleTree(sha3_256)", "MerkleTools()", "MerkleTools(md5, secure)", "RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]

    def group(n):
        return "Merkle" in n, "Rsa" in n
    return [("c15_isolated", dict(name=n, other=o)) for n in names for o in names if group(n) == group(o)]


# ---------------------------------------------------------------- C16
def words(n, alphabet):
    return [bytes(c) for k in range(n + 1) for c in itertools.product(alphabet, repeat=k)]


def c16_pairs(ctx, n, part, parts):
    from pymt.empt import DataReference
    W = words(n, (0x00, 0x61, 0x81))
    refs = [(k, d, DataReference(k, d)) for k in W for d in W]
    for i, (k, d, r) in enumerate(refs):
        if i % parts != part:
            continue
        ctx.count("states")
        twin = DataReference(bytes(k), bytes(d))
        if not (r == twin) or r != twin or hash(r) != hash(twin) or r.hash != twin.hash or hash(r) != hash(r):
            ctx.report("two references of key %r and data %r are unequal or hash differently" % (k, d))
        for k2, d2, r2 in refs:
            ctx.count("transitions")
            same = k == k2 and d == d2
            if (r == r2) is not same or (r != r2) is same or (same and hash(r) != hash(r2)):
                ctx.report("DataReference(%r, %r) == DataReference(%r, %r) is %r" % (k, d, k2, d2, r == r2),
                           ["from pymt.empt import DataReference", "assert (DataReference(%r, %r) == DataReference(%r, %r)) is %r" % (k, d, k2, d2, same)])
        for o in (None, 1, k, d, (k, d), "x"):
            if r == o:
                ctx.report("DataReference(%r, %r) == %r" % (k, d, o))
        ctx.count("traces_validated_against_impl")


def c16_codec(ctx, keys, datas):
    from pymt.empt import DataReference

    def expect_error(enc, what, orig, key=None):
        ctx.count("transitions")
        r = attempt(DataReference.decode, enc)
        if r[0] == "ok":
            ctx.report("decoding a reference with %s returned (%r, %r); original was %r" % (what, r[1].key, r[1].data, orig),
                       ["from pymt.empt import DataReference", "try: r = DataReference.decode(%r)\nexcept Exception: pass\nelse: raise AssertionError((r.key, r.data))" % enc], key)

    for k in keys:
        for d in datas:
            r = DataReference(k, d)
            enc = r.encode()
            ctx.count("states")
            back = attempt(DataReference.decode, enc)
            if back[0] != "ok" or back[1] != r or (back[1].key, back[1].data, back[1].hash) != (k, d, r.hash) or hash(back[1]) != hash(r) or back[1].encode() != enc:
                ctx.report("DataReference(%r, %r) does not survive encoding: %r" % (k, d, back), ["from pymt.empt import DataReference", "r = DataReference(%r, %r)" % (k, d), "assert DataReference.decode(r.encode()) == r"])
                continue
            ctx.count("traces_validated_against_impl")
            f = ref.unrlp(enc)
            if [bytes(x) for x in f[:3]] != [b"FF", k, d]:
                ctx.report("the encoding of DataReference(%r, %r) does not hold marker, key and data" % (k, d))
                continue
            # all byte strings at distance one bit, and length changes
            for i in positions(len(enc)):
                for bit in range(8) if len(enc) < 400 else (0, 7):
                    b = bytearray(enc)
                    b[i] ^= 1 << bit
                    expect_error(bytes(b), "bit %d of byte %d changed" % (bit, i), (k, d))
            for cut in [enc[:i] for i in (list(range(min(len(enc), 60))) + [len(enc) - 1])] + [enc + b"\x00", enc + enc, b"\x00" + enc, enc[1:]]:
                expect_error(cut, "length changed", (k, d))
            # field edits
            for marker in (b"", b"F", b"FE", b"FFF", b"ff", b"\xff", b"00"):
                expect_error(ref.rlp([marker] + f[1:]), "marker %r" % marker, (k, d))
            h = bytes(f[3])
            for h2 in (b"", b"\x01", h[:-1], h + b"\x00", bytes([h[0] ^ 1]) + h[1:] if h else b"\x02", ref.keccak(d), ref.keccak(k), ref.keccak(d + k), ref.keccak(b"FF" + k + d)):
                if h2 != h and ref.keccak(k + d).lstrip(b"\x00") != h2.lstrip(b"\x00"):
                    expect_error(ref.rlp(f[:3] + [h2]), "another hash", (k, d))
            for k2, d2 in [(k + b"x", d), (k, d + b"x"), (k[:-1], d), (k, d[:-1]), (d, k), (b"", d), (k, b""), (k + k, d), (k[::-1], d), (k, d[::-1])]:
                if (k2, d2) != (k, d):
                    expect_error(ref.rlp([b"FF", k2, d2, h]), "key and data %r" % ((k2, d2),), (k, d),
                                 key="key-data-boundary" if k2 + d2 == k + d else None)
            w = k + d
            for i in range(min(len(w), 8) + 1):
                if w[:i] != k:
                    expect_error(ref.rlp([b"FF", w[:i], w[i:], h]), "key and data %r" % ((w[:i], w[i:]),), (k, d), key="key-data-boundary")
            for shape in ([b"FF", k, d], [b"FF", k, d, h, b""], [b"FF", [k], d, h], [b"FF", k, [d], h], [[b"FF"], k, d, h], [k, d, b"FF", h], [], b"", [b"FF", k, d, [h]], [[b"FF", k, d, h]]):
                expect_error(ref.rlp(shape), "other structure", (k, d))
    for x in (None, 1, "text", bytearray(b"\xc0"), [b"FF"]):
        expect_error(x, "type %s" % type(x).__name__, None)
    for x in (None, 1, "t", bytearray(b"k"), [b"k"]):
        for a in ((x, b"d"), (b"k", x)):
            if attempt(DataReference, *a)[0] == "ok":
                ctx.report("DataReference%r did not raise" % (a,))
    ctx.sample("keys %r, data %r" % (keys[:4], datas[:4]))


def c16_tasks(tier):
    th = tier == "thorough"
    lead0 = []
    i = 0
    while len(lead0) < 3:      # hashes with a leading zero byte
        if ref.keccak(b"key" + b"%d" % i)[0] == 0:
            lead0.append(b"%d" % i)
        i += 1
    out = [("c16_pairs", dict(n=2, part=p, parts=4)) for p in range(4)]
    if th:
        out += [("c16_pairs", dict(n=3, part=p, parts=16)) for p in range(16)]
    W = words(2 if th else 1, (0x00, 0x61, 0x81)) + [b"ab", b"abc"]
    for k in W:
        out.append(("c16_codec", dict(keys=[k], datas=W)))
    lens = [31, 32, 33, 54, 55, 56, 57, 255, 256, 300]
    for n in (1025, 4097, 9000) + ((33000, 70000) if th else ()):
        out.append(("c16_codec", dict(keys=[b"key"], datas=[b"d" * n, bytes((i * 7 + i // 251) % 256 for i in range(n))])))
        out.append(("c16_codec", dict(keys=[bytes((i * 11 + i // 251) % 256 for i in range(n))], datas=[b"d", b"d" * 60])))
    out.append(("c16_codec", dict(keys=[b"key"], datas=lead0 + [b"d" * n for n in lens])))
    out.append(("c16_codec", dict(keys=[b"k" * n for n in lens], datas=[b"d", b"d" * 60])))
    return out
