"""C34 tries on every kind of storage, and reopened from their storages."""
import collections
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from . import ref
from .common import SRC, VERIF
from .fam import attempt

KEYS = [b"\x12\x34", b"\x12", b"\x12\x35", b""]
VALS = [b"A" * 40, b"b", b"C" * 1500]
PROBES = KEYS + [b"\x12\x34\x56", b"\x99"]


def need(k):
    if type(k) is not bytes:
        raise TypeError("the key of a storage is bytes, not %s" % type(k).__name__)
    return k


class TwoMethods:
    """Only what MPT documents to need."""

    def __init__(self, check=True):
        self._d = {}
        self._check = check

    def __getitem__(self, k):
        return self._d[need(k)]

    def __setitem__(self, k, v):
        if self._check and type(v) is not bytes:
            raise TypeError("stored values are bytes")
        self._d[need(k)] = v


class SixMethods(TwoMethods):
    """Only what EMPT documents to need."""

    def __delitem__(self, k):
        del self._d[need(k)]

    def __contains__(self, k):
        return need(k) in self._d

    def __len__(self):
        return len(self._d)

    def keys(self):
        return list(self._d)


class Missing(KeyError):
    pass


class Copies(SixMethods):
    """Hands out fresh copies and says what is missing with its own error; no two listings in one order."""
    turn = 0

    def __getitem__(self, k):
        if need(k) not in self._d:
            raise Missing(k)
        return bytes(bytearray(self._d[k]))

    def keys(self):
        self.turn += 1
        return sorted(self._d, reverse=self.turn % 2)


class Falsy(SixMethods):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class Mapping(collections.abc.MutableMapping):
    def __init__(self):
        self._d = {}

    def __getitem__(self, k):
        return self._d[need(k)]

    def __setitem__(self, k, v):
        self._d[need(k)] = v

    def __delitem__(self, k):
        del self._d[need(k)]

    def __iter__(self):
        return iter(sorted(self._d))

    def __len__(self):
        return len(self._d)


class Counting(dict):
    """A dictionary that is always said to hold something."""

    def __bool__(self):
        return True


KINDS = {"six methods": SixMethods, "copies": Copies, "falsy": Falsy, "mapping": Mapping, "dict subclass": Counting, "OrderedDict": collections.OrderedDict, "ChainMap": collections.ChainMap, "UserDict": collections.UserDict}
CLASSES = ("MPT", "SparseEMPT", "EMPT")


def contents(s):
    return {k: s[k] for k in s.keys()} if hasattr(s, "keys") else dict(s._d)


def make(cls, secure, nodes, data=None, root=None, again=False):
    from pymt.mpt import MPT
    from pymt.empt import EMPT, SparseEMPT
    if cls == "MPT":
        return MPT(nodes, root, secure) if root is not None else MPT(nodes, secure=secure)
    if cls == "SparseEMPT":
        return SparseEMPT(nodes, root, secure) if root is not None else SparseEMPT(nodes, secure=secure)
    if again and root is None:      # an emptied trie: the full trie is then opened without the nodes of earlier contents
        nodes = {}
    return EMPT(nodes, data, root, secure) if root is not None else EMPT(nodes, data, secure=secure)


def ops_of(cls):
    out = [("u", k, v) for k in KEYS for v in VALS] + [("d", k) for k in KEYS]
    if cls == "EMPT":
        out += [("build",), ("clear",), ("pop", KEYS[0])]
    return out


def do(t, op):
    if op[0] == "u":
        return attempt(t.update, op[1], op[2])
    if op[0] == "d":
        return attempt(t.delete, op[1])
    if op[0] == "pop":
        return attempt(t.pop, op[1])
    return attempt(t.build_trie if op[0] == "build" else t.clear)


def observe(cls, t, listing=True):
    """Everything a user can see of a trie, in comparable form."""
    from pymt.mpt import MPT
    from pymt.empt import SparseEMPT
    out = [t.root_hash()]
    for k in PROBES:
        out.append(attempt(t.contains, k))
        r = attempt((lambda k: (lambda x: (x.key, x.data, x.encode()))(t.get_reference(k))) if cls == "SparseEMPT" else t.get, k)
        out.append(r if r[0] == "ok" else "raised")
        if cls == "EMPT":
            r = attempt(lambda: t.get_reference(k).encode())
            out.append(r if r[0] == "ok" else "raised")
        for g, v in ((t.get_proof_of_inclusion, t.verify_proof_of_inclusion), (t.get_proof_of_exclusion, t.verify_proof_of_exclusion)):
            r = attempt(g, k)
            out.append((r[1].target_key, r[1].trie_root, r[1].proof, r[1].type, attempt(v, r[1])) if r[0] == "ok" else "refused")
    if cls == "EMPT":
        out += [len(t), attempt(lambda: sorted(t)), attempt(lambda: sorted(t.items())), attempt(lambda: sorted(t.keys())), attempt(lambda: sorted(t.values()))]
        s, r = t.get_sparse_trie(), t.get_root_trie()
        out += [s.root_hash(), r.root_hash(), s.secure if hasattr(s, "secure") else None, r.secure] + [attempt(s.contains, k) for k in PROBES]
        d = attempt(lambda: SparseEMPT.decode_rlp(s.encode_rlp()).root_hash()) if hasattr(s, "encode_rlp") else None
        out.append(d)
    elif listing:
        enc = getattr(t, "encode", None) or t.encode_rlp
        dec = MPT.decode if cls == "MPT" else getattr(SparseEMPT, "decode", None) or SparseEMPT.decode_rlp
        d = attempt(lambda: dec(enc()))
        out.append(d if d[0] != "ok" else (d[1].root_hash(), [attempt(d[1].contains, k) for k in PROBES]))
        if cls == "MPT":
            out.append(len(t))
    return out


def sane(nodes, data, cls):
    """The node storage holds nodes under their hashes, the data storage what was put in."""
    for k, v in contents(nodes).items():
        if type(v) is not bytes or ref.keccak(v) != k:
            return "the node storage holds %r under %r" % (v, k)
    return None


def c34_kinds(ctx, cls, kind, secure, depth):
    two = kind == "two methods"
    storage = TwoMethods if two else KINDS[kind]
    ops = ops_of(cls)
    for n in range(depth + 1):
        for seq in itertools.product(ops, repeat=n):
            nodes, data = storage(), storage()
            plain = ({}, {})
            a, b = make(cls, secure, nodes, data), make(cls, secure, *plain)
            ctx.count("states")
            e = None
            for op in seq:
                ctx.count("transitions", 2)
                x, y = do(a, op), do(b, op)
                if x[0] != y[0] or x[0] == "ok" and x[1] != y[1]:
                    e = "%r: %r, on a dictionary %r" % (op, x, y)
                    break
            if e is None:
                x, y = observe(cls, a, not two), observe(cls, b, not two)
                if x != y:
                    e = "the trie answers %r, on a dictionary %r" % next((p, q) for p, q in zip(x, y) if p != q)
            e = e or sane(nodes, data, cls)
            if e is None and cls == "EMPT" and contents(data) != plain[1]:
                e = "the data storage holds %r, a dictionary %r" % (contents(data), plain[1])
            # reopened on the same storage and on a copy
            if e is None:
                for same in ("the same storage", "a copy of it"):
                    st = (nodes, data) if same[4] == "s" else (dict(contents(nodes)), dict(contents(data)))
                    c = attempt(make, cls, secure, *st, a.root(), True)
                    if c[0] != "ok" or observe(cls, c[1], not two) != x:
                        e = "opened again on %s with root(): %s" % (same, c[1] if c[0] != "ok" else next(("%r, expected %r" % (p, q) for p, q in zip(observe(cls, c[1], not two), x) if p != q), ""))
                        break
            if e is not None:
                ctx.report("%s on a storage of the kind %r (secure=%s), after %r: %s" % (cls, kind, secure, seq, e[:1500]))
                return
            ctx.count("traces_validated_against_impl")
    ctx.sample("%s on %s: every sequence of up to %d operations" % (cls, kind, depth))


def c34_evolve(ctx, cls, secure, depth, part, parts):
    """A trie opened again after every one of its steps evolves as one that is not: every history."""
    for num, seq in enumerate(itertools.product(ops_of(cls), repeat=depth)):
        if num % parts != part:
            continue
        nodes, data, d2 = {}, {}, {}
        t, other = make(cls, secure, nodes, data), make(cls, secure, {}, d2)
        ctx.count("states")
        for op in seq:
            x, y = do(t, op), do(other, op)
            ctx.count("transitions", 2)
            if x[0] != y[0] or x[0] == "ok" and x[1] != y[1] or t.root_hash() != other.root_hash():
                ctx.report("%s (secure=%s), opened again after every step of %r: %r gives %r, without opening again %r" % (cls, secure, seq, op, x, y))
                return
            root = t.root()
            if cls == "EMPT" and root is None:
                nodes = {}
            t = make(cls, secure, nodes, data, root)
        if observe(cls, t, False) != observe(cls, other, False) or data != d2:
            ctx.report("%s (secure=%s), opened again after every step of %r: the answers differ" % (cls, secure, seq))
            return
        ctx.count("traces_validated_against_impl")
    ctx.sample("%s opened again after every step, every sequence of %d operations" % (cls, depth))


FRESH = """
import pickle, sys
sys.path[:0] = [%r, %r]
from mc import c_storage
out = []
for cls, secure, nodes, data, root in pickle.load(open(sys.argv[1], "rb")):
    r = c_storage.attempt(c_storage.make, cls, secure, nodes, data, root, True)
    out.append(c_storage.observe(cls, r[1]) if r[0] == "ok" else r)
pickle.dump(out, open(sys.argv[1], "wb"))
"""


def c34_process(ctx, cls, secure, depth, reverse):
    """All states up to the depth, opened in another process that never saw the first trie."""
    todo, want, seqs = [], [], []
    for n in range(1, depth + 1):
        for seq in itertools.product(ops_of(cls), repeat=n):
            nodes, data = {}, {}
            t = make(cls, secure, nodes, data)
            for op in seq:
                do(t, op)
                ctx.count("transitions")
            todo.append((cls, secure, dict(nodes), dict(data), t.root()))
            want.append(observe(cls, t))
            seqs.append(seq)
            ctx.count("states")
    if reverse:
        todo, want, seqs = todo[::-1], want[::-1], seqs[::-1]
    d = tempfile.mkdtemp(prefix="c34")
    try:
        p = os.path.join(d, "states")
        with open(p, "wb") as f:
            pickle.dump(todo, f)
        r = subprocess.run([sys.executable, "-B", "-c", FRESH % (SRC, VERIF), p], capture_output=True, text=True, timeout=300, cwd=d)
        if r.returncode:
            ctx.report("opening tries in another process failed:\n" + r.stderr[-1500:])
            return
        with open(p, "rb") as f:
            got = pickle.load(f)
    finally:
        shutil.rmtree(d)
    for s, g, w in zip(seqs, got, want):
        ctx.count("traces_validated_against_impl")
        if g != w:
            x = next(((a, b) for a, b in zip(g, w) if a != b), (g, w))
            ctx.report("%s (secure=%s) after %r, opened in another process on its storages: %r, expected %r" % ((cls, secure, s) + x))
            return


def c34_file(ctx, secure):
    """A storage in files (dbm.dumb), closed and opened again between the steps."""
    import dbm.dumb
    d = tempfile.mkdtemp(prefix="c34")
    try:
        for num, seq in enumerate(itertools.product([o for o in ops_of("EMPT") if o[0] != "pop"], repeat=2)):
            nodes, data = (dbm.dumb.open(os.path.join(d, "%s%d" % (x, num)), "c") for x in "nd")
            t, plain = make("EMPT", secure, nodes, data), make("EMPT", secure, {}, {})
            ctx.count("states")
            for op in ((("u", b"\x12\x36", b"seed" * 10),) + seq):
                x, y = do(t, op), do(plain, op)
                ctx.count("transitions", 2)
                root = t.root()
                if x[0] != y[0] or observe("EMPT", t) != observe("EMPT", plain):
                    ctx.report("a full trie (secure=%s) on a storage in files differs from one on a dictionary after %r" % (secure, seq))
                    return
                nodes.close()
                data.close()
                nodes, data = (dbm.dumb.open(os.path.join(d, "%s%d" % (x, num)), "n" if x == "n" and root is None else "c") for x in "nd")
                t = make("EMPT", secure, nodes, data, root)
                if observe("EMPT", t) != observe("EMPT", plain):
                    ctx.report("a full trie (secure=%s) whose files were closed and opened again differs after %r" % (secure, seq))
                    return
            ctx.count("traces_validated_against_impl")
    finally:
        shutil.rmtree(d)


def c34_tasks(tier):
    th = tier == "thorough"
    out = [("c34_kinds", dict(cls=c, kind=k, secure=s, depth=3 if th else 2 if c == "EMPT" else 3 if k in ("six methods", "copies") else 2)) for c in CLASSES for k in KINDS for s in (False, True)]
    out += [("c34_kinds", dict(cls="MPT", kind="two methods", secure=s, depth=3)) for s in (False, True)]
    out += [("c34_evolve", dict(cls=c, secure=s, depth=d, part=p, parts=4)) for c, d in (("MPT", 4 if th else 3), ("SparseEMPT", 4 if th else 3), ("EMPT", 4 if th else 3)) for s in (False, True) for p in range(4)]
    out += [("c34_process", dict(cls=c, secure=s, depth=3 if th else 2, reverse=r)) for c in CLASSES for s in (False, True) for r in (False, True)]
    return out + [("c34_file", dict(secure=s)) for s in (False, True)]
