"""Executes events of spec/Pymt.tla on the real tries and records the answers.

A command is an event without its answer.  World.do(command) runs it through the
public interface only and returns the event: the command plus "out" (and, for an
observation, what was observed).  Byte strings are hexadecimal text.
"""
import itertools
import signal
import threading
from collections.abc import MutableMapping

from Crypto.Hash import keccak

from pymt import EMPT, Proof, RootEMPT, SparseEMPT
from pymt import empt as _empt
from pymt.empt import DataReference
from pymt.mpt import MPT

OP_TIMEOUT = 10


class OpTimeout(Exception):
    pass


class Abort(Exception):
    """The execution cannot go on; the trace so far is the record of it."""

    def __init__(self, trace):
        super().__init__()
        self.trace = trace


def _alarm(*_):
    raise OpTimeout("operation did not end")


signal.signal(signal.SIGALRM, _alarm)


class Obj:
    """A value that encodes itself."""

    def __init__(self, raw):
        self.raw = raw

    def encode_rlp(self):
        return self.raw

    @staticmethod
    def decode_rlp(raw):
        return Obj(raw)

    def __eq__(self, other):
        return isinstance(other, Obj) and other.raw == self.raw

    def __hash__(self):
        return hash(self.raw)


class Alike(Obj):
    """Equal to every other value of the kind."""

    def __eq__(self, other):
        return isinstance(other, Obj)

    def __hash__(self):
        return 1


class Hollow(Obj):
    """Seems empty."""

    def __len__(self):
        return 0


class Store(MutableMapping):
    """A user-supplied storage: dict-like, but not a dict."""

    def __init__(self):
        self._rows = []

    def _at(self, key):
        for i, row in enumerate(self._rows):
            if row[0] == key:
                return i
        raise KeyError(key)

    def __getitem__(self, key):
        return self._rows[self._at(key)][1]

    def __setitem__(self, key, value):
        try:
            self._rows[self._at(key)] = (key, value)
        except KeyError:
            self._rows.append((key, value))

    def __delitem__(self, key):
        del self._rows[self._at(key)]

    def __iter__(self):
        return iter([k for k, _ in self._rows])

    def __len__(self):
        return len(self._rows)


class Outage(OSError):
    """The storage could not be reached."""


class Interrupt(BaseException):
    """The program was interrupted during an access to the storage."""


class Trouble(Exception):
    """An error of the storage's own."""


EXCS = {"os": Outage, "key": KeyError, "interrupt": Interrupt, "own": Trouble, "time": TimeoutError, "net": ConnectionError,
        "right": PermissionError, "full": MemoryError, "run": RuntimeError, "eof": EOFError, "file": FileNotFoundError}


class Fuse:
    """Lets the n-th access to the storages fail, and all later ones if it stays."""

    def __init__(self):
        self.left = None
        self.fired = False

    def arm(self, n, where="any", rw="rw", exc="os", stay=False):
        self.left, self.where, self.rw, self.exc, self.stay = n, where, rw, exc, stay
        self.fired = False

    def disarm(self):
        self.left = None
        return self.fired

    def tick(self, where, rw):
        if self.left is None or self.where not in ("any", where) or rw not in self.rw:
            return
        self.left -= 1
        if self.left == 0 or (self.left < 0 and self.stay):
            self.fired = True
            raise EXCS[self.exc]("storage")


class Flaky(Store):
    """A storage that fails when the fuse says so; a failed write is not done."""

    def __init__(self, fuse, where):
        super().__init__()
        self._fuse, self._where = fuse, where

    def __getitem__(self, key):
        self._fuse.tick(self._where, "r")
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        self._fuse.tick(self._where, "w")
        super().__setitem__(key, value)

    def __delitem__(self, key):
        self._fuse.tick(self._where, "w")
        super().__delitem__(key)

    def __iter__(self):
        self._fuse.tick(self._where, "r")
        return super().__iter__()


def token(value):
    if isinstance(value, bytes):
        return "b" + value.hex()
    if isinstance(value, bytearray):
        return "a" + value.hex()
    if isinstance(value, Obj):
        return "o" + hexof(value.raw)
    if value is None:
        return "n"
    return "?" + type(value).__name__


def untoken(tok):
    kind, raw = tok[0], tok[1:]
    if kind == "n":
        return None
    raw = bytes.fromhex(raw)
    return {"b": lambda: raw, "a": lambda: bytearray(raw), "o": lambda: [Obj, Alike, Hollow, Obj][sum(raw) % 4](raw)}[kind]()


def whole(ok, value, bad=-2):
    return value if ok and type(value) is int and abs(value) < 2**31 else bad


def hexof(value):
    return bytes(value).hex() if isinstance(value, (bytes, bytearray)) else "?" + type(value).__name__


class World:
    limit = OP_TIMEOUT

    def __init__(self):
        self.h = {}  # handles
        self.stores = {}  # node storages, by name
        self.data = {}  # data storages, by handle
        self.kind = {}
        self.named = {}  # the name of the node storage the user supplied, by handle
        self.roots = {}  # snapshots
        self.proofs = {}
        self.fuse = Fuse()
        self.objects = {}  # the last object written, by handle and key
        self.lacking = False  # a storage lost nodes
        self.crowded = False  # others write to the storages
        self.trace = []

    # -- running one call -------------------------------------------------
    def call(self, f):
        timed = threading.current_thread() is threading.main_thread()
        if timed:
            signal.setitimer(signal.ITIMER_REAL, self.limit)
        try:
            return True, f()
        except OpTimeout as e:
            self.stop = True
            return False, e
        except (Exception, Interrupt) as e:  # every error counts as a refusal
            return False, e
        finally:
            if timed:
                signal.setitimer(signal.ITIMER_REAL, 0)

    def out(self, f, show=None):
        ok, v = self.call(f)
        if not ok:
            return {"ok": False, "e": type(v).__name__}
        o = {"ok": True}
        if show is not None:
            ok, shown = self.call(lambda: show(v))
            if not ok:
                return {"ok": False, "e": "answer: " + type(shown).__name__}
            o.update(shown)
        return o

    def do(self, c):
        e = dict(c)
        self.stop = False
        if "fuse" in c:
            self.fuse.arm(**c["fuse"])
        getattr(self, "do_" + c["op"])(c, e)
        if "fuse" in c:
            e["fired"] = self.fuse.disarm()
        if e.get("fired") or self.lacking and "h" in c and not e.get("out", {"ok": True})["ok"]:
            e["after"] = self.after(c["h"])
        self.trace.append(e)
        if self.stop:
            raise Abort(self.trace)
        return e

    def need(self, e, f):
        """An answer the rest of the execution depends on."""
        ok, v = self.call(f)
        e["out"] = {"ok": True} if ok else {"ok": False, "e": type(v).__name__}
        self.stop = self.stop or not ok
        return v if ok else None

    def after(self, h):
        ok, v = self.call(lambda: self.h[h].root_hash())
        return {"hash": hexof(v), "rows": self.rows(h) if h in self.data else []}

    def rows(self, h):
        return [[hexof(k), token(self.data[h][k])] for k in self.data[h].keys()]

    # -- construction -----------------------------------------------------
    def empty(self, how, where):
        return Flaky(self.fuse, where) if how == "flaky" else Store() if how == "custom" else {}

    def store(self, name, how="dict"):
        if name not in self.stores:
            self.stores[name] = self.empty(how, "nodes")
        return self.stores[name]

    def make(self, c, root=None, data=None):
        kind, sec, how = c["kind"], c["sec"], c.get("how", "dict")
        sparse, rooted = SparseEMPT, RootEMPT
        if c.get("short"):  # by its other name
            sparse, rooted = getattr(_empt, "SEMPT", sparse), getattr(_empt, "REMPT", rooted)
        if kind == "root":
            return rooted(root, secure=sec) if sec else rooted(root)
        if how != "default":
            self.named[c["h"]] = c["st"]
        kw = {"secure": sec}
        if root is not None:
            kw["root"] = root
        if kind == "mpt":
            return MPT(self.store(c["st"], how), **kw)
        if kind == "sparse":
            if how == "default":
                return sparse(**kw)
            return sparse(self.store(c["st"], how), **kw)
        if data is None:
            if how == "default":
                return EMPT(**kw)
            data = self.empty(how, "data")
        self.data[c["h"]] = data
        return EMPT(self.store(c["st"], how), data, **kw)

    def add(self, h, kind, obj):
        self.h[h] = obj
        self.kind[h] = kind

    def do_new(self, c, e):
        self.add(c["h"], c["kind"], self.need(e, lambda: self.make(c)))

    def do_snap(self, c, e):
        t = self.h[c["h"]]

        def root():
            r = t.root() if self.kind[c["h"]] != "root" else t.root_hash()
            if r is not None and not isinstance(r, bytes):
                raise TypeError("not a root")
            return r

        self.roots[c["x"]] = self.need(e, root)

    def do_open(self, c, e):
        data = self.data[c["d"]] if c["kind"] == "empt" else None
        self.add(c["h"], c["kind"], self.need(e, lambda: self.make(c, self.roots[c["x"]], data)))

    def do_adopt(self, c, e):
        self.add(c["h"], "empt", self.need(e, lambda: self.make(dict(c, kind="empt"), None, self.data[c["d"]])))

    def do_codec(self, c, e):
        t, kind = self.h[c["h"]], self.kind[c["h"]]

        def again():
            if kind == "mpt":
                return MPT.decode(t.encode())
            return type(t).decode_rlp(t.encode_rlp())

        ok, obj = self.call(again)
        e["out"] = {"ok": ok} if ok else {"ok": False, "e": type(obj).__name__}
        self.add(c["h2"], kind, obj)

    def do_view(self, c, e):
        t = self.h[c["h"]]
        ok, obj = self.call(t.get_sparse_trie if c["kind"] == "sparse" else t.get_root_trie)
        e["out"] = {"ok": ok} if ok else {"ok": False, "e": type(obj).__name__}
        self.add(c["h2"], c["kind"], obj)

    # -- mutation ---------------------------------------------------------
    def given(self, c):
        """The value to write; "same": the object that is there already, changed meanwhile."""
        new, at = untoken(c["v"]), (c["h"], c["k"])
        if not isinstance(new, Obj):
            self.objects.pop(at, None)
            return new
        old, self.objects[at] = self.objects.get(at), new
        if old is None or not c.get("same") or self.lacking or self.crowded or "fuse" in c:
            return new
        stored = [v for d in {id(d): d for d in self.data.values()}.values() for v in d.values() if v is old]
        if len(stored) != 1 or self.data.get(c["h"], {}).get(bytes.fromhex(c["k"])) is not old:
            return new
        old.raw = new.raw
        self.objects[at] = old
        return old

    def lent(self, c, e, f, *args):
        """Calls f; buffers the trie has no reason to keep are used for something else afterwards."""
        e["out"] = self.out(lambda: f(*args))
        if self.kind[c["h"]] != "empt":
            for x in args:
                if isinstance(x, bytearray):
                    x[:] = b"\xa5" * len(x)

    @staticmethod
    def key(c):
        return bytearray.fromhex(c["k"]) if c.get("lent") else bytes.fromhex(c["k"])

    def do_update(self, c, e):
        self.lent(c, e, self.h[c["h"]].update, self.key(c), self.given(c))

    def do_setitem(self, c, e):
        self.lent(c, e, self.h[c["h"]].__setitem__, self.key(c), self.given(c))

    def do_delete(self, c, e):
        self.lent(c, e, self.h[c["h"]].delete, self.key(c))

    def do_delitem(self, c, e):
        self.lent(c, e, self.h[c["h"]].__delitem__, self.key(c))

    def do_pop(self, c, e):
        k = bytes.fromhex(c["k"])
        args = (k, untoken(c["default"])) if "default" in c else (k,)
        e["out"] = self.out(lambda: self.h[c["h"]].pop(*args), lambda v: {"v": token(v)})

    def do_popitem(self, c, e):
        e["out"] = self.out(self.h[c["h"]].popitem, lambda kv: {"k": hexof(kv[0]), "v": token(kv[1])})

    def do_clear(self, c, e):
        e["out"] = self.out(self.h[c["h"]].clear)

    def do_setdefault(self, c, e):
        e["out"] = self.out(
            lambda: self.h[c["h"]].setdefault(bytes.fromhex(c["k"]), untoken(c["v"])),
            lambda v: {"v": token(v)},
        )

    def do_rebuild(self, c, e):
        e["out"] = self.out(self.h[c["h"]].build_trie)

    def do_tamper(self, c, e):
        d, k = self.data[c["h"]], bytes.fromhex(c["k"])
        if "v" in c:
            d[k] = untoken(c["v"])
        else:
            del d[k]

    # -- failures ---------------------------------------------------------
    def do_ask(self, c, e):
        t, k = self.h[c["h"]], bytes.fromhex(c["k"])
        f, show = {
            "get": (lambda: t.get(k), lambda v: {"v": token(v)}),
            "item": (lambda: t[k], lambda v: {"v": token(v)}),
            "has": (lambda: t.contains(k), self.truth),
            "in": (lambda: k in t, self.truth),
            "ref": (lambda: t.get_reference(k), self.showref),
        }[c["what"]]
        e["out"] = self.out(f, show)

    def do_prune(self, c, e):
        """The storage, or a copy of it, loses nodes."""
        self.lacking = True
        st, gone = self.stores[c["st"]], {bytes.fromhex(n) for n in c["nodes"]}
        if c["to"] == c["st"]:
            for n in gone:
                del st[n]
        else:
            self.stores[c["to"]] = {n: st[n] for n in st.keys() if n not in gone}

    def do_mapview(self, c, e):
        """The mapping as a whole, in the ways Python offers."""
        t = self.h[c["h"]]

        def f():
            begun = iter(t)
            first = list(itertools.islice(begun, c["first"]))  # an iteration that is broken off for a while
            ks, vs, pairs = list(t.keys()), list(t.values()), list(t.items())
            if first + list(begun) != ks or [k for k, _ in pairs] != ks or [k for k in t] != ks:
                raise ValueError("not the same keys in every way")
            d = dict(t)
            if len(d) != len(ks) or not all(k in t.keys() and (k, v) in t.items() and v in t.values() for k, v in d.items()):
                raise ValueError("not the same pairs in every way")
            return ks, vs, bool(t), d

        e["out"] = self.out(f, lambda v: {
            "pairs": [[hexof(k), token(x)] for k, x in zip(v[0], v[1])] if len(v[0]) == len(v[1]) else [["?", "?"]],
            "dict": [[hexof(k), token(x)] for k, x in v[3].items()], "some": v[2]})

    def do_peek(self, c, e):
        """All of the mapping, in one way."""
        t, how = self.h[c["h"]], c["how"]
        f, show = {
            "values": (lambda: list(t.values()), None),
            "each value": (lambda: [t[k] for k in t], None),
            "items": (lambda: list(t.items()), dict.items),
            "dict": (lambda: list(dict(t).items()), dict.items),
            "update": (lambda: list(self.copied(t).items()), dict.items),
            "merged": (lambda: list({**t}.items()), dict.items),
        }[how]
        e["out"] = self.out(f, lambda v: {"pairs": [[hexof(k), token(x)] for k, x in v]} if show
                            else {"vals": [token(x) for x in v]})

    @staticmethod
    def copied(t):
        d = {}
        d.update(t)
        return d

    WRONG = {"str": "key", "int": 7, "none": None, "bytearray": bytearray(b"k"), "list": [1]}

    def do_refuse(self, c, e):
        t, what, bad = self.h[c["h"]], c["what"], self.WRONG[c["arg"]]
        f = {
            "update key": lambda: t.update(bad, b"v"),
            "update value": lambda: t.update(bytes.fromhex(c["k"]), bad),
            "update object": lambda: t.update(bytes.fromhex(c["k"]), Obj(bad)),
            "delete key": lambda: t.delete(bad),
            "contains key": lambda: t.contains(bad),
            "get key": lambda: t.get(bad),
            "reference key": lambda: t.get_reference(bad),
            "poi key": lambda: t.get_proof_of_inclusion(bad),
            "poe key": lambda: t.get_proof_of_exclusion(bad),
            "verify poi": lambda: t.verify_proof_of_inclusion(bad),
            "verify poe": lambda: t.verify_proof_of_exclusion(bad),
            "sparse read": lambda: t[bytes.fromhex(c["k"])],
            "setitem key": lambda: t.__setitem__(bad, b"v"),
            "setitem value": lambda: t.__setitem__(bytes.fromhex(c["k"]), bad),
            "item key": lambda: t[bad],
            "in key": lambda: bad in t,
            "delitem key": lambda: t.__delitem__(bad),
            "pop key": lambda: t.pop(bad, None),
            "setdefault key": lambda: t.setdefault(bad, b"v"),
            "setdefault value": lambda: t.setdefault(bytes.fromhex(c["k"]), bad),
            "setdefault nothing": lambda: t.setdefault(bytes.fromhex(c["k"])),
            "setdefault object": lambda: t.setdefault(bytes.fromhex(c["k"]), Obj(bad)),
        }[what]
        e["out"] = self.out(f)

    # -- observation ------------------------------------------------------
    def do_obs(self, c, e):
        t, kind = self.h[c["h"]], self.kind[c["h"]]
        keys = c["keys_"]
        e["get"], e["has"], e["ref"] = [], [], []
        if kind in ("mpt", "empt"):
            for i, k in enumerate(keys):
                key = bytes.fromhex(k)
                f = (lambda: t.get(key)) if i % 2 else (lambda: t[key])
                e["get"].append({"k": k, "out": self.out(f, lambda v: {"v": token(v)})})
        if kind != "root":
            for i, k in enumerate(keys):
                key = bytes.fromhex(k)
                f = (lambda: t.contains(key)) if i % 2 else (lambda: key in t)
                e["has"].append({"k": k, "out": self.out(f, self.truth)})
        if kind == "mpt" and not self.lacking:  # by the path in the trie, whatever the mode
            e["raw"] = []
            for i, k in enumerate(keys):
                if i % 4 < 2:
                    key = bytes.fromhex(k)
                    if i % 4:
                        key = keccak.new(digest_bits=256, data=key).digest()
                    e["raw"].append({"k": key.hex(), "out": self.out(lambda: t.contains(key, hash_key=False), self.truth)})
        if kind in ("empt", "sparse"):
            for k in keys:
                e["ref"].append({"k": k, "out": self.ref(t, bytes.fromhex(k))})
        ok, v = self.call(t.root_hash)
        e["hash"] = hexof(v)
        if kind != "root":
            ok, v = self.call(t.root)
            e["root"] = "" if v is None else hexof(v)
        if kind == "empt":
            ok, v = self.call(lambda: len(t))
            e["len"] = whole(ok, v)
            ok, v = self.call(lambda: [hexof(k) for k in t])
            e["keys"] = v if ok else ["?"]
            if c.get("items"):
                ok, v = self.call(lambda: [[hexof(k), token(x)] for k, x in t.items()])
                e["items"] = v if ok else [["?", "?"]]
        h = c["h"]
        if h in self.data:
            e["rows"] = self.rows(h)
        if self.crowded:
            if kind != "sparse":
                self.show_secure(t, e)
            return
        if kind == "mpt":
            ok, v = self.call(lambda: len(t))
            e["nodes"] = whole(ok, v)
        if kind != "empt" and not c.get("fast"):
            ok, v = self.call(lambda: len(t.encode() if kind == "mpt" else t.encode_rlp()))
            e["bytes"] = whole(ok, v)
        if self.named.get(h) in self.stores:
            e["store"] = len(self.stores[self.named[h]])
        if kind != "sparse":
            self.show_secure(t, e)

    def show_secure(self, t, e):
        ok, v = self.call(lambda: t.secure)
        if ok and isinstance(v, bool):
            e["secure"] = v

    @staticmethod
    def truth(v):
        if not isinstance(v, bool):
            raise TypeError("not a bool")
        return {"v": v}

    @staticmethod
    def showeq(r):
        eq, ne, same = r
        if eq is not (not ne):
            raise ValueError("== and != contradict")
        return {"eq": eq, "samehash": same}

    @staticmethod
    def showother(r):
        return {"eq": bool(r)}

    def ref(self, t, key):
        return self.out(lambda: t.get_reference(key), self.showref)

    @staticmethod
    def showref(r):
        return {"k": hexof(r.key), "v": hexof(r.data), "hash": "%064x" % r.hash}

    def do_eq(self, c, e):
        a, b = self.h[c["h"]], self.h[c["h2"]]
        e["out"] = self.out(lambda: (a == b, a != b, hash(a) == hash(b)),
                            self.showeq)

    def do_eqother(self, c, e):
        a = self.h[c["h"]]
        o = {"None": lambda: None, "int": lambda: 3, "bytes": lambda: a.root_hash(),
             "object": object, "hash": lambda: hash(a)}[c["what"]]
        e["out"] = self.out(lambda: a == o(), self.showother)

    # -- proofs -----------------------------------------------------------
    @staticmethod
    def showproof(p):
        return {"type": p.type.decode(), "target": p.target_key.hex(), "root": p.trie_root.hex(),
                "nodes": [n.hex() for n in p.proof]}

    def do_poi(self, c, e):
        self.made(c, e, lambda k: self.h[c["h"]].get_proof_of_inclusion(k))

    def do_poe(self, c, e):
        self.made(c, e, lambda k: self.h[c["h"]].get_proof_of_exclusion(k))

    def made(self, c, e, f):
        def g():
            self.proofs[c["p"]] = f(bytes.fromhex(c["k"]))
            return self.proofs[c["p"]]

        e["out"] = self.out(g, self.showproof)

    def do_forge(self, c, e):
        self.proofs[c["p"]] = self.need(e, lambda: Proof(
            target_key=bytes.fromhex(c["target"]),
            root_hash=bytes.fromhex(c["root"]),
            proof=tuple(bytes.fromhex(n) for n in c["nodes"]),
            proof_type=c["type"].encode(),
        ))

    def do_verify(self, c, e):
        t, p = self.h[c["h"]], self.proofs.get(c["p"])
        f = t.verify_proof_of_inclusion if c["kind"] == "poi" else t.verify_proof_of_exclusion
        e["out"] = self.out(lambda: f(p), self.truth)

    # -- data references --------------------------------------------------
    def do_drefenc(self, c, e):
        def f():
            r = DataReference(bytes.fromhex(c["k"]), bytes.fromhex(c["v"]))
            return r, r.encode()

        e["out"] = self.out(f, lambda x: {"v": x[1].hex(), "hash": "%064x" % x[0].hash})

    def do_drefdec(self, c, e):
        e["out"] = self.out(lambda: DataReference.decode(bytes.fromhex(c["bytes"])), self.showref)

    def do_drefeq(self, c, e):
        def f():
            a = DataReference(bytes.fromhex(c["k"]), bytes.fromhex(c["v"]))
            b = DataReference(bytes.fromhex(c["k2"]), bytes.fromhex(c["v2"]))
            return a == b, a != b, hash(a) == hash(b)

        e["out"] = self.out(f, self.showeq)
