"""Executes events of spec/Paths.tla on real nibble paths and nodes; drivers for them."""
import rlp

from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Branch, Extension, Leaf, Node

import keys
import words
from drivers import Driver
from words import few
from world import hexof, whole

KIND = {Leaf: "leaf", Extension: "ext", Branch: "branch"}
DIGITS = "0123456789abcdef"


def nibbles(p):
    return "".join(DIGITS[p.at(i)] for i in range(len(p)))


def shownode(n):
    kind = KIND.get(type(n), "?")
    return {"kind": kind, "path": "" if kind == "branch" else nibbles(n.path),
            "refs": [hexof(n.next_ref)] if kind == "ext" else [hexof(r) for r in n.branches] if kind == "branch" else [],
            "data": "" if kind == "ext" else hexof(n.data)}


class PDriver(Driver):
    """Paths and nodes by name."""

    def __init__(self, rnd):
        super().__init__(rnd)
        self.p, self.nodes = {}, {}

    # -- events --------------------------------------------------------------
    def path(self, c, e, f, show=None):
        def g():
            self.p[c["r"]] = f()
            return self.p[c["r"]]

        e["out"] = self.out(g, show or (lambda p: {"v": nibbles(p)}))
        if not e["out"]["ok"]:
            self.p.pop(c["r"], None)

    def do_pnew(self, c, e):
        raw = bytes.fromhex(c["data"])
        raw = {"bytes": raw, "array": bytearray(raw)}[c.get("as", "bytes")]
        self.path(c, e, lambda: NibblePath(raw, c["off"]) if c["off"] or c.get("given") else NibblePath(raw))

    def do_pcommon(self, c, e):
        self.path(c, e, lambda: self.p[c["p"]].common_prefix(self.p[c["q"]]))

    def do_pcombine(self, c, e):
        self.path(c, e, lambda: NibblePath.combine(self.p[c["p"]], self.p[c["q"]]))

    def do_pconsume(self, c, e):
        self.path(c, e, lambda: self.p.pop(c["p"]).consume(c["n"]))

    def do_pdecode(self, c, e):
        raw = bytes.fromhex(c["code"])
        leaf = []

        def f():
            p, kind = NibblePath.decode_with_type(raw)
            leaf.append(kind)
            return NibblePath.decode(raw) if c.get("bare") else p

        self.path(c, e, f, lambda p: {"v": nibbles(p), "isleaf": leaf[0] is True})

    def do_pobs(self, c, e):
        p = self.p[c["p"]]
        e["len"] = whole(*self.call(lambda: len(p)))
        ok, v = self.call(lambda: nibbles(p))
        e["nibs"] = v if ok else "?"
        for name, leaf in (("ext", False), ("leaf", True)):
            ok, v = self.call(lambda: p.encode(leaf) if leaf or c.get("given") else p.encode())
            e[name] = hexof(v) if ok else "?"
        ok, v = self.call(lambda: (repr(p), str(p)))
        e["shown"] = ok and all(isinstance(x, str) for x in v)

    def do_prel(self, c, e):
        p, q = self.p[c["p"]], self.p[c["q"]]

        def show(r):
            if r[0] is not (not r[1]):
                raise ValueError("== and != contradict")
            return {"eq": bool(r[0]), "starts": bool(r[2])}

        e["out"] = self.out(lambda: (p == q, p != q, p.starts_with(q)), show)

    def do_nnew(self, c, e):
        data, refs = bytes.fromhex(c["data"]), [bytes.fromhex(r) for r in c["refs"]]
        if c.get("array"):
            data, refs = bytearray(data), [bytearray(r) for r in refs]

        def f():
            if c["kind"] == "leaf":
                n = Leaf(self.p.pop(c["p"]), data)
            elif c["kind"] == "ext":
                n = Extension(self.p.pop(c["p"]), refs[0])
            else:
                n = Branch(refs) if c.get("bare") else Branch(refs, data)
            self.nodes[c["r"]] = n

        e["out"] = self.out(f)

    def do_nobs(self, c, e):
        n = self.nodes[c["p"]]
        for name, f in (("enc", n.encode), ("ref", lambda: Node.into_reference(n)), ("shell", lambda: n.encode(include_data=False))):
            ok, v = self.call(f)
            e[name] = hexof(v) if ok else "?"
        ok, v = self.call(lambda: shownode(n))
        e.update(v if ok else {"kind": "?", "path": "", "refs": [], "data": ""})

    def do_ncode(self, c, e):
        def f():
            raw = self.nodes[c["p"]].encode()
            self.nodes[c["r"]] = Node.decode(bytearray(raw) if c.get("array") else raw)
            return self.nodes[c["r"]]

        e["out"] = self.out(f, shownode)
        if not e["out"]["ok"]:
            self.nodes.pop(c["r"], None)

    def do_nmark(self, c, e):
        e["out"] = self.out(lambda: Node.decode(self.nodes[c["p"]].encode(), include_data=False), shownode)

    def do_nbad(self, c, e):
        e["out"] = self.out(lambda: Node.decode(bytes.fromhex(c["raw"])))

    def do_nwrong(self, c, e):
        e["out"] = self.out(WRONG[c["why"]])

    # -- shorthands ----------------------------------------------------------
    def make(self, op, **more):
        r = self.fresh("p")
        self.do({"op": op, "r": r, **more})
        if op == "pconsume":
            self.p.pop(more["p"], None)
        return r if r in self.p else None

    def pobs(self, p):
        self.do({"op": "pobs", "p": p, "given": self.rnd.random() < 0.5})

    def look(self):
        for p in list(self.p):
            self.pobs(p)


def a_path():
    return NibblePath(b"ab")


WRONG = {
    "leaf path": lambda: Leaf(b"ab", b"v"), "leaf data": lambda: Leaf(a_path(), "v"),
    "leaf without data": lambda: Leaf(a_path(), None), "extension path": lambda: Extension("ab", b"v" * 32),
    "extension reference": lambda: Extension(a_path(), None), "extension to a node": lambda: Extension(a_path(), Leaf(a_path(), b"v")),
    "branches in a tuple": lambda: Branch((b"",) * 16, b""), "branch to a number": lambda: Branch([b""] * 15 + [1], b""),
    "branch to nothing": lambda: Branch([None] + [b""] * 15, b""), "branch data": lambda: Branch([b""] * 16, "v"),
    "decoded text": lambda: Node.decode("c2"), "decoded list": lambda: Node.decode([b" ", b"v"]),
    "decoded with a number": lambda: Node.decode(Leaf(a_path(), b"v").encode(), include_data=1),
    "reference to bytes": lambda: Node.into_reference(b"ab"),
    "leaf encoded with a number": lambda: Leaf(a_path(), b"v").encode(include_data=1),
    "extension encoded with None": lambda: Extension(a_path(), b"v" * 32).encode(include_data=None),
    "branch encoded with text": lambda: Branch([b""] * 16, b"").encode(include_data="no"),
}

SIZES = [0, 1, 1, 2, 5, 20, 27, 28, 29, 30, 31, 32, 33, 54, 55, 56, 57, 255, 256, 300, 1100]


def some(rnd, n):
    return bytes(rnd.choice((0, 1, 0x7F, 0x80, 0xFF, rnd.randrange(256))) for _ in range(n))


def newpath(d):
    """A path of any origin."""
    rnd = d.rnd
    have = list(d.p)
    how = rnd.random()
    if how < 0.35 or len(have) < 2:
        raw = some(rnd, rnd.choice((0, 1, 1, 2, 3, 8, 32, 33)))
        return d.make("pnew", data=raw.hex(), off=rnd.randint(0, min(4, 2 * len(raw))), given=True,
                      **{"as": rnd.choice(("bytes", "bytes", "array"))})
    p, q = rnd.choice(have), rnd.choice(have)
    if how < 0.5:
        return d.make("pcombine", p=p, q=q)
    if how < 0.65:
        return d.make("pcommon", p=p, q=q)
    if how < 0.8:
        n = len(d.p[p])
        return d.make("pconsume", p=p, n=rnd.choice((0, min(1, n), n, rnd.randint(0, n))))
    leaf = rnd.random() < 0.5
    return d.make("pdecode", code=bytes(d.p[p].encode(leaf)).hex(), bare=rnd.random() < 0.3)


def pathwork(rnd):
    """Paths made from each other in any order; all are looked at again after each step."""
    d = PDriver(rnd)
    for _ in range(rnd.randint(8, 22)):
        newpath(d)
        if rnd.random() < 0.4:
            d.look()
        if len(d.p) > 1:
            p, q = few(rnd, sorted(d.p), 2)
            d.do({"op": "prel", "p": p, "q": rnd.choice((p, q, q))})
        if len(d.p) > 9:
            del d.p[rnd.choice(sorted(d.p))]
    d.look()
    return d.trace


def near(rnd):
    """Long paths that differ in one nibble, or in length only."""
    d = PDriver(rnd)
    raw = some(rnd, rnd.choice((1, 2, 31, 32, 33, 64, 200, rnd.choice((256, 300, 1 + words.number(rnd, 1000))))))
    a = d.make("pnew", data=raw.hex(), off=0)
    i = rnd.randrange(2 * len(raw))
    other = bytearray(raw)
    other[i // 2] ^= rnd.randrange(1, 16) << (4 if i % 2 == 0 else 0)
    b = d.make("pnew", data=bytes(other).hex(), off=0)
    cut = d.make("pnew", data=raw[:-1].hex(), off=0)
    more = d.make("pnew", data=(raw + some(rnd, 1)).hex(), off=0)
    odd = d.make("pnew", data=(b"\x0a" + raw).hex(), off=rnd.choice((1, 2)))
    names = [a, b, cut, more, odd]
    for p in names:
        for q in names:
            d.do({"op": "prel", "p": p, "q": q})
    for p, q in ((a, b), (b, a), (a, more), (odd, a), (cut, more)):
        c = d.make("pcommon", p=p, q=q)
        d.pobs(c)
        e = d.make("pcombine", p=c, q=odd)
        d.pobs(e)
        d.do({"op": "prel", "p": e, "q": c})
    d.look()
    return d.trace


def ref(d):
    """A reference: none, a hash, or a small node itself."""
    rnd = d.rnd
    small = [bytes(x).hex() for x in (d.call(n.encode)[1] for n in d.nodes.values()) if isinstance(x, bytes) and len(x) < 32]
    return rnd.choice([some(rnd, 32).hex()] + small[-4:])


def nodework(rnd):
    """Nodes of all kinds, encoded, decoded and encoded again."""
    d = PDriver(rnd)
    for _ in range(rnd.randint(4, 9)):
        kind = rnd.choice(("leaf", "leaf", "ext", "branch"))
        c = {"op": "nnew", "kind": kind, "r": d.fresh("n"), "refs": [], "data": "", "array": rnd.random() < 0.1}
        if kind != "branch":
            c["p"] = newpath(d)
            if c["p"] is None:
                break
        if kind == "ext":
            c["refs"] = [ref(d)]
        elif kind == "branch":
            empty = rnd.random()
            c["refs"] = ["" if rnd.random() < empty else ref(d) for _ in range(16)]
        if kind != "ext":
            c["data"] = some(rnd, rnd.choice(SIZES)).hex()
            if kind == "branch" and rnd.random() < 0.3:
                c["data"], c["bare"] = "", rnd.random() < 0.5
        d.do(c)
        n = c["r"]
        if n not in d.nodes:
            break
        d.do({"op": "nobs", "p": n})
        for _ in range(rnd.choice((1, 1, 2))):
            again = d.fresh("n")
            d.do({"op": "ncode", "p": n, "r": again, "array": rnd.random() < 0.2})
            if again not in d.nodes:
                break
            d.do({"op": "nobs", "p": again})
            n = again
        if rnd.random() < 0.5:
            d.do({"op": "nmark", "p": n})
        if rnd.random() < 0.3:
            damage(d, d.nodes[n].encode())
    for n in list(d.nodes):
        d.do({"op": "nobs", "p": n})
    for why in few(rnd, sorted(WRONG), 3):
        d.do({"op": "nwrong", "why": why})
    return d.trace


def damage(d, raw):
    """Bytes that are no node."""
    rnd = d.rnd
    items = rlp.decode(raw)
    bad = {
        "cut": raw[: rnd.randrange(len(raw))], "extended": raw + some(rnd, rnd.choice((1, 2, 40))),
        "nothing": b"", "no items": rlp.encode([]), "one item": rlp.encode([b" "]),
        "three items": rlp.encode([b" ", b"v", b"w"]), "sixteen items": rlp.encode([b""] * 16),
        "eighteen items": rlp.encode([b""] * 18), "text": rlp.encode(some(rnd, rnd.choice((0, 3, 20)))),
        "an item more": rlp.encode(list(items) + [b""]), "an item less": rlp.encode(list(items)[:-1]),
        "short text": rlp.encode(b" v"), "seventeen bytes": rlp.encode(b"v" * 17),
        "leaf with a list": rlp.encode([b" ", [b"v"]]), "branch with a list": rlp.encode([b""] * 16 + [[b"v"]]),
        "path in a list": rlp.encode([[b" "], b"v"]), "no path": rlp.encode([b"", b"v"]),
    }
    for why in few(rnd, sorted(bad), 4):
        d.do({"op": "nbad", "why": why, "raw": bad[why].hex()})


def walk(rnd, steps, name):
    """Transitions of MCPaths: one operation on a pair of paths each."""
    d = PDriver(rnd)
    for s in steps:
        d.p.clear()
        p, q = (d.make("pnew", data=s[x]["data"], off=s[x]["off"], given=True,
                       **{"as": rnd.choice(("bytes", "array")) if rnd.random() < 0.2 else "bytes"}) for x in "ab")
        d.do({"op": "prel", "p": p, "q": q})
        op = dict(s["op"])
        if op["op"] in ("pcommon", "pcombine"):
            r = d.make(op["op"], p=p, q=q)
        elif op["op"] == "pconsume":
            r = d.make("pconsume", p=p, n=op["n"])
        else:
            r = d.make("pdecode", code=bytes(d.p[p].encode(op["leaf"])).hex())
        if r:
            d.do({"op": "prel", "p": r, "q": q})
        d.look()
    return d.trace


def universe(rnd, tier):
    b = few(rnd, [0x00, 0x01, 0x10, 0x1F, 0xF1, 0xFF, rnd.randrange(256)], 3)
    return {"bytes": sorted(set(b)), "long": 2, "max": 8, "deep": 2 if tier == "quick" else 3}


def plan(rnd, tier):
    """(models, parts) like keys.plan"""
    u = universe(rnd, tier)
    edges, n = keys.explore("MCPaths", u)
    rnd.shuffle(edges)
    if tier == "quick":
        edges = edges[:6000]
    return [dict(n, module="MCPaths", universes=1)], [edges[i:i + 40] for i in range(0, len(edges), 40)]
