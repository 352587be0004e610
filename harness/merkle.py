"""Executes events of spec/Merkle.tla on real Merkle trees and proofs; drivers for them."""
import hashlib
import json
import re

from pymt import MerkleTools, MerkleTree, Proof

import words
from drivers import Driver, value
from words import few
from world import whole
from walks import nearest  # noqa: F401
import walks

ALGS = ["sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"]
PLAIN = re.compile(r"^([0-9a-f]{2})*$")


def text(raw):
    """How a root or a hash inside a proof is written in events."""
    if isinstance(raw, str):
        raw = raw.encode()
    try:
        s = raw.decode("ascii")
        if PLAIN.match(s):
            return s
    except UnicodeDecodeError:
        pass
    return "!" + bytes(raw).hex()


def untext(s):
    return bytes.fromhex(s[1:]) if s.startswith("!") else s.encode()


def showproof(p):
    steps = []
    for x in p.proof:
        if isinstance(x, bytes):
            steps.append({"side": "", "sib": text(x)})
        else:
            side, sib = x
            s = side.decode("ascii", "replace")
            steps.append({"side": s if s in ("left", "right") else "!" + side.hex(), "sib": text(sib)})
    return {"type": p.type.decode(), "ts": p.timestamp.hex(), "target": p.target_key.hex(),
            "root": text(p.trie_root), "steps": steps}


class MDriver(Driver):
    """Operations on Merkle trees.  A tools proof is kept as a Proof as well."""

    def __init__(self, rnd):
        super().__init__(rnd)
        self.alg, self.sec, self.vals = {}, {}, {}

    def tree(self, c):
        if c["kind"] == "tools":
            return MerkleTools(hash_type=c["alg"], secure=c["sec"])
        if c.get("bare"):  # the defaults
            return MerkleTree()
        return MerkleTree(secure=c["sec"], hash_type=c["alg"])

    def do_mnew(self, c, e):
        self.h[c["h"]] = self.need(e, lambda: self.tree(c))
        self.kind[c["h"]], self.alg[c["h"]], self.sec[c["h"]] = c["kind"], c["alg"], c["sec"]

    def do_mput(self, c, e):
        t = self.h[c["h"]]
        e["out"] = self.out(lambda: (t.add_leaf if self.kind[c["h"]] == "tools" else t.put)(bytes.fromhex(c["v"])))

    def do_mputlist(self, c, e):
        vs = [bytes.fromhex(v) for v in c["vs"]]
        e["out"] = self.out(lambda: self.h[c["h"]].put_list(tuple(vs) if c.get("tuple") else vs))

    def do_mmake(self, c, e):
        e["out"] = self.out(self.h[c["h"]].make_tree)

    def do_mreset(self, c, e):
        e["out"] = self.out(self.h[c["h"]].reset_tree)

    def do_mobs(self, c, e):
        t, tools = self.h[c["h"]], self.kind[c["h"]] == "tools"
        if c.get("first") != "leaves":
            e["root"] = self.out(t.get_merkle_root, lambda v: {"v": text(v)})
        ok, n = self.call(t.get_leaf_count if tools else t.get_count if c.get("len") else lambda: len(t))
        e["count"] = whole(ok, n)
        ok, e["leaves"] = self.call(lambda: [text(t.get_leaf(i) if tools else t.get(i)) for i in range(min(n, 3000))])
        if not ok:
            e["leaves"] = ["!"]
        if "root" not in e:
            e["root"] = self.out(t.get_merkle_root, lambda v: {"v": text(v)})

    def do_mpoi(self, c, e):
        t, key = self.h[c["h"]], bytes.fromhex(c["k"])

        def f():
            if self.kind[c["h"]] == "tools":
                steps = t.get_proof_of_inclusion(key)
                pairs = tuple((k.encode(), v.encode()) for s in steps for k, v in s.items())
                p = Proof(key, t.get_merkle_root().encode(), pairs, b"MT-POI")
            else:
                p = t.get_proof_of_inclusion(key)
            self.proofs[c["p"]] = p
            return p

        e["out"] = self.out(f, showproof)

    def do_mforge(self, c, e):
        def f():
            p = Proof(bytes.fromhex(c["target"]), untext(c["root"]),
                      tuple(untext(s["sib"]) if s["side"] == "" else (self.side(s["side"]), untext(s["sib"]))
                            for s in c["steps"]), c["type"].encode())
            self.proofs[c["p"]] = p
            return p

        p = self.need(e, f)
        if p is not None:
            e["out"]["ts"] = p.timestamp.hex()

    @staticmethod
    def side(s):
        return bytes.fromhex(s[1:]) if s.startswith("!") else s.encode()

    def do_mverify(self, c, e):
        t, p = self.h[c["h"]], self.proofs.get(c["p"])

        def f():
            if self.kind[c["h"]] != "tools":
                return t.verify_proof_of_inclusion(p)
            target = p.target_key
            if self.sec[c["h"]]:
                target = getattr(hashlib, self.alg[c["h"]])(target).digest()
            return t.verify_proof_of_inclusion([{s[0].decode(): s[1].decode()} for s in p.proof],
                                               target, bytes.fromhex(p.trie_root.decode()))

        e["out"] = self.out(f, self.truth)

    def do_mcodec(self, c, e):
        p = self.proofs.get(c["p"])

        def f():
            q = p
            for how in c["how"].split("+"):
                q = Proof.decode_json(q.encode_json()) if how == "json" else Proof.decode_rlp(q.encode_rlp())
            self.proofs[c["p2"]] = q
            return q

        def show(q):
            o = showproof(q)
            o["eq"] = p == q and q == p and not p != q
            o["samehash"] = hash(p) == hash(q)
            return o

        e["out"] = self.out(f, show)

    def do_mtwin(self, c, e):
        """A proof that differs from another in one field, as decoding can give."""
        p = self.proofs[c["p"]]

        def f():
            d = json.loads(p.encode_json())
            field = {k: v for k, v in d.items() if isinstance(v, list) == (c["what"] in ("cut", "longer", "side", "sib"))}
            names = sorted(field)
            if c["what"] in ("field", "case"):
                k = names[c["i"] % len(names)]
                if "type" in k:
                    raise ValueError
                j = c["i"] // len(names)
                if c["what"] == "case":
                    d[k] = d[k].upper()
                elif j % 3 == 0:
                    d[k] = d[k] + "0"
                elif j % 3 == 1:
                    d[k] = d[k][:-1]
                else:  # one sign in it, near the end as often as anywhere
                    j = len(d[k]) - 1 - (j // 3) % len(d[k])
                    d[k] = d[k][:j] + ("1" if d[k][j] == "0" else "0") + d[k][j + 1:]
            else:
                k = names[0]
                if c["what"] == "cut":
                    d[k] = d[k][:-1]
                elif c["what"] == "longer":
                    d[k] = d[k] + (d[k][-1:] or [["left", "61"]])
                else:
                    i = c["i"] % len(d[k])
                    d[k][i] = [{"left": "right", "right": "left"}[d[k][i][0]], d[k][i][1]] if c["what"] == "side" else \
                        [d[k][i][0], d[k][i][1][:-1] + ("0" if d[k][i][1][-1:] != "0" else "1")]
            q = Proof.decode_json(json.dumps(d))
            o = showproof(q)
            self.proofs[c["p2"]] = q
            return o

        e["out"] = self.out(f, lambda o: o)

    def do_meq(self, c, e):
        a, b = self.h[c["h"]], self.h[c["h2"]]
        e["out"] = self.out(lambda: (a == b, a != b, hash(a) == hash(b)), self.showeq)

    def do_peq(self, c, e):
        a, b = self.proofs.get(c["p"]), self.proofs.get(c["p2"])
        e["out"] = self.out(lambda: (a == b, a != b, hash(a) == hash(b)), self.showeq)

    def do_peqother(self, c, e):
        p = self.proofs[c["p"]]
        o = {"None": lambda: None, "int": lambda: 3, "bytes": lambda: p.target_key, "object": object,
             "hash": lambda: hash(p), "dict": lambda: {"proof_type": p.type}}[c["what"]]
        e["out"] = self.out(lambda: p == o(), self.showother)

    def do_mrefuse(self, c, e):
        """A call that must be refused, and leave the tree as it was."""
        t, tree = self.h[c["h"]], self.kind[c["h"]] == "tree"
        odd = {"str": "61", "none": None, "int": 7, "list": [b"a"], "bytearray": bytearray(b"a")}[c["with"]]
        calls = {"put": lambda: t.put(odd), "putlist": lambda: t.put_list([odd, b"b"]),
                 "puts": lambda: t.put_list(7 if c["with"] == "list" else odd),
                 "get": lambda: t.get(odd if c["with"] != "int" else len(t) + c["i"]),
                 "poi": lambda: t.get_proof_of_inclusion(odd),
                 "verify": lambda: t.verify_proof_of_inclusion(odd),
                 "poe": lambda: t.get_proof_of_exclusion(),
                 "alg": lambda: type(t)(hash_type="sha" + str(odd)),
                 "secure": lambda: MerkleTree(secure=odd)}
        e["out"] = self.out(calls[c["what"]] if tree else calls["alg"], lambda v: {})

    # -- shorthands --------------------------------------------------------
    def mrefuse(self, h):
        rnd = self.rnd
        self.do({"op": "mrefuse", "h": h, "with": rnd.choice(["str", "none", "int", "int", "list", "bytearray"]),
                 "i": rnd.choice([0, 0, 1, 10 ** 6]),
                 "what": rnd.choice(["put", "putlist", "puts", "get", "poi", "verify", "poe", "alg", "secure"])})

    def mnew(self, h, sec=None, alg=None, kind="tree"):
        rnd = self.rnd
        bare = kind == "tree" and sec is None and rnd.random() < 0.2
        alg = "sha256" if bare else alg or rnd.choice(ALGS)
        sec = True if bare else rnd.random() < 0.6 if sec is None else sec
        c = {"op": "mnew", "h": h, "kind": kind, "alg": alg, "sec": sec}
        if bare:
            c["bare"] = True
        self.do(c)
        self.vals[h] = []

    def mput(self, h, v):
        self.do({"op": "mput", "h": h, "v": v})
        self.vals[h].append(v)

    def mputs(self, h, vs):
        if self.kind[h] == "tools" or (len(vs) == 1 and self.rnd.random() < 0.7):
            for v in vs:
                self.mput(h, v)
        else:
            c = {"op": "mputlist", "h": h, "vs": vs}
            if self.rnd.random() < 0.5:
                c["tuple"] = True
            self.do(c)
            self.vals[h] += vs

    def mmake(self, h):
        self.do({"op": "mmake", "h": h})

    def mreset(self, h):
        self.do({"op": "mreset", "h": h})
        self.vals[h] = []

    def mobs(self, h):
        c = {"op": "mobs", "h": h}
        if self.rnd.random() < 0.5:
            c["first"] = "leaves"
        if self.rnd.random() < 0.5:
            c["len"] = True
        self.do(c)

    def mpoi(self, h, v):
        p = self.fresh("p")
        self.do({"op": "mpoi", "h": h, "k": v, "p": p})
        return p if p in self.proofs else None

    def mverify(self, h, p):
        self.do({"op": "mverify", "h": h, "p": p})

    def mcodec(self, p, how):
        q = self.fresh("q")
        self.do({"op": "mcodec", "p": p, "p2": q, "how": how})
        return q if q in self.proofs else None

    def mtwin(self, p):
        q = self.fresh("t")
        self.do({"op": "mtwin", "p": p, "p2": q, "what": self.rnd.choice(["cut", "cut", "longer", "side", "sib", "field", "case"]),
                 "i": self.rnd.choice([self.rnd.randrange(8), self.rnd.randrange(400)])})
        return q if q in self.proofs else None

    def mforge(self, target, root, steps, typ="MT-POI"):
        p = self.fresh("f")
        self.do({"op": "mforge", "p": p, "type": typ, "target": target, "root": root, "steps": steps})
        return p


HOW = ["json", "rlp", "json+rlp", "rlp+json", "json+json", "rlp+rlp", "json+rlp+json", "rlp+json+rlp"]


def leafpool(rnd, n):
    style = rnd.randrange(6)
    if style == 5:
        vs = [words.asbytes(rnd).hex() for _ in range(n)]
    elif style == 0:
        vs = [value(rnd, True) for _ in range(n)]
    elif style == 1:  # few different ones
        base = [value(rnd, True) for _ in range(rnd.choice([1, 2, 3]))]
        vs = [rnd.choice(base) for _ in range(n)]
    elif style == 2:  # all of one length
        vs = [bytes(rnd.randrange(256) for _ in range(32)).hex() for _ in range(n)]
    elif style == 3:
        vs = ["%02x" % (i % 256) for i in range(n)]
    else:
        vs = [rnd.choice(["", "00", "0001", "01", "ff", "61", "6162", "62"]) for _ in range(n)]
    return vs


COUNTS = [1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 23, 24, 25, 31, 32, 33, 40]


# -- C16 -------------------------------------------------------------------
def growing(rnd):
    """Leaves, makings, readings and resets in any order, on several trees."""
    d = MDriver(rnd)
    hs = []
    for i in range(rnd.choice([1, 2, 3])):
        h = "abc"[i]
        d.mnew(h, kind="tools" if rnd.random() < 0.25 else "tree")
        hs.append(h)
        d.mobs(h)
    pool = leafpool(rnd, 12)
    for _ in range(18):
        h = rnd.choice(hs)
        f = rnd.randrange(10)
        if f < 4:
            d.mputs(h, [rnd.choice(pool) for _ in range(rnd.choice([1, 1, 1, 2, 3, 7]))])
        elif f == 4:
            d.mmake(h)
        elif f == 5 and rnd.random() < 0.4:
            d.mreset(h)
        elif f == 6 and d.vals[h]:
            p = d.mpoi(h, rnd.choice(d.vals[h]))
            if p:
                d.mverify(h, p)
        elif f == 7 and d.vals[h]:
            d.mmake(h)
            d.mobs(h)
            d.mpoi(h, rnd.choice(d.vals[h]))
            d.mputs(h, [rnd.choice(pool)])
        if rnd.random() < 0.3:
            d.mrefuse(h)
        if rnd.random() < 0.6:
            for g in hs if rnd.random() < 0.5 else [h]:
                d.mobs(g)
    for h in hs:
        d.mobs(h)
    return d.trace


# -- C17 -------------------------------------------------------------------
def mhonest(rnd):
    d = MDriver(rnd)
    kind = "tools" if rnd.random() < 0.2 else "tree"
    d.mnew("a", kind=kind)
    if rnd.random() < 0.3:  # something else first
        d.mputs("a", leafpool(rnd, rnd.choice([1, 2, 5])))
        if rnd.random() < 0.6:
            d.mmake("a")
        if rnd.random() < 0.6:
            d.mreset("a")
    vs = leafpool(rnd, rnd.choice(COUNTS))
    if rnd.random() < 0.5:
        d.mputs("a", vs)
    else:
        cut = rnd.randrange(len(vs) + 1)
        d.mputs("a", vs[:cut]) if cut else None
        d.mmake("a")
        d.mputs("a", vs[cut:]) if cut < len(vs) else None
    d.mmake("a")
    vs = d.vals["a"]
    d.mnew("b", d.sec["a"], d.alg["a"])
    d.mputs("b", vs)
    if rnd.random() < 0.5:
        d.mmake("b")
    todo = list(enumerate(vs))
    if len(todo) > 9:
        todo = todo[:2] + todo[-4:] + few(rnd, todo[2:-4], 3)
    for _, v in todo:
        p = d.mpoi("a", v)
        if not p:
            continue
        if rnd.random() < 0.2:
            d.mrefuse("a")
        d.mverify("a", p)
        d.mverify("b", p)
        if rnd.random() < 0.4:
            q = d.mcodec(p, rnd.choice(HOW))
            if q:
                d.mverify("a", q)
                d.mverify("b", q)
    for _ in range(4):
        v = rnd.choice([value(rnd, True), vs[0] + "00", vs[-1][:-2], "", d.vals["a"][0][2:]])
        d.mpoi("a", v)
    d.mobs("a")
    return d.trace


def mlarge(rnd, top=1100):
    """Some hundred leaves: roots while growing, proofs of a sample."""
    d = MDriver(rnd)
    n = rnd.choice([63, 64, 65, 66, 67, 95, 96, 97, 100, 127, 128, 129, 130, 131, 160, 190, 255, 256, 257, 300])
    if rnd.random() < 0.12:
        n = rnd.choice([511, 512, 513, 600, 700, 1023, 1024, 1025])
    n = min(n, top)
    kind = "tools" if rnd.random() < 0.2 else "tree"
    d.mnew("a", kind=kind)
    pool = leafpool(rnd, 40)
    vs = [rnd.choice(pool) if rnd.random() < 0.2 else "%04x" % i for i in range(n)]
    cuts = sorted(few(rnd, range(1, n), 2)) + [n]
    at = 0
    for cut in cuts:
        d.mputs("a", vs[at:cut])
        at = cut
        d.mobs("a")
    for extra in range(2):
        d.mmake("a")
        todo = list(range(len(vs)))
        for i in set(todo[:2] + todo[-3:] + few(rnd, todo, 8)):
            p = d.mpoi("a", vs[i])
            if p:
                d.mverify("a", p)
                q = d.mcodec(p, rnd.choice(HOW))
                if q:
                    d.mverify("a", q)
                o = d.trace[-1]["out"]
                o = [e for e in d.trace if e["op"] == "mpoi" and e["p"] == p][0]["out"]
                for _ in range(2):
                    s = [dict(x) for x in o["steps"]]
                    j = rnd.randrange(len(s))
                    if rnd.random() < 0.5:
                        s[j]["side"] = {"left": "right", "right": "left"}[s[j]["side"]]
                    else:
                        del s[j]
                    d.mverify("a", d.mforge(vs[i] if rnd.random() < 0.7 else rnd.choice(vs), o["root"], s))
        d.mpoi("a", "ffffff")
        vs = vs + ["%06x" % (7 * i) for i in range(rnd.choice([1, 2]))]
        d.mputs("a", vs[len(d.vals["a"]):])
        d.mobs("a")
    return d.trace


# -- C18 -------------------------------------------------------------------
def digest(alg, h):
    return getattr(hashlib, alg)(bytes.fromhex(h)).hexdigest()


def levels(alg, nodes):
    out = [nodes]
    while len(nodes) > 1:
        nodes = [digest(alg, "".join(nodes[i:i + 2])) if i + 1 < len(nodes) else nodes[i] for i in range(0, len(nodes), 2)]
        out.append(nodes)
    return out


def mforged(rnd, tries=30):
    d = MDriver(rnd)
    sec, alg = rnd.random() < 0.65, rnd.choice(ALGS)
    n = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17])
    # leaves that are hashed or all of one length: the rest is a known finding
    vs = leafpool(rnd, n) if sec else [bytes(rnd.randrange(256) for _ in range(20)).hex() for _ in range(n)]
    d.mnew("a", sec, alg)
    d.mputs("a", vs)
    d.mmake("a")
    d.mnew("b", sec, alg)
    other = list(vs)
    f = rnd.randrange(4)
    if f == 0:
        rnd.shuffle(other)
    elif f == 1:
        other[rnd.randrange(n)] = digest("md5", vs[0]) + "00000000"
    elif f == 2:
        other = other[:-1] or ["31" * 20]
    else:
        other = other + [digest("sha256", vs[0])[:40]]
    d.mputs("b", other)
    d.mmake("b")
    mat = []
    for h, xs in (("a", vs), ("b", other)):
        for v in few(rnd, xs, min(4, len(xs))):
            p = d.mpoi(h, v)
            if p:
                mat.append((h, v, d.trace[-1]["out"]))
    if rnd.random() < 0.5:  # earlier leaves
        d.mputs("a", [rnd.choice(vs) if rnd.random() < 0.5 else "32" * 20])
        d.mmake("a")
        v = rnd.choice(d.vals["a"])
        p = d.mpoi("a", v)
        if p:
            mat.append(("a", v, d.trace[-1]["out"]))
    if not mat:
        return d.trace
    now = [digest(alg, v) if sec else v for v in d.vals["a"]]
    nodes = sorted({x for l in levels(alg, now) for x in l})
    root = levels(alg, now)[-1][0]
    flip = {"left": "right", "right": "left"}
    for _ in range(tries):
        h, v, o = rnd.choice(mat)
        steps, target, claimed = [dict(s) for s in o["steps"]], v, o["root"]
        f = rnd.randrange(14)
        i = rnd.randrange(len(steps)) if steps else None
        if f == 0:
            target = rnd.choice([value(rnd, True), rnd.choice(d.vals["a"]), target + "00", target[:-2], ""])
        elif f == 1 and steps:
            steps[i]["side"] = flip[steps[i]["side"]]
        elif f == 2 and steps:
            steps[i]["sib"] = rnd.choice(nodes)
        elif f == 3 and steps:
            b = bytearray.fromhex(steps[i]["sib"])
            if b:
                b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
            steps[i]["sib"] = bytes(b).hex()
        elif f == 4 and steps:
            del steps[i]
        elif f == 13:  # a step that adds nothing, or part of one
            some = ["", "", "00", nodes[0][:2], rnd.choice(nodes)[: rnd.choice([2, 32, -2])], rnd.choice(nodes) + "00"]
            steps.insert(rnd.randrange(len(steps) + 1), {"side": rnd.choice(["left", "right"]), "sib": rnd.choice(some)})
        elif f == 5:
            steps.insert(rnd.randrange(len(steps) + 1), {"side": rnd.choice(["left", "right"]), "sib": rnd.choice(nodes)})
        elif f == 6:
            claimed = rnd.choice([root, rnd.choice(nodes), digest(alg, root), root[:-2], "", "!7a7a",
                                  "!" + (root.upper() if root.upper() != root else root + " ").encode().hex(),
                                  "!" + rnd.choice([root + "\n", " " + root, "0x" + root, root.capitalize() + "0"]).encode().hex(),
                                  levels(alg, [digest(alg, x) if sec else x for x in other])[-1][0]])
        elif f == 7:
            steps, claimed = [], root
        elif f == 8 and len(steps) > 1:
            steps[0], steps[1] = steps[1], steps[0]
        elif f == 9:  # a tree of the forger's own, claimed to be this one
            target = value(rnd, True)
            steps = [{"side": rnd.choice(["left", "right"]), "sib": rnd.choice(nodes)} for _ in range(rnd.randrange(4))]
            claimed = root
            if rnd.random() < 0.5:
                x = digest(alg, target) if sec else target
                for s in steps:
                    x = digest(alg, s["sib"] + x if s["side"] == "left" else x + s["sib"])
                claimed = x
        elif f == 10 and steps:
            steps[i]["side"] = rnd.choice(["!6d6964646c65", "!4c454654", "!"])
        elif f == 11 and steps:
            steps[i]["sib"] = rnd.choice(["", "!7a7a", steps[i]["sib"][:-2], steps[i]["sib"] + "00"])
        elif f == 12:
            claimed = root
        p = d.mforge(target, claimed, steps)
        d.mverify(rnd.choice(["a", "a", "b"]), p)
    for h, v, o in mat[:3]:  # the tree changes, the proofs stay
        p = d.mforge(v, o["root"], o["steps"])
        d.mputs("a", ["33" * 20])
        d.mverify("a", p)
    return d.trace


def minner(rnd):
    """The known finding: inner nodes pass as leaves, with a shorter proof."""
    d = MDriver(rnd)
    for sec in (True, False):
        h = "a" if sec else "b"
        d.mnew(h, sec, "sha256")
        vs = ["61" * 20, "62" * 20, "63" * 20, "64" * 20]
        d.mputs(h, vs)
        d.mmake(h)
        ls = levels("sha256", [digest("sha256", v) if sec else v for v in vs])
        target = ls[0][0] + ls[0][1] if sec else ls[1][0]
        d.mverify(h, d.mforge(target, ls[2][0], [{"side": "right", "sib": ls[1][1]}]))
    d.mnew("c", False, "sha256")  # plain leaves: where a pair is cut is not committed to
    d.mputs("c", ["6161", "6262"])
    d.mmake("c")
    d.mverify("c", d.mforge("61", levels("sha256", ["6161", "6262"])[1][0], [{"side": "right", "sib": "616262"}]))
    return d.trace


# -- C19 -------------------------------------------------------------------
def coded(rnd):
    d = MDriver(rnd)
    d.mnew("a")
    vs = leafpool(rnd, rnd.choice([1, 1, 2, 3, 5, 9, 17]))
    if rnd.random() < 0.5:
        raw = [bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 3, 8, 40]))).hex() for _ in vs]
        vs = [rnd.choice([v, r]) for v, r in zip(vs, raw)]
    special = ["", "00", "ff", "80", "eda080", "f0908080", "22", "5c", "5c7530303030", "0a", "c3a9", "efbfbd", "7f", "2d",
               "edb3bf", "5b5d", "6e756c6c"]
    vs = vs + few(rnd, special, 3)
    d.mputs("a", vs)
    d.mmake("a")
    for v in few(rnd, vs, min(6, len(vs))):
        p = d.mpoi("a", v)
        if not p:
            continue
        for how in few(rnd, HOW, 3):
            q = d.mcodec(p, how)
            if q:
                d.mverify("a", q)
                d.do({"op": "peq", "p": p, "p2": q})
                if rnd.random() < 0.3:
                    r = d.mcodec(q, rnd.choice(HOW))
                    if r:
                        d.mverify("a", r)
    for _ in range(6):  # any proof object
        steps = [{"side": rnd.choice(["left", "right"]), "sib": rnd.choice(["", "61", digest("sha256", "61")])}
                 for _ in range(rnd.choice([0, 1, 2, 5, 20, 70, 300, words.number(rnd, 600)]))]
        p = d.mforge(rnd.choice(special + vs), rnd.choice(["", "61", "!7a", "!ff80", "!eda080"]), steps)
        for how in few(rnd, HOW, 2):
            q = d.mcodec(p, how)
            if q:
                d.mverify("a", q)
    for typ in ("MPT-POI", "MPT-POE"):
        p = d.mforge(rnd.choice(special), rnd.choice(["61", digest("sha256", "")]),
                     rnd.choice([[], [{"side": "", "sib": "61"}], [{"side": "left", "sib": "61"}],
                                 [{"side": "", "sib": "!c22061"}]]), typ)
        for how in ("json", "rlp"):
            d.mcodec(p, how)
    return d.trace


# -- C15, C25 --------------------------------------------------------------
def mapart(rnd):
    """Several trees; each is looked at while the others change."""
    d = MDriver(rnd)
    hs = []
    for i in range(14):
        f = rnd.randrange(6)
        if f == 0 and len(hs) < 5 or not hs:
            h = "h%d" % i
            d.mnew(h, kind="tools" if rnd.random() < 0.2 else "tree")
            d.mobs(h)
            hs.append(h)
        else:
            h = rnd.choice(hs)
            if f == 1:
                d.mreset(h)
            elif f == 2:
                d.mmake(h)
            else:
                d.mputs(h, leafpool(rnd, rnd.choice([1, 1, 3])))
        for g in hs:
            d.mobs(g)
    return d.trace


def mfields(rnd):
    """Proofs that differ in one place of one field, in long fields too."""
    d = MDriver(rnd)
    n = rnd.choice([0, 1, 3, 20, 60, 130])
    target = value(rnd, True) if rnd.random() < 0.6 else "61" * rnd.choice([200, 2000, 5000])
    steps = [{"side": rnd.choice(["left", "right"]), "sib": hashlib.sha256(b"%d" % i).hexdigest()} for i in range(n)]
    p = d.mforge(target, hashlib.sha256(b"root").hexdigest(), steps)
    if p not in d.proofs:
        return d.trace
    same = [q for q in (d.mcodec(p, how) for how in ("json", "rlp")) if q]
    for q in same:
        d.do({"op": "peq", "p": p, "p2": q})
    for _ in range(14):
        q = d.mtwin(p)
        if q:
            a, b = rnd.choice([p] + same), q
            if rnd.random() < 0.5:
                a, b = b, a
            d.do({"op": "peq", "p": a, "p2": b})
    return d.trace


def mequal(rnd):
    d = MDriver(rnd)
    hs = []
    alg = rnd.choice(ALGS)
    for i in range(4):
        h = "h%d" % i
        d.mnew(h, rnd.random() < 0.4, alg if rnd.random() < 0.8 else None)
        hs.append(h)
    pool = rnd.choice([["61", "62"], ["00", "0000", "01", "0001"], ["61", "0061", "", "00"]])
    proofs = []
    for _ in range(16):
        h = rnd.choice(hs)
        f = rnd.randrange(6)
        if f < 3:
            d.mputs(h, [rnd.choice(pool)])
        elif f == 3:
            d.mreset(h)
            d.mputs(h, [rnd.choice(pool)])
        elif f == 4 and d.vals[h]:
            d.mmake(h)
            p = d.mpoi(h, rnd.choice(d.vals[h]))
            if p:
                proofs.append(p)
                o = d.trace[-1]["out"]
                proofs.append(d.mforge(o["target"], o["root"], o["steps"]))
                q = d.mcodec(p, rnd.choice(HOW))
                if q:
                    proofs.append(q)
                    alt = d.proofs[q]
                    if rnd.random() < 0.5:
                        x = d.mforge(o["target"] + "00", o["root"], o["steps"])
                    else:
                        x = d.mforge(o["target"], o["root"], o["steps"] + [{"side": "left", "sib": "61"}])
                    proofs.append(x)
                    for r in (d.mtwin(p), d.mtwin(q), d.mtwin(x)):
                        if r:
                            proofs.append(r)
                            d.do({"op": "peq", "p": rnd.choice([p, q, x]), "p2": r})
        for _ in range(3):
            a, b = rnd.choice(hs), rnd.choice(hs)
            if d.vals[a] and d.vals[b]:
                d.do({"op": "meq", "h": a, "h2": b})
                if rnd.random() < 0.3:
                    d.mobs(a)
        if len(proofs) > 1:
            for _ in range(2):
                d.do({"op": "peq", "p": rnd.choice(proofs), "p2": rnd.choice(proofs)})
            d.do({"op": "peqother", "p": rnd.choice(proofs), "what": rnd.choice(["None", "int", "bytes", "object", "hash", "dict"])})
    for h in hs:
        d.mobs(h)
    return d.trace


# -- walks of MCMerkle -----------------------------------------------------
def muniverse(alg, sec, vals, top, resets=True, distinct=False, deep=4):
    return {"alg": alg, "sec": sec, "vals": vals, "max": top, "resets": resets, "distinct": distinct, "deep": deep}


def node(x):
    return (tuple(x["l"]), x["r"])


def explore(universes, timeout=800, edges=True):
    return walks.explore(universes, timeout, edges, "MCMerkle", node)


def mlook(d, now, first):
    d.mobs("a")


def mprove(d, now, first):
    vs, ready = now
    if not ready or not first or not vs:
        return
    d.mnew("b", d.u["sec"], d.u["alg"])
    d.mputs("b", list(vs))
    for v in sorted(set(vs)):
        p = d.mpoi("a", v)
        if p:
            d.mverify("a", p)
            d.mverify("b", p)
            q = d.mcodec(p, d.rnd.choice(HOW))
            if q:
                d.mverify("b", q)
    for v in d.u["vals"] + ["aabb"]:
        if v not in vs:
            d.mpoi("a", v)


def malter(d, now, first):
    vs, ready = now
    rnd = d.rnd
    for p in d.mem[-6:]:  # proofs of earlier leaves
        d.mverify("a", p)
    if not ready or not first or not vs:
        return
    alg, sec = d.u["alg"], d.u["sec"]
    nodes = sorted({x for l in levels(alg, [digest(alg, v) if sec else v for v in vs]) for x in l})
    flip = {"left": "right", "right": "left"}
    for v in sorted(set(vs)):
        p = d.mpoi("a", v)
        if not p:
            continue
        d.mem.append(p)
        o = d.trace[-1]["out"]
        s = o["steps"]
        alts = [s] + [s[:i] + s[i + 1:] for i in range(len(s))] + [s[:i] for i in range(len(s))]
        alts += [s[:i] + [{"side": flip[s[i]["side"]], "sib": s[i]["sib"]}] + s[i + 1:] for i in range(len(s))]
        alts += [s[:i] + [{"side": s[i]["side"], "sib": x}] + s[i + 1:] for i in range(len(s)) for x in nodes if len(s) < 4]
        alts += [s + [{"side": side, "sib": x}] for side in flip for x in nodes[:3]]
        alts += [[{"side": side, "sib": x}] + s for side in flip for x in nodes[:3]]
        for alt in alts if len(alts) < 40 else few(rnd, alts, 40):
            target = v if rnd.random() < 0.7 else rnd.choice(d.u["vals"] + ["aabb", ""])
            if not sec:
                target = v if rnd.random() < 0.7 else "aabbccdd"[: len(v)]
            d.mverify("a", d.mforge(target, o["root"] if rnd.random() < 0.9 else rnd.choice(nodes), alt))


def mcode(d, now, first):
    vs, ready = now
    if not ready or not first or not vs:
        return
    for v in sorted(set(vs)):
        p = d.mpoi("a", v)
        if p:
            for how in ("json", "rlp", "json+rlp", "rlp+json"):
                q = d.mcodec(p, how)
                if q:
                    d.mverify("a", q)


MSTYLES = {"mlook": mlook, "mprove": mprove, "malter": malter, "mcode": mcode}


def walk(rnd, uni, path, firsts, style):
    d = MDriver(rnd)
    d.u, d.mem = uni, []
    d.mnew("a", uni["sec"], uni["alg"], kind="tools" if style == "mlook" and rnd.random() < 0.4 else "tree")
    for i, now in enumerate(path):
        if i:
            before, after = path[i - 1], now
            if after[0] == before[0]:
                d.mmake("a")
            elif len(after[0]) > len(before[0]):
                d.mputs("a", [after[0][-1]])
            else:
                d.mreset("a")
        MSTYLES[style](d, now, i in firsts)
    return d.trace
