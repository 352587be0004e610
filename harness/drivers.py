"""Drivers: they put the real tries through histories and return recorded traces.

Every driver takes a random generator and returns one trace.  Walks take theirs from
TLC instead (see walks.py).
"""
import threading

from Crypto.Hash import keccak as _keccak

import words
from words import few
from world import World


def keccak(hexkey):
    return _keccak.new(digest_bits=256, data=bytes.fromhex(hexkey)).hexdigest()


# -- keys and values -------------------------------------------------------
def rhex(rnd, n):
    return "".join(rnd.choice("0123456789abcdef") for _ in range(2 * n))


def keypool(rnd, n=7):
    """Keys that share prefixes in many ways."""
    style = rnd.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10])
    ks = set()
    if style == 0:  # short keys over few nibbles, every prefix relation
        while len(ks) < n:
            ks.add("".join(rnd.choice(rnd.choice(["01", "0f", "01f"])) for _ in range(2 * rnd.randrange(4))))
    elif style == 1:  # a chain of prefixes with side branches
        base = rhex(rnd, rnd.choice([3, 4, 6]))
        while len(ks) < n:
            cut = 2 * rnd.randrange(len(base) // 2 + 1)
            k = base[:cut]
            if rnd.random() < 0.5:
                k += rhex(rnd, rnd.choice([1, 1, 2]))
            ks.add(k)
    elif style == 2:  # long common prefix, then everything differs in one nibble
        base = rhex(rnd, rnd.choice([1, 5, 31, 40]))
        while len(ks) < n:
            i = rnd.randrange(len(base))
            ks.add(base[:i] + rnd.choice("0123456789abcdef") + base[i + 1:])
    elif style == 3:  # all branches of one node
        base = rhex(rnd, rnd.choice([0, 1, 2]))
        while len(ks) < n:
            ks.add(base + rnd.choice("0123456789abcdef") + "0")
            if rnd.random() < 0.3:
                ks.add(base)
    elif style == 4:  # unrelated keys of all lengths
        while len(ks) < n:
            ks.add(rhex(rnd, rnd.choice([0, 1, 2, 3, 8, 20, 31, 32, 33, 64])))
    elif style == 5:  # text keys
        texts = ["do", "dog", "doge", "horse", "house", "", "d", "key", "key1", "key10", "null", "FF", "0x64", "0xzz",
                 "None", " ", "do ", " do", "DO", "do\0", "\0", "\n"]
        ks = {w.encode().hex() for w in few(rnd, texts, min(n, len(texts)))}
    elif style == 7:  # every prefix of one key, or nearly
        base = rhex(rnd, rnd.choice([n, n + 2, 12])) if rnd.random() < 0.7 else rnd.choice(["00", "ff", "10", "80"]) * (n + 3)
        ks = {base[:2 * i] for i in range(n)}
        if rnd.random() < 0.5:
            ks.add(base[:-1] + rnd.choice("0123456789abcdef"))
    elif style == 8:  # long keys that part late
        base = rhex(rnd, rnd.choice([33, 64, 65, 100, 140]))
        while len(ks) < n:
            i = rnd.choice([len(base) - 1, len(base) - 2, rnd.randrange(64, len(base)), rnd.randrange(len(base))])
            k = base[:i] + rnd.choice("0123456789abcdef") + rhex(rnd, 1)[1:] * (len(base) - i - 1)
            ks.add(k if rnd.random() < 0.7 else k[: 2 * rnd.randrange(30, len(base) // 2 + 1)])
    elif style == 10:  # words of the code, and lengths it speaks of
        for _ in range(n):
            k = words.asbytes(rnd).hex() if rnd.random() < 0.7 else rhex(rnd, words.number(rnd, 300))
            ks.add(k if rnd.random() < 0.8 else k[:-2])
    elif style == 9:  # hashes of other keys
        while len(ks) < n:
            k = rnd.choice(sorted(ks)) if ks and rnd.random() < 0.6 else rhex(rnd, rnd.choice([0, 1, 3]))
            ks.add(keccak(k) if rnd.random() < 0.6 else k)
    else:  # two families that differ in the first or second nibble
        a = rhex(rnd, 2)
        b = rnd.choice("0123456789abcdef") + a[1:]
        c = a[0] + rnd.choice("0123456789abcdef") + a[2:]
        while len(ks) < n:
            ks.add(rnd.choice([a, b, c])[: 2 * rnd.randrange(3)] + rhex(rnd, rnd.randrange(2)))
    if rnd.random() < 0.07:  # one of them much longer
        k = rnd.choice(sorted(ks))
        ks |= {k + rhex(rnd, rnd.choice([100, 200, 256, 260, 300, words.number(rnd, 600)]))}
    ks = sorted(ks)
    rnd.shuffle(ks)
    return ks[: max(n, 1)]


def neighbours(rnd, keys, n=4):
    """Keys near the given ones: prefixes, extensions, one nibble off."""
    out = set()
    for _ in range(8 * n):
        if len(out) >= n:
            break
        k = rnd.choice(keys) if keys else ""
        f = rnd.randrange(9)
        if f < 2 and k:
            k = k[:-2]
        elif f == 8:
            k = keccak(k)
        elif f < 4:
            k += rnd.choice(["00", "01", "10", "ff", rhex(rnd, 1)])
        elif f < 6 and k:
            i = rnd.randrange(len(k))
            k = k[:i] + rnd.choice("0123456789abcdef") + k[i + 1:]
        else:
            k = rhex(rnd, rnd.choice([0, 1, 2, 32]))
        if k not in keys:
            out.add(k)
    return sorted(out)


SIZES = [1, 1, 1, 2, 3, 5, 8, 12, 20, 26, 27, 28, 29, 30, 31, 32, 33, 34, 54, 55, 56, 57, 100]


# what the values of one history are like
MOODS = [None] * 12 + [[1, 1, 2], [1, 2, 3, 5], [26, 27, 28, 29, 30, 31, 32, 33, 34]]


def value(rnd, empty=False):
    sizes = getattr(rnd, "mood", None)
    if sizes and rnd.random() < 0.9:
        return rhex(rnd, rnd.choice(sizes))
    f = rnd.randrange(13)
    if f == 12:  # a word of the code, or a length it speaks of
        v = words.asbytes(rnd) if rnd.random() < 0.7 else bytes(rnd.randrange(256) for _ in range(words.number(rnd, 1200)))
        v = v or (b"" if empty else b"\0")
    elif f == 0:
        v = rnd.choice([b"null", b"\x00", b"\x7f", b"\x80", b"\x81\x80", b"\xc0", b"\xc1\x80", b"FF", b"1"])
    elif f == 1:
        v = bytes([rnd.randrange(256)]) * rnd.choice(SIZES)
    elif f == 2:
        v = bytes(rnd.choice([255, 256, 257, 300, 1100]))
    elif f == 3 and empty:
        v = b""
    else:
        v = bytes(rnd.randrange(256) for _ in range(rnd.choice(SIZES)))
    return v.hex()


def nearly(rnd, v):
    """A value that differs little from the given one."""
    b = bytearray.fromhex(v)
    f = rnd.randrange(6)
    if f == 0 or not b:
        b.append(rnd.choice([0, 1, 255]))
    elif f == 1 and len(b) > 1:
        b.pop()
    elif f == 2 and len(b) > 1:
        b.reverse()
    else:  # one byte
        i = rnd.choice([len(b) - 1, len(b) - 1, 0, rnd.randrange(len(b))])
        b[i] = (b[i] + rnd.randrange(1, 256)) % 256
    return bytes(b).hex()


def tok(rnd, kind):
    t = rnd.choice("bbbbbbba") if kind == "mpt" else rnd.choice("bbbbao")
    return t + value(rnd, empty=kind != "mpt")


HOWS = ["dict", "dict", "dict", "custom"]


HERE = threading.local()  # .driver: the last driver made in this thread


class Driver(World):
    """A world with shorthands and a record of what the driver wrote."""

    def __init__(self, rnd):
        super().__init__()
        HERE.driver = self
        self.rnd = rnd
        rnd.mood = rnd.choice(MOODS)
        self.keys = {}  # handle -> live keys, as far as the driver knows
        self.last = {}  # key -> token written last
        self.n = 0

    def fresh(self, prefix):
        self.n += 1
        return prefix + str(self.n)

    def new(self, h, kind, sec, st=None, how=None):
        how = how or self.rnd.choice(HOWS)
        c = {"op": "new", "h": h, "kind": kind, "sec": sec, "st": st or "s_" + h, "how": how}
        self.do(self.named_short(c))
        self.keys[h] = set()

    def named_short(self, c):
        return dict(c, short=True) if c["kind"] in ("sparse", "root") and self.rnd.random() < 0.3 else c

    def loan(self, h):
        """Now and then the key is in a buffer of the caller."""
        return {"lent": True} if self.kind[h] == "mpt" and self.rnd.random() < 0.08 else {}

    def put(self, h, k, v=None):
        rnd, more = self.rnd, {}
        if (h, k) in self.objects and self.kind[h] == "empt" and rnd.random() < 0.4:  # written as an object before
            v = "o" + (v[1:] if v else value(rnd, True))
            more = {"same": True} if rnd.random() < 0.7 else {}
        if not v and self.last and rnd.random() < 0.15:
            v = self.last.get(k) or rnd.choice(sorted(self.last.values()))
            v = (v[0] if self.kind[h] != "mpt" else "b") + (nearly(rnd, v[1:]) or "00") if len(v) < 700 else None
        v = v or tok(rnd, self.kind[h])
        self.last[k] = v
        self.do({"op": rnd.choice(["update", "setitem"]), "h": h, "k": k, "v": v, **more, **self.loan(h)})
        self.keys[h].add(k)
        return v

    def drop(self, h, k):
        self.do({"op": self.rnd.choice(["delete", "delitem"]), "h": h, "k": k, **self.loan(h)})
        self.keys[h].discard(k)

    def obs(self, h, keys=(), items=False):
        c = {"op": "obs", "h": h, "keys_": list(keys)}
        if items and self.kind[h] == "empt":
            c["items"] = True
        self.do(c)

    def step(self, h, pool, bias=0.6):
        """One write or deletion; sometimes of a key that is not there."""
        live = sorted(self.keys[h])
        if not live or self.rnd.random() < bias:
            self.put(h, self.rnd.choice(pool))
        elif self.rnd.random() < 0.8:
            self.drop(h, self.rnd.choice(live))
        else:
            self.drop(h, self.rnd.choice(pool))

    def prove(self, h, k, kind):
        p = self.fresh("p")
        self.do({"op": kind, "h": h, "k": k, "p": p})
        return p if p in self.proofs else None

    def verify(self, h, p, kind):
        self.do({"op": "verify", "h": h, "p": p, "kind": kind})

    def codec(self, h):
        h2 = self.fresh("c")
        self.do({"op": "codec", "h": h, "h2": h2, "st": "s_" + h2})
        return self.got(h, h2)

    def view(self, h, kind):
        h2 = self.fresh("v")
        self.do({"op": "view", "h": h, "h2": h2, "kind": kind, "st": "s_" + h2})
        return self.got(h, h2)

    def got(self, h, h2):
        if not self.trace[-1]["out"]["ok"]:
            del self.h[h2]
            return None
        self.keys[h2] = set(self.keys[h])
        return h2

    def snap(self, h):
        x = self.fresh("x")
        self.do({"op": "snap", "h": h, "x": x})
        return x

    def open(self, x, kind, sec, st, keys, d=None):
        h = self.fresh("o")
        c = {"op": "open", "h": h, "kind": kind, "sec": sec, "st": st, "x": x}
        if d:
            c["d"] = d
        self.do(self.named_short(c))
        self.keys[h] = set(keys)
        return h


PEEKS = ["values", "each value", "items", "dict", "update", "merged"]


def peek(d, h):
    d.do({"op": "peek", "h": h, "how": d.rnd.choice(PEEKS)})


def mapop(d, h, k, v=None, clears=0.3):
    """One of the inherited ways to write to a mapping."""
    rnd = d.rnd
    f = rnd.randrange(5)
    if f == 0:
        d.do({"op": "pop", "h": h, "k": k})
        d.keys[h].discard(k)
    elif f == 1:
        d.do({"op": "pop", "h": h, "k": k, "default": rnd.choice(["n", "b41"])})
        d.keys[h].discard(k)
    elif f == 2:
        d.do({"op": "popitem", "h": h})
        if d.trace[-1]["out"].get("ok"):
            d.keys[h].discard(d.trace[-1]["out"]["k"])
    elif f == 3:
        d.do({"op": "setdefault", "h": h, "k": k, "v": v or tok(rnd, "empt")})
        d.keys[h].add(k)
    elif rnd.random() < clears:
        d.do({"op": "clear", "h": h})
        d.keys[h] = set()


def pick(rnd, pool, extra):
    return sorted(set(pool)) + sorted(set(extra))


# -- C01, C02: histories ---------------------------------------------------
def history(rnd, kinds=("mpt",), steps=14):
    d = Driver(rnd)
    kind = rnd.choice(kinds)
    d.new("a", kind, rnd.random() < 0.3)
    pool = keypool(rnd, rnd.choice([3, 5, 7, 9]))
    near = neighbours(rnd, pool)
    probes = pick(rnd, pool, near)
    d.obs("a", probes)
    for i in range(steps):
        d.step("a", pool + near[:1], bias=0.75 if i < steps // 2 else 0.35)
        d.obs("a", probes)
    return d.trace


def drain(rnd, kinds=("mpt",)):
    """Fill, then delete everything in random order, observing every step."""
    d = Driver(rnd)
    kind = rnd.choice(kinds)
    d.new("a", kind, rnd.random() < 0.25)
    pool = keypool(rnd, rnd.choice([4, 6, 9, 12]))
    for k in pool:
        d.put("a", k)
    d.obs("a", pool)
    rnd.shuffle(pool)
    for k in pool:
        d.drop("a", k)
        d.obs("a", pool)
    d.put("a", pool[0])
    d.obs("a", pool)
    return d.trace


def twins(rnd, kinds=("mpt", "empt", "sparse")):
    """The same content by different histories, and another content."""
    d = Driver(rnd)
    kind, sec = rnd.choice(kinds), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([3, 5, 8]))
    final = {k: tok(rnd, kind) for k in pool if rnd.random() < 0.7} or {pool[0]: tok(rnd, kind)}
    for h in "abc":
        d.new(h, kind, sec)
        todo = list(final.items())
        rnd.shuffle(todo)
        detours = [k for k in neighbours(rnd, pool) + [k for k in pool if k not in final] if k not in final]
        for k, v in todo:
            if rnd.random() < 0.4:
                d.put(h, k)  # overwritten below
            if detours and rnd.random() < 0.6:
                d.put(h, rnd.choice(detours))
            d.put(h, k, v)
        gone = sorted(d.keys[h] - set(final))
        rnd.shuffle(gone)
        for k in gone:
            d.drop(h, k)
        d.obs(h, pool)
    if kind == "mpt":
        d.do({"op": "eq", "h": "a", "h2": "b"})
    k = rnd.choice(pool)
    d.put("c", k, ("b" if kind == "mpt" else rnd.choice("bao")) + value(rnd))
    d.obs("c", pool)
    if kind == "mpt":
        d.do({"op": "eq", "h": "a", "h2": "c"})
    return d.trace


# -- C03: refused and read-only operations --------------------------------
def refusals(rnd):
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "empt", "sparse"]), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([3, 5, 8]))
    near = neighbours(rnd, pool, 5)
    probes = pick(rnd, pool, near)
    d.new("a", kind, sec, "s")
    if kind == "empt":
        d.new("b", "sparse", sec, "s")
    else:
        d.new("b", kind, sec, "s")
    for h in "ab":
        for _ in range(rnd.choice([1, 3, 6])):
            d.step(h, pool, 0.8)
    for h in "ab":
        d.obs(h, probes)
    for _ in range(8):
        h = rnd.choice("ab")
        absent = [k for k in probes if k not in d.keys[h]]
        present = sorted(d.keys[h])
        for _ in range(rnd.choice([1, 2, 3])):
            f = rnd.randrange(8)
            k = rnd.choice(absent) if absent else None
            p = rnd.choice(present) if present else None
            if f == 0 and k is not None:
                d.do({"op": rnd.choice(["delete", "delitem"]), "h": h, "k": k})
            elif f == 1 and k is not None:
                d.prove(h, k, "poi")
            elif f == 2 and p is not None:
                d.prove(h, p, "poe")
            elif f == 3 and k is not None:
                q = d.prove(h, k, "poe")
                if q:
                    d.verify(rnd.choice("ab"), q, rnd.choice(["poe", "poi"]))
            elif f == 4 and p is not None:
                q = d.prove(h, p, "poi")
                if q:
                    d.verify(rnd.choice("ab"), q, rnd.choice(["poe", "poi"]))
            elif f == 5 and kind == "mpt":
                d.do({"op": "eq", "h": "a", "h2": "b"})
            elif f == 6:
                d.codec(h) if d.kind[h] != "empt" else d.view(h, rnd.choice(["sparse", "root"]))
            elif kind != "mpt":
                refuse(d, h, rnd.choice(pool), probes)
            else:
                d.do({"op": "refuse", "h": h, "what": rnd.choice(["update value", "update value", "update key"]),
                      "arg": rnd.choice(["str", "int", "none", "list"]), "k": rnd.choice(probes)})
        for g in "ab":
            d.obs(g, probes)
        if rnd.random() < 0.3:
            d.step(h, pool)
    return d.trace


def refuse(d, h, k, more=()):
    rnd = d.rnd
    kind = d.kind[h]
    bad = rnd.choice(["str", "int", "none", "bytearray", "list"])
    whats = ["update key", "delete key", "contains key", "reference key", "poi key", "poe key",
             "verify poi", "verify poe", "update value", "update object"]
    whats += ["get key", "setitem key", "setitem value", "item key", "in key", "delitem key"] if kind == "empt" else ["sparse read"]
    if kind == "empt" and rnd.random() < 0.5:
        whats = ["pop key", "setdefault key"]
        absent = [x for x in [k] + list(more) if x not in d.keys[h]]
        if absent and rnd.random() < 0.8:
            k = rnd.choice(absent)
            whats = ["setdefault value", "setdefault nothing", "setdefault object"]
    what = rnd.choice(whats)
    if what.endswith("value") and bad == "bytearray":
        bad = "int"
    if what.endswith("object"):  # an object that does not encode itself to bytes
        bad = rnd.choice(["str", "none"])
    d.do({"op": "refuse", "h": h, "what": what, "arg": bad, "k": k})


# -- C04: several tries and old roots on one storage -----------------------
def shared(rnd):
    d = Driver(rnd)
    sec = rnd.random() < 0.25
    pool = keypool(rnd, rnd.choice([3, 5, 7]))
    near = neighbours(rnd, pool, 2)
    probes = pick(rnd, pool, near)
    how = rnd.choice(HOWS)
    hs = ["a"]
    d.new("a", "mpt", sec, "s", how)
    if rnd.random() < 0.5:
        d.new("b", "mpt", rnd.random() < 0.5, "s", how)
        hs.append("b")
    secs = {h: [e for e in d.trace if e.get("h") == h][0]["sec"] for h in hs}
    snaps = []
    for _ in range(14):
        h = rnd.choice(hs)
        d.step(h, pool, 0.6)
        if rnd.random() < 0.4:
            snaps.append((d.snap(h), secs[h], set(d.keys[h])))
        if snaps and rnd.random() < 0.3:
            x, s, ks = rnd.choice(snaps)
            o = d.open(x, "mpt", s, "s", ks)
            secs[o] = s
            hs.append(o)
            if len(hs) > 5:
                hs.pop(rnd.randrange(1, len(hs)))
        if rnd.random() < 0.35:
            for g in hs:
                d.obs(g, probes)
    for x, s, ks in snaps:
        o = d.open(x, "mpt", s, "s", ks)
        d.obs(o, probes)
        for k in few(rnd, probes, min(3, len(probes))):
            kind = "poi" if k in ks else "poe"
            p = d.prove(o, k, kind)
            if p:
                d.verify(o, p, kind)
        if rnd.random() < 0.5:
            d.step(o, pool, 0.5)
            d.obs(o, probes)
    for g in hs:
        d.obs(g, probes)
    return d.trace


def reopened(rnd):
    """The same for extended and sparse tries: stop, start again with the root."""
    d = Driver(rnd)
    kind, sec = rnd.choice(["empt", "sparse"]), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([3, 5]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 2))
    d.new("a", kind, sec, "s")
    h = "a"
    olds = []
    for _ in range(8):
        if kind == "empt" and rnd.random() < 0.3:
            mapop(d, h, rnd.choice(pool), clears=1)
        else:
            d.step(h, pool, 0.65)
        if rnd.random() < 0.3 and d.keys[h]:
            x = d.snap(h)
            olds.append((x, set(d.keys[h])))
            if rnd.random() < 0.5:
                old, h = h, d.open(x, kind, sec, "s", d.keys[h], h if kind == "empt" else None)
                if kind == "empt":
                    d.data[h] = d.data[old]
                d.obs(h, probes)
    d.obs(h, probes)
    for x, ks in olds:
        o = d.open(x, "sparse", sec, "s", ks)
        d.obs(o, probes)
    return d.trace


# -- C05, C07: honest proofs -----------------------------------------------
def verifiers(d, h, sec):
    """Everything that holds the root of h."""
    rnd = d.rnd
    vs = [h]
    kind = d.kind[h]
    if kind == "mpt":
        vs.append(d.codec(h))
    if kind == "empt":
        s = d.view(h, "sparse")
        vs += [s, d.view(h, "root")]
        if s:
            vs += [d.codec(s), d.view(s, "root")]
    if kind == "sparse":
        vs += [d.codec(h), d.view(h, "root")]
    x = d.snap(h)
    r = d.open(x, "root", sec, "none", d.keys[h])
    vs.append(r)
    if rnd.random() < 0.5:
        vs.append(d.codec(r))
    return [v for v in vs if v]


def honest(rnd, which=("poi", "poe"), kinds=("mpt", "mpt", "empt", "sparse"), steps=10):
    d = Driver(rnd)
    kind, sec = rnd.choice(kinds), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([1, 2, 3, 5, 8, 11]))
    near = neighbours(rnd, pool, 5)
    d.new("a", kind, sec)
    vals = {}
    for i in range(rnd.choice([1, 2, steps])):
        if i < 2 or rnd.random() < 0.7:
            k = rnd.choice(pool)
            vals[k] = d.put("a", k)
        else:
            d.step("a", pool, 0)
    if not d.keys["a"]:
        k = rnd.choice(pool)
        d.put("a", k)
    vs = verifiers(d, "a", sec)
    probes = pick(rnd, pool, near)
    makers = [v for v in vs if d.kind[v] != "root"]
    for k in probes:
        kind_ = "poi" if k in d.keys["a"] else "poe"
        if kind_ not in which:
            continue
        p = d.prove(rnd.choice(makers) if rnd.random() < 0.3 else "a", k, kind_)
        if p:
            for v in vs:
                d.verify(v, p, kind_)
    d.obs("a", probes)
    return d.trace


def big(rnd, which=("poi", "poe")):
    """A larger trie: many keys, proofs of a sample."""
    d = Driver(rnd)
    d.new("a", rnd.choice(["mpt", "empt"]), rnd.random() < 0.4, how="dict")
    ks = set()
    stem = [rhex(rnd, rnd.choice([0, 1, 2, 4])) for _ in range(4)]
    while len(ks) < 60:
        ks.add(rnd.choice(stem) + rhex(rnd, rnd.choice([0, 1, 1, 2, 2, 3])))
    ks = sorted(ks)
    rnd.shuffle(ks)
    for k in ks:
        d.put("a", k)
    for k in ks[:15]:
        d.drop("a", k)
    d.obs("a", few(rnd, ks, 12))
    vs = verifiers(d, "a", d.trace[0]["sec"])
    for k in few(rnd, ks, 8):
        kind = "poi" if k in d.keys["a"] else "poe"
        if kind in which:
            p = d.prove("a", k, kind)
            if p:
                for v in vs:
                    d.verify(v, p, kind)
    return d.trace


def nested(rnd, which=("poi", "poe")):
    """Keys inside keys, many levels deep."""
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "mpt", "empt", "sparse"]), rnd.random() < 0.1
    d.new("a", kind, sec)
    n = rnd.choice([10, 12, 20, 20, 36])
    base = rnd.choice([rhex(rnd, n), rhex(rnd, 1) * n])
    ks = [base[:2 * i] for i in range(n + 1) if rnd.random() < 0.9]
    if rnd.random() < 0.5:
        rnd.shuffle(ks)
    vals = [tok(rnd, kind) for _ in range(3)]
    for k in ks:
        d.put("a", k, rnd.choice(vals))
    near = neighbours(rnd, ks, 5)
    sides = [k[:-1] + rnd.choice("0123456789abcdef") for k in few(rnd, ks, 5) if k]
    probes = pick(rnd, few(rnd, ks, 6) + ks[-2:], near + sides)
    d.obs("a", probes)
    for k in few(rnd, ks, 4) + sides[:2]:
        if rnd.random() < 0.5 and k in d.keys["a"]:
            d.drop("a", k)
        else:
            d.put("a", k)
    d.obs("a", probes)
    vs = verifiers(d, "a", sec)
    for k in probes:
        kk = "poi" if k in d.keys["a"] else "poe"
        if kk in which:
            p = d.prove("a", k, kk)
            for v in vs if p else []:
                d.verify(v, p, kk)
    for v in vs:
        if d.kind[v] != "root":
            d.obs(v, probes)
    return d.trace


def ladder(rnd, which=("poi", "poe")):
    """A key with a branch at every nibble, or nearly."""
    d = Driver(rnd)
    kind = rnd.choice(["mpt", "mpt", "mpt", "empt", "sparse"])
    d.new("a", kind, False)
    n = min(66, rnd.choice([9, 16, 17, 32, 33, 34, 40, rnd.choice([50, 64, 65]), words.number(rnd, 100) // 2 + 1]))
    base = rnd.choice([rhex(rnd, n), rhex(rnd, 1) * n])
    ks = [base]
    for i in range(2 * n):
        if rnd.random() < 0.97:
            k = base[:i] + rnd.choice(sorted(set("0123456789abcdef") - {base[i]}))
            ks.append(k + (rnd.choice("0123456789abcdef") if i % 2 == 0 else ""))
    if rnd.random() < 0.5:
        rnd.shuffle(ks)
    vals = [tok(rnd, kind) for _ in range(3)]
    for k in ks:
        d.put("a", k, rnd.choice(vals))
    d.drop("a", rnd.choice(ks[1:]))
    probes = [base, base[:-1] + rnd.choice("0123456789abcdef"), base[:2 * (n // 2)], base + "00", rnd.choice(ks)]
    d.obs("a", probes)
    vs = verifiers(d, "a", False)
    for k in probes:
        kk = "poi" if k in d.keys["a"] else "poe"
        if kk in which:
            p = d.prove("a", k, kk)
            for v in vs if p else []:
                d.verify(v, p, kk)
    d.drop("a", base) if base in d.keys["a"] else None
    d.obs("a", probes)
    return d.trace


def large(rnd, kinds=("mpt", "empt", "sparse"), n=None):
    """Hundreds of entries: copies, views, rebuilding, old roots, proofs."""
    d = Driver(rnd)
    kind, sec = rnd.choice(kinds), rnd.random() < 0.4
    d.new("a", kind, sec, "s", how="dict")
    if n is None:
        n = rnd.choice([150, 220, 300])
        if rnd.random() < 0.4:
            n = max(150, min(1400, rnd.choice([520, 800, 1030, words.number(rnd, 1500) + 40])))
    stem = [rhex(rnd, rnd.choice([0, 1, 2, 4])) for _ in range(3)]
    ks = set()
    while len(ks) < n:
        ks.add(rnd.choice(stem) + rhex(rnd, rnd.choice([1, 2, 2, 3] if n < 500 else [2, 2, 3])))
    ks = sorted(ks)
    rnd.shuffle(ks)
    vals = [tok(rnd, kind) for _ in range(8)]
    for k in ks:
        d.put("a", k, rnd.choice(vals) if rnd.random() < 0.5 else None)
    x = d.snap("a")
    first = set(d.keys["a"])
    probes = pick(rnd, few(rnd, ks, 7) + ks[:2], neighbours(rnd, ks, 3))
    d.obs("a", probes, items=True)
    vs = verifiers(d, "a", sec)
    for v in vs:
        d.obs(v, probes, items=True)
    for k in ks[:20]:
        if rnd.random() < 0.6:
            d.drop("a", k)
        else:
            d.put("a", k)
    d.obs("a", probes)
    if kind == "empt" and rnd.random() < 0.5:
        d.do({"op": "rebuild", "h": "a"})
        d.obs("a", probes, items=True)
    elif kind != "empt":
        o = d.open(x, kind, sec, "s", first)
        d.obs(o, probes)
    for k in probes:
        kk = "poi" if k in d.keys["a"] else "poe"
        p = d.prove("a", k, kk)
        for v in ["a"] + vs[:2] if p else []:
            d.verify(v, p, kk)
    for v in vs:
        if d.kind[v] in ("mpt", "sparse"):
            d.put(v, ks[0])
            d.drop(v, ks[25])
        d.obs(v, probes)
    d.obs("a", probes)
    return d.trace


def bulky(rnd, kinds=("mpt", "empt", "sparse")):
    """One very long value or key."""
    d = Driver(rnd)
    kind, sec = rnd.choice(kinds), rnd.random() < 0.3
    d.new("a", kind, sec)
    pool = keypool(rnd, 4)
    t = "b" if kind == "mpt" else rnd.choice("bao")
    for k in pool[1:]:
        d.put("a", k)
    n = rnd.choice([4000, 4096, 16384, 32768, 65530, 65535, 65536, 65540, 70000, words.number(rnd, 200000)])
    k = pool[0]
    if rnd.random() < 0.3:
        k, n = rhex(rnd, rnd.choice([300, 1000])), 300
    d.put("a", k, t + rhex(rnd, 50) * (n // 50) + "00" * (n % 50))
    d.obs("a", [k])
    p = d.prove("a", k, "poi")
    if p:
        d.verify("a", p, "poi")
    h = d.codec("a") if kind != "empt" else d.view("a", "sparse")
    if h:
        d.obs(h, [k])
        if p:
            d.verify(h, p, "poi")
    d.put("a", k)
    d.obs("a", [k] + pool)
    return d.trace


# -- C06, C08: forged proofs -----------------------------------------------
def rlp_str(h):
    b = bytes.fromhex(h)
    if len(b) == 1 and b[0] < 128:
        return h
    return _head(0x80, len(b)) + h


def _head(base, n):
    if n <= 55:
        return "%02x" % (base + n)
    s = "%x" % n
    s = "0" * (len(s) % 2) + s
    return "%02x" % (base + 55 + len(s) // 2) + s


def rlp_list(items):
    p = "".join(items)
    return _head(0xC0, len(p) // 2) + p


def hp(path, leaf):
    f = 2 if leaf else 0
    return "%x" % (f + 1) + path if len(path) % 2 else "%x0" % f + path


def leafnode(path, v):
    return rlp_list([rlp_str(hp(path, True)), rlp_str(v)])


def extnode(path, child):
    ref = child if len(child) < 64 else rlp_str(keccak(child))
    return rlp_list([rlp_str(hp(path, False)), ref])


def branchnode(children, v=""):
    """children: nibble -> encoded node"""
    items = []
    for i in range(16):
        c = children.get(i)
        items.append("80" if c is None else c if len(c) < 64 else rlp_str(keccak(c)))
    return rlp_list(items + [rlp_str(v)])


NULL = b"null".hex()


def chain_in(rnd, path, v="31"):
    """A made-up proof that ends at a leaf for path."""
    cut = rnd.randrange(len(path) + 1)
    leaf = leafnode(path[cut + 1:], v * rnd.choice([1, 40])) if cut < len(path) else None
    if leaf is None:
        return [leafnode(path, v * rnd.choice([1, 40]))]
    br = branchnode({int(path[cut], 16): leaf, (int(path[cut], 16) + 1) % 16: leafnode("", "aa" * 33)})
    nodes = [br, leaf]
    if cut:
        nodes = [extnode(path[:cut], br)] + nodes
    return nodes


def chain_out(rnd, path):
    """A made-up proof that nothing is at path."""
    if not path:
        return [branchnode({1: leafnode("", "aa" * 33), 2: leafnode("", "bb" * 33)})]
    f = rnd.randrange(3)
    if f == 0:
        return [leafnode(path + "0", "aa" * rnd.choice([1, 40]))]
    n = int(path[0], 16)
    if f == 1:
        return [branchnode({(n + 1) % 16: leafnode("", "aa" * 33), (n + 2) % 16: leafnode("", "bb" * 33)})]
    return [extnode("%x" % ((n + 1) % 16), branchnode({1: leafnode("", "aa" * 33), 2: leafnode("", "bb" * 33)}))]


def mutate_bytes(rnd, node):
    b = bytearray.fromhex(node)
    if not b:
        return "c0"
    f = rnd.randrange(4)
    if f == 0:
        i = rnd.randrange(len(b))
        b[i] ^= 1 << rnd.randrange(8)
    elif f == 1:
        b = b[: rnd.randrange(len(b))]
    elif f == 2:
        b += bytes([rnd.randrange(256)])
    else:
        i = rnd.randrange(len(b))
        b[i] = rnd.randrange(256)
    return bytes(b).hex()


def forgeries(rnd, mat, targets, kind, root):
    """Altered proofs.  mat: honest proofs (events' outs) of all kinds and tries."""
    f = rnd.randrange(16)
    base = rnd.choice(mat)
    typ = {"poi": "MPT-POI", "poe": "MPT-POE"}[kind]
    nodes, target, claimed = list(base["nodes"]), base["target"], base["root"]
    body = nodes[:-1] if base["type"] == "MPT-POE" else nodes
    if f == 0:  # another target
        target = rnd.choice(targets)
    elif f == 1:  # a node taken out, perhaps with another target
        if nodes:
            nodes.pop(rnd.randrange(len(nodes)))
        if rnd.random() < 0.5:
            target = rnd.choice(targets)
    elif f == 2:  # only the beginning
        nodes = nodes[: rnd.randrange(len(nodes) + 1)]
        target = rnd.choice(targets)
    elif f == 3:  # a proof of the other kind, dressed up
        nodes = body + ([leafnode(base["target"], NULL)] if kind == "poe" else [])
    elif f == 4:  # cut off, dressed up
        nodes = body[: rnd.randrange(len(body) + 1)] + ([leafnode(target, NULL)] if kind == "poe" else [])
    elif f == 5:  # bytes changed somewhere
        i = rnd.randrange(len(nodes))
        nodes[i] = mutate_bytes(rnd, nodes[i])
    elif f == 6:  # invented, with the root claimed
        target = rnd.choice(targets)
        nodes = chain_in(rnd, target) if kind == "poi" else chain_out(rnd, target) + [leafnode(target, NULL)]
        claimed = root
    elif f == 7:  # genuine root node, then invented
        target = rnd.choice(targets)
        nodes = body[:1] + (chain_in(rnd, target) if kind == "poi" else chain_out(rnd, target))
        if kind == "poe":
            nodes.append(leafnode(target, NULL))
        claimed = root
    elif f == 8:  # genuine path, invented end
        target = rnd.choice(targets)
        cut = rnd.randrange(len(target) + 1)
        nodes = body[:-1] + [leafnode(target[cut:], rnd.choice(["31", NULL]))]
        if kind == "poe":
            nodes.append(leafnode(target, NULL))
    elif f == 9:  # nodes of another proof mixed in
        other = rnd.choice(mat)
        target = rnd.choice(targets)
        nodes = body + list(other["nodes"])
        if rnd.random() < 0.5:
            claimed = root
        if kind == "poe":
            nodes.append(leafnode(target, NULL))
    elif f == 10:  # order
        head, tail = nodes[:1], nodes[1:]
        rnd.shuffle(tail)
        nodes = head + tail if rnd.random() < 0.7 else tail + head
        if rnd.random() < 0.5:
            target = rnd.choice(targets)
    elif f == 11:  # claimed root
        claimed = rnd.choice([m["root"] for m in mat] + [keccak(claimed), claimed[:-2] + "%02x" % rnd.randrange(256), ""])
    elif f == 12:  # everything known, any target
        seen = []
        for m in mat:
            for n in m["nodes"]:
                if n not in seen:
                    seen.append(n)
        seen = [n for n in seen if n != body[0]]
        nodes = body[:1] + seen[:20]
        target = rnd.choice(targets)
        if kind == "poe":
            nodes.append(leafnode(target, NULL))
    elif f == 13:  # a shorter or longer target
        target = target[: 2 * rnd.randrange(len(target) // 2 + 1)] if rnd.random() < 0.5 else target + rhex(rnd, 1)
    elif f == 15:  # what it says it proves
        typ = rnd.choice(["MT-POI", "MT-POI", "MPT-POI", "MPT-POE"])
    else:  # the end marker changed, missing or doubled
        if kind == "poe":
            nodes = body + rnd.choice([[], [leafnode(target, "6e756c")], [leafnode("", NULL)],
                                       [leafnode(target, NULL)] * 2, [extnode("0", NULL)], ["c0"], ["80"]])
        else:
            nodes = nodes + rnd.choice([[leafnode(target, NULL)], [nodes[-1]], ["c0"], ["80"], [""]])
    return {"op": "forge", "type": typ, "target": target, "root": claimed, "nodes": nodes}


def forged(rnd, which=("poi", "poe"), kinds=("mpt", "mpt", "mpt", "empt"), tries=40):
    d = Driver(rnd)
    kind, sec = rnd.choice(kinds), rnd.random() < 0.2
    pool = keypool(rnd, rnd.choice([2, 3, 5, 7]))
    near = neighbours(rnd, pool, 4)
    keys = pick(rnd, pool, near)
    d.new("a", kind, sec)
    d.new("b", kind, sec)  # the adversary's own trie
    for h in "ab":
        for _ in range(rnd.choice([1, 3, 7])):
            d.step(h, pool if h == "a" else keys, 0.8)
    if not d.keys["a"]:
        d.put("a", pool[0])
    if not d.keys["b"]:
        d.put("b", keys[-1])
    mat = []

    def collect(h, ks):
        for k in ks:
            for kk in ("poi", "poe"):
                p = d.fresh("p")
                d.do({"op": kk, "h": h, "k": k, "p": p})
                o = d.trace[-1]["out"]
                if o["ok"] and o["nodes"]:
                    mat.append(o)

    collect("a", few(rnd, keys, min(5, len(keys))))
    collect("b", few(rnd, keys, min(3, len(keys))))
    if rnd.random() < 0.5:  # material from an earlier state
        d.step("a", pool, 0.7)
        if not d.keys["a"]:
            d.put("a", pool[0])
        collect("a", few(rnd, keys, min(4, len(keys))))
    x = d.snap("a")
    r = d.open(x, "root", sec, "none", d.keys["a"])
    root = d.roots[x]
    root = root.hex() if root else ""
    targets = [keccak(k) if sec else k for k in keys]
    if not mat:
        return d.trace
    dressed = [(o, kk) for o in mat for kk in which if o["type"] != {"poi": "MPT-POI", "poe": "MPT-POE"}[kk]]
    for o, kk in few(rnd, dressed, 8):  # whole proofs of the other kind
        f = d.fresh("f")
        nodes = o["nodes"] + [leafnode(rnd.choice(["", o["target"]]), NULL)] if kk == "poe" else o["nodes"][:-1]
        d.do({"op": "forge", "type": {"poi": "MPT-POI", "poe": "MPT-POE"}[kk], "target": o["target"],
              "root": o["root"] if rnd.random() < 0.5 else root, "nodes": nodes, "p": f})
        d.verify(rnd.choice(["a", r]), f, kk)
    for _ in range(tries):
        kk = rnd.choice(which)
        c = forgeries(rnd, mat, targets, kk, root)
        c["p"] = d.fresh("f")
        d.do(c)
        d.verify(rnd.choice(["a", "a", r]), c["p"], kk if rnd.random() < 0.95 else rnd.choice(["poi", "poe"]))
    return d.trace


# -- C09: proofs and changes -----------------------------------------------
def stale(rnd):
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "mpt", "empt", "sparse"]), rnd.random() < 0.25
    pool = keypool(rnd, rnd.choice([2, 3, 5, 7]))
    keys = pick(rnd, pool, neighbours(rnd, pool, 2))
    d.new("a", kind, sec)
    d.new("b", kind, sec)
    now = {}

    def put(k, v=None):
        now[k] = d.put("a", k, v)

    for _ in range(rnd.choice([1, 2, 5])):
        put(rnd.choice(pool))
    held = []

    def make():
        for k in few(rnd, keys, min(4, len(keys))):
            kk = "poi" if k in d.keys["a"] else "poe"
            p = d.prove("a", k, kk) if d.keys["a"] else None
            if p:
                held.append((p, kk))

    def check():
        for p, kk in held[-10:]:
            d.verify("a", p, kk)
            if rnd.random() < 0.2:
                d.verify("a", p, "poe" if kk == "poi" else "poi")
            if rnd.random() < 0.3:
                d.verify("a", otherroot(d, p), kk)

    make()
    for _ in range(4):
        before = dict(now)
        for _ in range(rnd.choice([1, 1, 2])):
            f = rnd.randrange(3)
            if f == 0 or not now:
                put(rnd.choice(keys))
            elif f == 1 and len(now) > 1:
                k = rnd.choice(sorted(now))
                d.drop("a", k)
                del now[k]
            else:
                k = rnd.choice(sorted(now))
                v = now[k]
                put(k, v[:-2] + "%02x" % (int(v[-2:], 16) ^ 1) if len(v) > 2 else "b41")
        check()
        if rnd.random() < 0.5:
            make()
        for k in sorted(set(now) - set(before)):
            d.drop("a", k)
            del now[k]
        for k, v in before.items():
            if now.get(k) != v:
                put(k, v)
        check()
    for k, v in now.items():  # another trie with the same content, and one more
        d.put("b", k, v)
    for p, kk in held[:6]:
        d.verify("b", p, kk)
    return d.trace


def otherroot(d, p):
    """The same proof for a root that is written otherwise, or is another one."""
    rnd, q, e = d.rnd, d.fresh("p"), World.showproof(d.proofs[p])
    r = e["root"]
    i = rnd.randrange(len(r) or 1)
    flip = r[:i] + "%x" % (int(r[i], 16) ^ 1 << rnd.randrange(4)) + r[i + 1:] if r else "00"
    more = rnd.choice(["00", "80", "ff", rhex(rnd, 1), r])
    new = rnd.choice([r + more, r + more, more + r, r[:-2], r[2:], flip, flip, keccak(r), r.encode().hex(), "",
                      e["nodes"][-1] if e["nodes"] else "", "a0" + r, rhex(rnd, 32)])
    d.do({"op": "forge", "p": q, "type": e["type"], "target": e["target"], "root": new, "nodes": e["nodes"]})
    return q


# -- C10: serialization ----------------------------------------------------
def restored(rnd):
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "mpt", "sparse"]), rnd.random() < 0.35
    pool = keypool(rnd, rnd.choice([1, 3, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 3))
    d.new("a", kind, sec)
    h = "a"
    for _ in range(4):
        for _ in range(rnd.choice([0, 1, 3])):
            d.step(h, pool, rnd.choice([0.3, 0.8]))
        if rnd.random() < 0.15:
            for k in sorted(d.keys[h]):
                d.drop(h, k)
        c = d.codec(h)
        if not c:
            break
        d.obs(c, probes)
        if rnd.random() < 0.4:
            c2 = d.codec(h)
            if c2:
                d.obs(c2, probes)
                for _ in range(2):
                    d.step(c2, pool, 0.5)
                d.obs(c, probes)
                d.obs(c2, probes)
        if d.keys[h]:
            for k in few(rnd, probes, min(3, len(probes))):
                kk = "poi" if k in d.keys[c] else "poe"
                p = d.prove(c, k, kk)
                if p:
                    d.verify(h, p, kk)
                    d.verify(c, p, kk)
        if kind == "mpt":
            d.do({"op": "eq", "h": h, "h2": c})
        d.step(c, pool, 0.5)
        d.obs(h, probes)
        d.step(h, pool, 0.5)
        d.obs(c, probes)
        d.obs(h, probes)
        x = d.snap(h)
        if d.keys[h]:
            r = d.open(x, "root", sec, "none", d.keys[h])
            r2 = d.codec(r)
            if r2:
                d.obs(r2)
                k = rnd.choice(probes)
                kk = "poi" if k in d.keys[h] else "poe"
                p = d.prove(h, k, kk)
                if p:
                    d.verify(r2, p, kk)
        if rnd.random() < 0.5:
            h = c
    return d.trace


# -- C11: the mapping interface --------------------------------------------
def mapping(rnd):
    d = Driver(rnd)
    sec = rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([2, 4, 7]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 2))
    d.new("a", "empt", sec, how=rnd.choice(["dict", "custom", "default"]))
    for _ in range(12):
        f = rnd.randrange(12)
        k = rnd.choice(pool)
        if f < 4:
            d.put("a", k)
        elif f == 4:
            d.drop("a", k)
        elif f < 9:
            mapop(d, "a", k, clears=0.4)
        elif f == 9:
            peek(d, "a")
        elif f == 10:
            refuse(d, "a", k, probes)
        else:
            d.step("a", pool, 0.4)
        d.obs("a", probes, items=True)
        if rnd.random() < 0.3:
            d.do({"op": "mapview", "h": "a", "first": rnd.choice([0, 1, 2, 9])})
    return d.trace


# -- C12: altered data -----------------------------------------------------
def tampered(rnd):
    d = Driver(rnd)
    sec = rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([2, 4, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 2))
    d.new("a", "empt", sec)
    data = {}

    def put(k, v=None):
        data[k] = d.put("a", k, v)

    for k in pool:
        if rnd.random() < 0.75:
            put(k)
    if not data:
        put(pool[0])
    d.obs("a", probes)
    for _ in range(9):
        f = rnd.randrange(12)
        live = sorted(data)
        k = rnd.choice(live) if live else None
        if k is None:
            put(rnd.choice(pool))
            continue
        t = data[k]
        if f == 0:
            bad(d, k, "b" + value(rnd, True))
        elif f == 1:  # one bit
            raw = bytearray.fromhex(t[1:]) or bytearray(b"\0")
            raw[rnd.randrange(len(raw))] ^= 1 << rnd.randrange(8)
            bad(d, k, t[0] + bytes(raw).hex())
        elif f == 2:  # cut or extended
            bad(d, k, t[0] + (t[1:-2] if len(t) > 2 and rnd.random() < 0.5 else t[1:] + rnd.choice(["00", "80", "41"])))
        elif f == 3 and len(live) > 1:  # exchanged
            k2 = rnd.choice([x for x in live if x != k])
            bad(d, k, data[k2])
            bad(d, k2, t)
        elif f == 4:  # removed
            d.do({"op": "tamper", "h": "a", "k": k})
            d.obs("a", probes)
            d.do({"op": "tamper", "h": "a", "k": k, "v": t})
        elif f == 5:  # added
            absent = [x for x in probes if x not in data]
            if absent:
                x = rnd.choice(absent)
                d.do({"op": "tamper", "h": "a", "k": x, "v": rnd.choice([t, "b" + value(rnd, True)])})
                d.obs("a", probes)
                d.do({"op": "tamper", "h": "a", "k": x})
        elif f == 6:  # the reference itself, the key and the data, other types
            bad(d, k, rnd.choice(["b" + k + t[1:], "o" + k + t[1:], "a" + t[1:] + k, "o" + value(rnd)]))
        elif f == 7:  # an older value comes back
            old = t
            put(k)
            d.do({"op": "tamper", "h": "a", "k": k, "v": old})
        elif f == 8:  # tampered, then deleted
            bad(d, k, "b" + value(rnd))
            d.drop("a", k)
            data.pop(k, None)
        elif f == 9:  # the same other value arrives in the data first, then through the trie
            v = "b" + value(rnd)
            bad(d, k, v)
            if rnd.random() < 0.3:
                d.obs("a", probes)
            put(k, v)
        elif f == 10:  # a value arrives in the data first, for a key that is not there
            x = rnd.choice(probes)
            if x not in data:
                v = tok(rnd, "empt")
                bad(d, x, v)
                put(x, v)
        else:
            put(rnd.choice(pool))
        if rnd.random() < 0.4:
            for _ in range(rnd.choice([1, 2])):
                peek(d, "a")
        if rnd.random() < 0.25:
            k = rnd.choice(probes)
            d.do({"op": "pop", "h": "a", "k": k} if rnd.random() < 0.6 else {"op": "popitem", "h": "a"})
            o = d.trace[-1]["out"]
            if o.get("ok"):
                data.pop(o.get("k", k), None)
                d.keys["a"].discard(o.get("k", k))
        if rnd.random() < 0.8:
            d.obs("a", probes)
        if rnd.random() < 0.5:  # repair: restore or write again
            for x, v in list(data.items()):
                if rnd.random() < 0.5:
                    d.do({"op": "tamper", "h": "a", "k": x, "v": v})
                else:
                    put(x)
            d.obs("a", probes)
    return d.trace


def tamperedlong(rnd):
    """Long data, altered in one place anywhere, cut, extended or exchanged for data of the same length."""
    d = Driver(rnd)
    d.new("a", "empt", rnd.random() < 0.3)
    pool = keypool(rnd, 3)
    n = rnd.choice([256, 1024, 4096, 6000, 10000, 65536, words.number(rnd, 200000), words.number(rnd, 200000)]) + rnd.choice([0, 1, 5])
    vs = {}
    for k in pool:
        vs[k] = d.put("a", k, rnd.choice("bao") + rhex(rnd, 40) * (n // 40) + rhex(rnd, n % 40))
    d.obs("a", pool)
    for _ in range(8):
        k = rnd.choice(pool)
        v, m = vs[k], len(vs[k]) - 1
        i = 1 + rnd.choice([0, m - 1, m - 2, m // 2, rnd.randrange(m), rnd.randrange(m)]) if m else 0
        f = rnd.randrange(6)
        if f < 3:
            w = v[:i] + rnd.choice(sorted(set("0123456789abcdef") - {v[i:i + 1]})) + v[i + 1:] if m else v + "00"
        elif f == 3:
            w = v[:-2] if m and rnd.random() < 0.5 else v + "00"
        elif f == 4:
            w = vs[rnd.choice(pool)]
        else:
            w = rnd.choice([x for x in "bao" if x != v[0]]) + v[1:]
        bad(d, k, w)
        d.obs("a", pool)
        if rnd.random() < 0.5:
            bad(d, k, v)
        else:
            vs[k] = d.put("a", k)
        d.obs("a", [k])
    return d.trace


def bad(d, k, v):
    d.do({"op": "tamper", "h": "a", "k": k, "v": v})


# -- C13: views ------------------------------------------------------------
def views(rnd):
    d = Driver(rnd)
    sec = rnd.random() < 0.35
    pool = keypool(rnd, rnd.choice([2, 4, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 3))
    how = rnd.choice(HOWS)
    d.new("a", "empt", sec, how=how)
    d.new("b", "sparse", sec, how=how)
    vs = []
    for _ in range(10):
        k = rnd.choice(pool)
        if rnd.random() < 0.65 or not d.keys["a"]:
            v = d.put("a", k)
            d.put("b", k, v)
        else:
            k = rnd.choice(sorted(d.keys["a"]))
            d.drop("a", k)
            d.drop("b", k)
        if rnd.random() < 0.3:
            src = rnd.choice(["a", "a", "b"] + [v for v in vs if d.kind[v] == "sparse"])
            kind = "root" if d.kind[src] == "sparse" else rnd.choice(["sparse", "root"])
            if d.keys[src] or kind == "sparse":
                v = d.view(src, kind)
                if v:
                    vs.append(v)
                    d.obs(v, probes)
        if vs and rnd.random() < 0.4:
            v = rnd.choice(vs)
            if d.kind[v] == "sparse":
                d.step(v, pool, 0.5)
                if rnd.random() < 0.3:
                    refuse(d, v, rnd.choice(pool))
        if rnd.random() < 0.15:
            d.do({"op": "rebuild", "h": "a"})
        if rnd.random() < 0.4:
            for h in ["a", "b"] + vs[-3:]:
                d.obs(h, probes)
        if rnd.random() < 0.4 and d.keys["a"]:
            k = rnd.choice(probes)
            maker = rnd.choice(["a", "b"] + [v for v in vs if d.kind[v] == "sparse" and d.keys[v]])
            kk = "poi" if k in d.keys[maker] else "poe"
            p = d.prove(maker, k, kk)
            if p:
                for h in ["a", "b"] + vs[-3:]:
                    if d.keys[h]:
                        d.verify(h, p, kk)
    for h in ["a", "b"] + vs:
        d.obs(h, probes)
    return d.trace


# -- C14: rebuilding -------------------------------------------------------
def rebuilt(rnd):
    d = Driver(rnd)
    sec = rnd.random() < 0.35
    pool = keypool(rnd, rnd.choice([1, 3, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 3))
    d.new("a", "empt", sec)
    h = "a"
    for _ in range(rnd.choice([0, 1, 4, 7])):
        d.step(h, pool, 0.75)
    for _ in range(3):
        f = rnd.randrange(4)
        if f == 0:  # the reference trie is lost
            g = d.fresh("n")
            d.do({"op": "adopt", "h": g, "sec": sec, "st": "s_" + g, "d": h, "how": rnd.choice(HOWS)})
            d.data[g] = d.data[h]
            d.keys[g] = set(d.keys[h])
            h = g
        elif f == 1:  # the data changed behind it
            for _ in range(rnd.choice([1, 3])):
                k = rnd.choice(pool)
                if k in d.keys[h] and rnd.random() < 0.4:
                    d.do({"op": "tamper", "h": h, "k": k})
                    d.keys[h].discard(k)
                else:
                    d.do({"op": "tamper", "h": h, "k": k, "v": tok(rnd, "empt")})
                    d.keys[h].add(k)
        elif f == 2 and d.keys[h]:  # opened with an earlier root
            x = d.snap(h)
            for _ in range(2):
                d.step(h, pool, 0.6)
            st = [e for e in d.trace if e.get("h") == h and "st" in e][0]["st"]
            old = h
            h = d.open(x, "empt", sec, st, d.keys[old], old)
            d.data[h] = d.data[old]
        d.do({"op": "rebuild", "h": h})
        d.obs(h, probes, items=True)
        if rnd.random() < 0.3:
            d.do({"op": "rebuild", "h": h})
            d.obs(h, probes)
        if d.keys[h]:
            vs = [h] + [v for v in [d.view(h, "sparse"), d.view(h, "root")] if v]
            for k in few(rnd, probes, min(4, len(probes))):
                kk = "poi" if k in d.keys[h] else "poe"
                p = d.prove(h, k, kk)
                if p:
                    for v in vs:
                        d.verify(v, p, kk)
        for _ in range(rnd.choice([1, 3])):
            d.step(h, pool, 0.5)
        d.obs(h, probes)
    return d.trace


# -- C15: several objects --------------------------------------------------
def isolated(rnd):
    d = Driver(rnd)
    pool = keypool(rnd, rnd.choice([2, 4]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 1))
    hs = []
    for i in range(14):
        f = rnd.randrange(8)
        if f < 3 and len(hs) < 6:
            h = "h%d" % i
            kind = rnd.choice(["empt", "sparse", "empt", "sparse", "mpt"])
            d.new(h, kind, rnd.random() < 0.3, how="dict" if kind == "mpt" else rnd.choice(["default", "default", "dict", "custom"]))
            d.obs(h, probes)
            hs.append(h)
        elif f == 3 and hs and len(hs) < 8:
            h = rnd.choice(hs)
            for _ in range(rnd.choice([1, 2])):
                g = d.view(h, "sparse") if d.kind[h] == "empt" else d.codec(h)
                if g:
                    hs.append(g)
                    d.obs(g, probes)
        elif hs:
            h = rnd.choice(hs)
            if d.kind[h] == "empt" and rnd.random() < 0.1:
                d.do({"op": "rebuild", "h": h})
            elif d.kind[h] == "empt" and rnd.random() < 0.1:
                d.do({"op": "clear", "h": h})
                d.keys[h] = set()
            else:
                d.step(h, pool, 0.65)
        if rnd.random() < 0.4:
            for g in hs:
                d.obs(g, probes)
    for g in hs:
        d.obs(g, probes)
    return d.trace


# -- everything at once ----------------------------------------------------
class Medley(Driver):
    """Any call on any of several tries, seldom observed."""

    def __init__(self, rnd):
        super().__init__(rnd)
        self.hs, self.snaps, self.held = [], [], []
        self.sec, self.st = {}, {}
        self.dirty = {}  # handle -> key -> genuine value
        self.val = {}  # empt handle -> key -> value written
        self.pool = keypool(rnd, rnd.choice([2, 3, 4, 6]))
        self.probes = pick(rnd, self.pool, neighbours(rnd, self.pool, 3))
        self.vals = [value(rnd) for _ in range(3)]
        self.vals[2] = rnd.choice([self.vals[2], self.vals[1] + "00", "aa" * 40])

    def join(self, h, sec, st):
        if h:
            self.hs.append(h)
            self.sec[h], self.st[h] = sec, st
        return h

    def some(self, *kinds, filled=False):
        hs = [h for h in self.hs if self.kind[h] in (kinds or ("mpt", "empt", "sparse")) and (self.keys[h] or not filled)]
        return self.rnd.choice(hs) if hs else None

    def tok(self, h):
        t = "b" if self.kind[h] == "mpt" else self.rnd.choice("bbbao")
        return t + (self.rnd.choice(self.vals) if self.rnd.random() < 0.8 else value(self.rnd))

    def write(self, h, k):
        v = self.put(h, k, self.tok(h))
        self.dirty.get(h, {}).pop(k, None)
        self.val.setdefault(h, {})[k] = v

    def remove(self, h, k):
        gone = k in self.dirty.get(h, {}) and k in self.keys[h] and not self.stored(h, k)
        self.drop(h, k)
        if gone:  # refused, its data is gone
            self.keys[h].add(k)
        else:
            self.dirty.get(h, {}).pop(k, None)

    def stored(self, h, k):
        return any(hexkey == k for hexkey in map(bytes.hex, self.data[h].keys()))

    def one(self):
        rnd = self.rnd
        f = rnd.randrange(100)
        if not self.hs or f < 5 and len(self.hs) < 5:
            h = self.fresh("h")
            kind, sec = rnd.choice(["mpt", "mpt", "empt", "empt", "sparse"]), rnd.random() < 0.3
            mates = [g for g in self.hs if self.kind[g] == "mpt"]
            st = self.st[rnd.choice(mates)] if mates and kind == "mpt" and rnd.random() < 0.4 else "s_" + h
            self.new(h, kind, sec, st, None if kind == "mpt" else rnd.choice(HOWS + ["default"]))
            self.join(h, sec, st)
            return
        h = self.some()
        k = rnd.choice(self.pool if rnd.random() < 0.8 else self.probes)
        if f < 35 and h:
            self.write(h, k)
        elif f < 50 and h and self.keys[h]:
            self.remove(h, rnd.choice(sorted(self.keys[h])))
        elif f < 52 and h:
            self.remove(h, k)
        elif f < 58:
            self.map_op(self.some("empt"), k)
        elif f < 62:
            h = self.some("empt", filled=True)
            if h in self.data and not self.dirty.get(h):
                k = rnd.choice(sorted(self.keys[h]))
                new = None if rnd.random() < 0.3 else self.tok(h)
                self.dirty.setdefault(h, {})[k] = 1
                self.do({"op": "tamper", "h": h, "k": k} if new is None else {"op": "tamper", "h": h, "k": k, "v": new})
        elif f < 65:
            h = self.some("empt")
            if h:
                gone = {k for k in self.dirty.get(h, {}) if not self.stored(h, k)}
                self.do({"op": "rebuild", "h": h})
                self.dirty[h] = {}
                self.keys[h] -= gone
                self.snaps = [x for x in self.snaps if x[2] != self.st[h]]
                self.hs = [g for g in self.hs if g == h or self.st[g] != self.st[h]]
        elif f < 68:
            h = self.some("empt", "sparse", filled=True)
            if h:
                kind = rnd.choice(["sparse", "root"]) if self.kind[h] == "empt" else "root"
                v = self.view(h, kind)
                self.join(v, self.sec[h], "s_%s" % v)
        elif f < 72:
            h = self.some("mpt", "sparse")
            if h:
                c = self.codec(h)
                self.join(c, self.sec[h], "s_%s" % c)
                if rnd.random() < 0.3:
                    c = self.codec(h)
                    self.join(c, self.sec[h], "s_%s" % c)
        elif f < 75:
            if h and self.kind[h] != "root":
                self.snaps.append((self.snap(h), self.sec[h], self.st[h], set(self.keys[h]), self.kind[h], h))
        elif f < 79 and self.snaps:
            x, sec, st, ks, kind, g = rnd.choice(self.snaps)
            if kind == "mpt" and st.startswith("s_h") or kind == "sparse" and self.named.get(g):
                self.join(self.open(x, kind, sec, st, ks), sec, st)
            elif ks:
                self.join(self.open(x, "root", sec, "none", ks), sec, "none")
        elif f < 85:
            h = self.some(filled=True)
            if h:
                k = rnd.choice(self.probes)
                kk = "poi" if k in self.keys[h] else "poe"
                p = self.prove(h, k, kk)
                if p:
                    self.held.append((p, kk))
                    if rnd.random() < 0.5:
                        self.verify(h, p, kk)
        elif f < 92 and self.held:
            p, kk = rnd.choice(self.held[-8:])
            self.verify(rnd.choice(self.hs), p, kk if rnd.random() < 0.9 else "poe" if kk == "poi" else "poi")
        elif f < 94:
            a, b = self.some("mpt"), self.some("mpt")
            if a:
                self.do({"op": "eq", "h": a, "h2": b})
        elif f < 96 and h:
            if self.kind[h] == "mpt":
                self.do({"op": "refuse", "h": h, "what": "update value", "arg": rnd.choice(["str", "int", "none", "list"]),
                         "k": k})
            else:
                refuse(self, h, k)
        else:
            g = rnd.choice(self.hs)
            self.obs(g, self.probes if rnd.random() < 0.5 else few(rnd, self.probes, 2), items=rnd.random() < 0.3)
        if len(self.hs) > 6:
            self.hs.pop(rnd.randrange(6))

    def map_op(self, h, k):
        rnd = self.rnd
        if not h:
            return
        if self.dirty.get(h):
            peek(self, h)
            return
        mapop(self, h, k, self.tok(h))
        if rnd.random() < 0.3:
            peek(self, h)


def medley(rnd, steps=45):
    d = Medley(rnd)
    for _ in range(steps):
        d.one()
    for h in d.hs:
        d.obs(h, d.probes, items=d.kind[h] == "empt")
    return d.trace


# -- C25: equality ---------------------------------------------------------
def equal(rnd):
    d = Driver(rnd)
    pool = keypool(rnd, rnd.choice([1, 2, 3]))
    vals = ["b" + value(rnd) for _ in range(2)]
    hs = []
    for i in range(4):
        h = "h%d" % i
        d.new(h, "mpt", rnd.random() < 0.3)
        hs.append(h)
    for _ in range(14):
        h = rnd.choice(hs)
        if rnd.random() < 0.65 or not d.keys[h]:
            d.put(h, rnd.choice(pool), rnd.choice(vals))
        else:
            d.drop(h, rnd.choice(sorted(d.keys[h])))
        a, b = rnd.choice(hs), rnd.choice(hs)
        d.do({"op": "eq", "h": a, "h2": b})
        if rnd.random() < 0.2:
            d.do({"op": "eqother", "h": a, "what": rnd.choice(["None", "int", "bytes", "object", "hash"])})
            c = d.codec(a)
            if c:
                d.do({"op": "eq", "h": a, "h2": c})
    for h in hs:
        d.obs(h, pool)
    for _ in range(12):
        k, v = value(rnd, True), value(rnd, True)
        k2, v2 = rnd.choice([(k, v), (k, value(rnd)), (value(rnd), v), (v, k), (k + "00", v), (k, v + "00")])
        if k + v != k2 + v2 or k == k2:
            d.do({"op": "drefeq", "k": k, "v": v, "k2": k2, "v2": v2})
    return d.trace


# -- C26: secure mode ------------------------------------------------------
def secured(rnd):
    """A secure trie and a plain one over hashed keys, in step."""
    d = Driver(rnd)
    pool = keypool(rnd, rnd.choice([2, 4, 7]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 2))
    d.new("a", "mpt", True)
    d.new("b", "mpt", False)
    held = []
    for _ in range(10):
        k = rnd.choice(pool)
        if rnd.random() < 0.7 or not d.keys["a"]:
            v = d.put("a", k)
            d.put("b", keccak(k), v)
        else:
            k = rnd.choice(sorted(d.keys["a"]))
            d.drop("a", k)
            d.drop("b", keccak(k))
        d.do({"op": "eq", "h": "a", "h2": "b"})
        d.obs("a", probes)
        d.obs("b", [keccak(k) for k in probes[:3]])
        if d.keys["a"] and rnd.random() < 0.6:
            k = rnd.choice(probes)
            kk = "poi" if k in d.keys["a"] else "poe"
            for h, kx in (("a", k), ("b", keccak(k))):
                p = d.prove(h, kx, kk)
                if p:
                    d.verify("a", p, kk)
                    d.verify("b", p, kk)
        if rnd.random() < 0.25:
            c = d.codec("a")
            if c:
                d.obs(c, probes)
                d.step(c, pool, 0.6)
                d.obs(c, probes)
    return d.trace


# -- C27: data references --------------------------------------------------
def dref(k, v):
    h = keccak(k + v)
    n = h
    while n.startswith("00"):
        n = n[2:]
    return rlp_list([rlp_str(b"FF".hex()), rlp_str(k), rlp_str(v), rlp_str(n)])


def dref_raw(flag, k, v, n):
    return rlp_list([rlp_str(flag), rlp_str(k), rlp_str(v), rlp_str(n)])


# pairs whose hash has a leading zero byte or a high first bit
def find_hash(rnd, want):
    while True:
        k, v = value(rnd, True), value(rnd, True)
        if keccak(k + v).startswith(want):
            return k, v


def references(rnd):
    d = Driver(rnd)
    for i in range(10):
        if i == 0:
            k, v = find_hash(rnd, "00")
        else:
            k, v = value(rnd, True), value(rnd, True)
        d.do({"op": "drefenc", "k": k, "v": v})
        enc = dref(k, v)
        d.do({"op": "drefdec", "k": k, "v": v, "bytes": enc})
        n = keccak(k + v)
        alts = [
            dref_raw("4646", k, v + "00", n), dref_raw("4646", "00" + k, v, n), dref_raw("4645", k, v, n),
            dref_raw("", k, v, n), dref_raw("46", k, v, n), dref_raw("4646", v, k, n) if k + v != v + k else None,
            dref_raw("4646", k, v, "%064x" % (int(n, 16) ^ (1 << rnd.randrange(256)))),
            dref_raw("4646", k, v, n[:-2]), dref_raw("4646", k, v, ""), dref_raw("4646", k, v, n + "00"),
            dref_raw("4646", k, v, keccak(v)) if k else None,
            rlp_list([rlp_str("4646"), rlp_str(k), rlp_str(v)]),
            enc + "00", enc[:-2], "", "c0", "80",
        ]
        b = bytearray.fromhex(enc)
        b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        alts.append(bytes(b).hex())
        for x in few(rnd, [a for a in alts if a is not None and a != enc], 6):
            d.do({"op": "drefdec", "k": k, "v": v, "bytes": x})
    kind, sec = rnd.choice(["empt", "sparse"]), rnd.random() < 0.3
    d.new("a", kind, sec)
    pool = keypool(rnd, 4)
    for _ in range(8):
        d.step("a", pool, 0.7)
        if kind == "empt" and d.keys["a"] and rnd.random() < 0.6:
            bad(d, rnd.choice(sorted(d.keys["a"])), tok(rnd, "empt"))
        d.obs("a", pool)
    return d.trace


def boundary(rnd):
    """The pairs of the known finding: only the boundary of key and data moved."""
    d = Driver(rnd)
    for k, v in [("6162", "63"), ("", "00"), ("6b6579", "76616c7565")]:
        kv = k + v
        for cut in range(0, len(kv) + 1, 2):
            k2, v2 = kv[:cut], kv[cut:]
            if k2 != k:
                d.do({"op": "drefdec", "k": k, "v": v, "bytes": dref(k2, v2)})
                d.do({"op": "drefeq", "k": k, "v": v, "k2": k2, "v2": v2})
    return d.trace


# -- C28: storages that fail ------------------------------------------------
def fuse(rnd, n=None):
    f = {"n": n or rnd.choice([1, 1, 2, 2, 3, 4, 5, 7, 10])}
    if rnd.random() < 0.3:
        f["rw"] = rnd.choice("rw")
    if rnd.random() < 0.3:
        f["where"] = rnd.choice(["nodes", "data"])
    f["exc"] = rnd.choice(["os", "os", "interrupt", "key", "own", "time", "net", "right", "full", "run", "eof", "file"])
    f["stay"] = rnd.random() < 0.4
    return f


def strike(d, c, probes, others=()):
    """The call fails at its first, second, ... access to a storage; then it is made in peace."""
    rnd = d.rnd
    live = sorted(d.keys[c["h"]])
    base = fuse(rnd)
    if c["op"] in ("pop", "setdefault", "clear", "popitem") and base["exc"] == "key":
        base["exc"] = "os"  # a mapping takes a KeyError of its storage for an answer
    ns = list(range(1, 60))
    if rnd.random() < 0.3:
        rnd.shuffle(ns)
        ns = ns[:rnd.choice([1, 2, 5])]
    for n in ns:
        e = d.do(dict(c, fuse=dict(base, n=n)))
        for g in (c["h"], *others) if rnd.random() < 0.6 or not e["fired"] else (c["h"],):
            d.obs(g, probes if rnd.random() < 0.7 else few(rnd, probes, min(3, len(probes))))
        if not e["fired"] or e["out"]["ok"]:
            return e
        if rnd.random() < 0.2 and live:
            k = rnd.choice(live)
            p = d.prove(c["h"], k, "poi")
            if p:
                d.verify(c["h"], p, "poi")
    return d.do(c)


def question(d, h, probes):
    """One reading call during an outage."""
    rnd = d.rnd
    k = rnd.choice(probes)
    whats = {"mpt": ["get", "item", "has", "in"], "empt": ["get", "item", "has", "in", "ref"],
             "sparse": ["has", "in", "ref"]}[d.kind[h]]
    f = rnd.randrange(8)
    if f < 4:
        d.do({"op": "ask", "h": h, "k": k, "what": rnd.choice(whats), "fuse": fuse(rnd)})
    elif f < 6:
        kk = rnd.choice(["poi", "poe"])
        p = d.fresh("p")
        e = d.do({"op": kk, "h": h, "k": k, "p": p, "fuse": fuse(rnd)})
        if e["out"]["ok"]:
            d.verify(h, p, kk)
    elif f == 6 and d.kind[h] != "empt":
        g = d.fresh("c")
        e = d.do({"op": "codec", "h": h, "h2": g, "st": "s_" + g, "fuse": dict(fuse(rnd), exc=rnd.choice(["os", "interrupt"]))})
        if d.got(h, g):
            d.obs(g, probes)
    elif d.kind[h] != "mpt":
        g = d.fresh("v")
        kind = rnd.choice(["sparse", "root"]) if d.kind[h] == "empt" else "root"
        e = d.do({"op": "view", "h": h, "h2": g, "kind": kind, "st": "s_" + g, "fuse": dict(fuse(rnd), exc="os")})
        if d.got(h, g):
            d.obs(g, probes)


def attack(d, h, pool, probes, others=()):
    """A write or deletion during outages, until it succeeds."""
    rnd, live = d.rnd, sorted(d.keys[h])
    f = rnd.random()
    if not live or f < 0.5:
        k = rnd.choice(pool)
        strike(d, {"op": rnd.choice(["update", "setitem"]), "h": h, "k": k, "v": tok(rnd, d.kind[h])}, probes, others)
        d.keys[h].add(k)
        return
    k = rnd.choice(live)
    if d.kind[h] == "empt":
        if f < 0.6:
            strike(d, {"op": "rebuild", "h": h}, probes, others)
            return
        if f < 0.65 and len(live) < 7:
            e = d.do({"op": "clear", "h": h, "fuse": dict(fuse(rnd), exc=rnd.choice(["os", "interrupt"]))})
            d.obs(h, probes)
            if not e["out"]["ok"]:  # a reference without data may be left
                d.do({"op": "rebuild", "h": h})
                d.obs(h, probes, items=True)
            d.keys[h] = {k.hex() for k in d.data[h].keys()}
            return
        # the data may be gone before the deletion fails, so it cannot be repeated as it is
        e = d.do({"op": rnd.choice(["delete", "delitem", "pop"]), "h": h, "k": k, "fuse": dict(fuse(rnd), exc="os")})
        d.obs(h, probes)
        for g in others:
            d.obs(g, probes)
        if e["out"]["ok"]:
            d.keys[h].discard(k)
        else:
            d.put(h, k)
            d.obs(h, probes)
        return
    strike(d, {"op": rnd.choice(["delete", "delitem"]), "h": h, "k": k}, probes, others)
    d.keys[h].discard(k)


def outages(rnd):
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "mpt", "sparse", "empt", "empt"]), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([3, 4, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 3))
    d.new("a", kind, sec, "s", "flaky")
    others = []
    if rnd.random() < 0.4 and kind != "empt":
        d.new("b", kind, sec, "s", "flaky")
        others.append("b")
    for h in ["a"] + others:
        for _ in range(rnd.choice([0, 2, 5])):
            d.step(h, pool, 0.8)
    olds = []
    for _ in range(rnd.choice([4, 6])):
        h = rnd.choice(["a"] + others)
        if rnd.random() < 0.4 and kind != "empt":
            olds.append((d.snap("a"), set(d.keys["a"])))
        for _ in range(rnd.choice([0, 1, 3])):
            question(d, h, probes)
        attack(d, h, pool, probes, others)
        if olds and rnd.random() < 0.4:
            x, ks = rnd.choice(olds)
            d.obs(d.open(x, kind, sec, "s", ks), probes)
    for h in ["a"] + others:
        d.obs(h, probes, items=True)
    return d.trace


# -- C29: storages that lack nodes ------------------------------------------
def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return a[:n]


def pruned(rnd):
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "mpt", "sparse", "empt"]), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([4, 6, 9]))
    forks = sorted({k for k in (common(a, b) for a in pool for b in pool if a != b) if len(k) % 2 == 0 and k not in pool})
    probes = pick(rnd, pool, neighbours(rnd, pool, 3) + few(rnd, forks, 2))
    d.new("a", kind, sec, "s", rnd.choice(["dict", "dict", "custom"]))
    for k in pool:
        d.put("a", k)
    for _ in range(rnd.randrange(4)):
        d.step("a", pool)
    for turn in range(rnd.choice([1, 2, 3])):
        prune(d, "a", kind, sec, pool, probes, turn)
    return d.trace


def prune(d, h, kind, sec, pool, probes, turn=0):
    rnd = d.rnd
    at = "s" if h == "a" else "s_" + h
    nodes = sorted(n.hex() for n in d.stores[at].keys())
    if not nodes:
        d.put(h, rnd.choice(pool), ("b" if kind == "mpt" else rnd.choice("bao")) + rhex(rnd, 40))
        return
    f = rnd.random()
    gone = nodes if f < 0.15 else few(rnd, nodes, min(len(nodes), rnd.choice([1, 1, 2, 4]))) if f < 0.7 else \
        [n for n in nodes if rnd.random() < 0.5]
    aim = []
    if f > 0.45:  # the end of the way to one key, or another node on it
        k = rnd.choice(probes)
        p = d.prove(h, k, "poi" if k in d.keys[h] else "poe")
        way = [keccak(n) for n in d.trace[-1]["out"]["nodes"]] if p else []
        way = [n for n in way if n in nodes]
        if way:
            gone, aim = [way[-1] if rnd.random() < 0.6 else rnd.choice(way)], [k]
            aim += [x for x in probes if x and (k.startswith(x) or x.startswith(k))]
    if kind == "empt" or rnd.random() < 0.3:  # the storage itself
        d.do({"op": "prune", "st": at, "to": at, "nodes": gone})
        g = h
    else:
        st = d.fresh("t")
        d.do({"op": "prune", "st": at, "to": st, "nodes": gone})
        x = d.snap(h)
        g = d.open(x, kind, sec, st, d.keys[h])
    lackings(d, g, pool, probes, aim)


def lackings(d, g, pool, probes, aim=()):
    rnd = d.rnd
    d.obs(g, probes)
    for k in aim[:3]:
        if rnd.random() < 0.7 or k not in d.keys[g]:
            e = d.do({"op": rnd.choice(["update", "setitem"]), "h": g, "k": k, "v": tok(rnd, d.kind[g])})
            if e["out"]["ok"]:
                d.keys[g].add(k)
        else:
            e = d.do({"op": rnd.choice(["delete", "delitem"]), "h": g, "k": k})
            if e["out"]["ok"]:
                d.keys[g].discard(k)
            elif d.kind[g] == "empt":
                d.do({"op": "tamper", "h": g, "k": k, "v": "b00"})
        d.obs(g, probes)
    whats = ["get", "item", "has", "in", "ref"]
    whats = [w for w in whats if not (d.kind[g] == "mpt" and w == "ref") and not (d.kind[g] == "sparse" and w in ("get", "item"))]
    for _ in range(6):
        f = rnd.randrange(6)
        k = rnd.choice(probes)
        if f == 0:
            d.do({"op": "ask", "h": g, "k": k, "what": rnd.choice(whats)})
        elif f <= 2:
            kk = rnd.choice(["poi", "poe"])
            p = d.prove(g, k, kk)
            if p:
                d.verify(g, p, kk)
        elif f == 3:
            k = rnd.choice(pool if rnd.random() < 0.6 else probes)
            e = d.do({"op": rnd.choice(["update", "setitem"]), "h": g, "k": k, "v": tok(rnd, d.kind[g])})
            if e["out"]["ok"]:
                d.keys[g].add(k)
            d.obs(g, probes)
        elif f == 4 and d.keys[g]:
            k = rnd.choice(sorted(d.keys[g]))
            e = d.do({"op": rnd.choice(["delete", "delitem"]), "h": g, "k": k})
            if e["out"]["ok"]:
                d.keys[g].discard(k)
            elif d.kind[g] == "empt":
                d.do({"op": "tamper", "h": g, "k": k, "v": "b00"})
            d.obs(g, probes)
        elif f == 5 and d.kind[g] != "empt":
            c = d.codec(g)
            if c:
                d.obs(c, probes)
        else:
            v = d.view(g, "sparse" if d.kind[g] == "empt" else "root") if d.kind[g] != "mpt" else None
            if v:
                d.obs(v, probes)
    if d.kind[g] == "empt" and rnd.random() < 0.5:
        d.do({"op": "rebuild", "h": g})
        d.obs(g, probes)
