"""Executes events of spec/Keys.tla on real key pairs and Utils; drivers for them.

Signatures, envelopes and encrypted texts differ in every execution, so commands name
them: a byte string in a command is a recipe, {"hex": ...} or {"of": name, "f": field},
with alterations "do": [[what, arg], ...], or {"cat": [recipes]}.  The event carries the
bytes as well.
"""
import base64
import binascii
import copy
import hashlib
import json
import os
import random
import re
import shutil
import tempfile
import unicodedata

from Crypto.Cipher import AES, PKCS1_OAEP
from Crypto.Hash import SHA256
from Crypto.PublicKey import RSA
from Crypto.Signature import pkcs1_15

from pymt.keypairs import RsaAuthKeyPair, RsaEncKeyPair, RsaKeyPair
from pymt.utils.utils import Utils

import tlc
import walks
import words
from drivers import HERE, Driver, rhex, value
from words import few
from world import Obj

CLASSES = {"base": RsaKeyPair, "auth": RsaAuthKeyPair, "enc": RsaEncKeyPair}
FIELDS = ["enc_session_key", "nonce", "tag", "ciphertext", "signature"]
BITS = 1024
MINE = {k: type("My" + c.__name__, (c,), {}) for k, c in CLASSES.items()}  # as a user derives them

POOL = {}  # key pairs generated by this process, used again under new names


def classof(c):
    return (MINE if c.get("mine") else CLASSES)[c["kind"]]


def generated(c):
    at = c["kind"], c["slot"], c.get("mine", False)
    if at not in POOL:
        k = classof(c)(_generate_keys=False)
        k.generate_keypair(BITS)
        POOL[at] = k
    k = POOL[at]
    return copy.copy(k) if getattr(HERE, "among", False) else k


def pubid(raw):
    k = RSA.import_key(raw)
    return hashlib.sha256(f"{k.n} {k.e}".encode()).hexdigest()[:32]


def written(raw, c):
    """A public key in the form the command names."""
    if "as" not in c:
        return raw
    k = RSA.import_key(raw).export_key(c["as"])
    return k if isinstance(k, bytes) else k.encode()


def brief(text):
    """Very long texts are known by their digest."""
    return text if len(text) <= 8000 else "#%d %s" % (len(text), hashlib.sha256(text.encode()).hexdigest())


def insides(text):
    """The text and every byte string written in it."""
    raw = text.encode() if isinstance(text, str) else text
    found = [raw]
    for m in re.findall(rb"[0-9a-fA-F]{16,}", raw):
        found.append(bytes.fromhex(m[: len(m) // 2 * 2].decode()))
    for m in re.findall(rb"[0-9A-Za-z+/=]{16,}", raw):
        try:
            found.append(base64.b64decode(m + b"=" * (-len(m) % 4)))
        except (binascii.Error, ValueError):
            pass
    return found


def readable(text, pair):
    """Whether the private key can be had from a saved text alone."""
    parts = insides(text)
    parts += [y for x in parts for y in insides(x)]
    try:
        words = [None] + [v for v in json.loads(text).values()
                          if isinstance(v, str) and len(v) < 200 and v != pair.nickname]
    except ValueError:
        words = [None]
    for x in parts:
        if len(x) < 64:
            continue
        for word in words:
            try:
                if RSA.import_key(x, passphrase=word).has_private():
                    return True
            except (ValueError, IndexError, TypeError, UnicodeError):
                pass
    for key in vars(pair).values():
        if isinstance(key, RSA.RsaKey) and key.has_private():
            for n in (key.d, key.p, key.q):
                for x in parts:
                    low = x.lower()
                    if str(n).encode() in x or b"%x" % n in low or n.to_bytes((n.bit_length() + 7) // 8, "big") in x:
                        return True
    return False


class KDriver(Driver):
    limit = 120  # making a key takes long

    def __init__(self, rnd):
        super().__init__(rnd)
        self.res = {}
        self.saved = {}
        self.dir = None

    # -- recipes -----------------------------------------------------------
    def bytes(self, r):
        if "hex" in r:
            b = bytes.fromhex(r["hex"])
        elif "noise" in r:
            seed, n = r["noise"]
            b = random.Random(seed).randbytes(n)
        elif "cat" in r:
            b = b"".join(self.bytes(x) for x in r["cat"])
        else:
            b = bytes.fromhex(self.res[r["of"]][r["f"]])
        for what, x in r.get("do", ()):
            m = bytearray(b)
            if what == "flip" and m:
                m[x // 8 % len(m)] ^= 1 << x % 8
            elif what == "cut":
                m = m[: max(0, len(m) - x)]
            elif what == "head":
                m = m[x:]
            elif what == "take":
                m = m[:x]
            elif what == "add":
                m += bytes.fromhex(x)
            elif what == "front":
                m = bytearray(bytes.fromhex(x)) + m
            elif what == "zero":
                m = bytearray(len(m))
            elif what == "rev":
                m = m[::-1]
            b = bytes(m)
        return b

    def pub(self, h):
        return self.h[h].public_key

    # -- key pairs ---------------------------------------------------------
    def do_knew(self, c, e):
        def f():
            if c.get("slot") is not None:
                k = generated(c)
            elif c.get("full"):  # as the constructor makes it
                k = classof(c)(c["name"]) if c["named"] else classof(c)()
            else:
                k = classof(c)(c["name"] if c["named"] else None, _generate_keys=False)
                k.generate_keypair(BITS)
            if c.get("slot") is not None and c["named"]:
                k.nickname = c["name"]
            self.h[c["h"]], self.kind[c["h"]] = k, c["kind"]
            return {"id": pubid(k.public_key), "name": k.nickname}

        r = self.need(e, f)
        if r:
            e["out"].update(r)

    def do_kname(self, c, e):
        def f():
            self.h[c["h"]].nickname = c["name"]

        e["out"] = self.out(f)

    def do_kregen(self, c, e):
        def f():
            self.h[c["h"]].generate_keypair(BITS)
            return pubid(self.pub(c["h"]))

        e["out"] = self.out(f, lambda v: {"id": v})

    # -- signatures --------------------------------------------------------
    def do_ksign(self, c, e):
        data = self.bytes(c["data_"])
        e["data"] = brief(data.hex())

        def f():
            s = self.h[c["h"]].sign(data)
            self.res[c["s"]] = {"sig": s.hex()}
            return s

        e["out"] = self.out(f, lambda s: {"sig": s.hex()})

    def do_kverify(self, c, e):
        data, sig = self.bytes(c["data_"]), self.bytes(c["sig_"])
        e["data"], e["sig"] = brief(data.hex()), sig.hex()
        e["badpub"] = "badpub_" in c
        e["pub"] = ""
        args = [data, sig]
        if "badpub_" in c:
            args.append(self.bytes(c["badpub_"]))
        elif c["pubh"]:
            raw = self.pub(c["pubh"])
            e["pub"] = pubid(raw)
            args.append(written(raw, c))
        t = self.h[c["h"]]
        if c.get("kw"):
            e["out"] = self.out(lambda: t.signature_valid(data=args[0], signature=args[1],
                                                          public_key=args[2] if len(args) > 2 else None), self.truth)
        else:
            e["out"] = self.out(lambda: t.signature_valid(*args), self.truth)

    # -- envelopes ---------------------------------------------------------
    def do_kenc(self, c, e):
        data, pub = self.bytes(c["data_"]), self.pub(c["toh"])
        e["data"], e["to"] = brief(data.hex()), pubid(pub)

        def f():
            raw = self.h[c["h"]].encrypt(data, written(pub, c))
            fields = {k: bytes.fromhex(v).hex() for k, v in json.loads(raw).items()}
            self.res[c["x"]] = dict(fields, raw=raw.hex())
            return fields

        e["out"] = self.out(f, lambda v: {"fields": {k: brief(x) for k, x in v.items()}})

    def do_kdec(self, c, e):
        if "raw" in c:  # just as it came
            r = self.res[c["raw"]]
            fields, raw = {k: v for k, v in r.items() if k != "raw"}, bytes.fromhex(r["raw"])
        elif "mole" in c:
            fields = {}
            self.craft(c, fields)
            raw = json.dumps(fields).encode()
        else:
            fields = {}
            for k, r in c["parts"].items():
                fields[k] = r["text"] if "text" in r else self.bytes(r).hex()
                for what, x in r.get("chars", ()):
                    fields[k] = fields[k][x:] if what == "head" else fields[k][:-x] if what == "cut" else fields[k] + x
            raw = json.dumps(fields).encode()
        e["fields"], e["from"] = {k: brief(x) for k, x in fields.items()}, pubid(self.pub(c["fromh"]))
        e["out"] = self.out(lambda: self.h[c["h"]].decrypt(raw, written(self.pub(c["fromh"]), c)),
                            lambda v: {"v": brief(v.hex())})

    def do_kgarbage(self, c, e):
        """Decryption of what is no envelope."""
        e["op"], e["op_"], e["fields"] = "kdec", "kgarbage", {}
        e["from"], e["how"] = pubid(self.pub(c["fromh"])), "garbage"
        e["out"] = self.out(lambda: self.h[c["h"]].decrypt(self.bytes(c["raw_"]), self.pub(c["fromh"])),
                            lambda v: {"v": v.hex()})

    def rsa(self, h):
        """The private key of a pair, for what an insider does."""
        return next(v for v in vars(self.h[h]).values() if isinstance(v, RSA.RsaKey))

    def craft(self, c, fields):
        """The fields an insider makes, with what he knows."""
        key = {"own": b"k" * 16}
        parts = c["parts"]
        rest = {}
        r = parts["enc_session_key"]
        if "known" in r:
            k = key.get(r["known"]) or self.session(c, r["known"])
            to = RSA.import_key(self.pub(r["to"]))
            rest["enc_session_key"] = PKCS1_OAEP.new(to).encrypt(k)
        for f in ("nonce", "ciphertext"):
            if "own" in parts[f]:
                rest[f] = b"n" * 16 if f == "nonce" else AES.new(key["own"], AES.MODE_EAX, b"n" * 16).encrypt(b"own data")
        x = {f: rest[f] if f in rest else self.bytes(r) for f, r in parts.items()
             if f in rest or not {"tagfor", "signby"} & set(r)}
        r = parts["tag"]
        if "tagfor" in r:
            k = key.get(r["tagfor"]) or self.session(c, r["tagfor"])
            x["tag"] = b""
            if x["nonce"]:
                cipher = AES.new(k, AES.MODE_EAX, x["nonce"])
                cipher.update(self.pub(c["fromh"]))
                plain = AES.new(k, AES.MODE_EAX, x["nonce"]).decrypt(x["ciphertext"])
                x["tag"] = cipher.encrypt_and_digest(plain)[1]
        if "signby" in parts["signature"]:
            x["signature"] = pkcs1_15.new(self.rsa(parts["signature"]["signby"])).sign(
                SHA256.new(x["enc_session_key"] + x["nonce"] + x["tag"] + x["ciphertext"]))
        fields.update({f: x[f].hex() for f in FIELDS})

    def session(self, c, x):
        """The session key of an envelope the insider received."""
        return PKCS1_OAEP.new(self.rsa(c["mole"])).decrypt(bytes.fromhex(self.res[x]["enc_session_key"]))

    # -- operations of the other kind --------------------------------------
    def do_kother(self, c, e):
        args = [self.arg(a) for a in c["args"]]
        e["out"] = self.out(lambda: getattr(self.h[c["h"]], c["what"])(*args))

    def arg(self, a):
        if isinstance(a, dict) and "pub" in a:
            return self.pub(a["pub"])
        if isinstance(a, dict) and "other" in a:
            return {"None": None, "str": "text", "int": 7, "bytearray": bytearray(b"x"), "list": [b"x"],
                    "Obj": Obj(b"x")}[a["other"]]
        return self.bytes(a)

    # -- saving and loading ------------------------------------------------
    def path(self, x):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="pymt-keys-")
        return os.path.join(self.dir, x + ".json")

    def do_ksave(self, c, e):
        e["word"] = c["pass"].encode().hex()
        t = self.h[c["h"]]

        def f():
            if c.get("odd"):  # a name that cannot be saved
                name = t.nickname
                try:
                    t.nickname = {"bytes": b"name", "set": {"name"}}[c["odd"]]
                    t.to_key_file(self.path(c["x"]), c["pass"]) if c["form"] == "file" else t.to_key_string(c["pass"])
                finally:
                    t.nickname = name
                return "saved"
            if c["form"] == "file":
                t.to_key_file(self.path(c["x"]), c["pass"])
                with open(self.path(c["x"]), "rb") as g:
                    s = g.read().decode("utf-8", "surrogateescape")
            else:
                s = self.saved[c["x"]] = t.to_key_string(c["pass"])
            return s

        e["out"] = self.out(f, lambda s: {"readable": readable(s, t)})

    def do_kload(self, c, e):
        e["word"] = c["pass"].encode().hex()
        cls = classof(c)

        def f():
            if c["form"] == "file":
                k = cls.from_key_file(self.path(c["x"]), c["pass"])
            else:
                k = cls.from_key_string(self.saved.get(c["x"], c.get("text", "")), c["pass"])
            o = {"id": pubid(k.public_key), "name": k.nickname}
            self.h[c["h"]], self.kind[c["h"]] = k, c["kind"]
            return o

        e["out"] = self.out(f, lambda o: o)

    # -- equality ----------------------------------------------------------
    def do_keq(self, c, e):
        a, b = self.h[c["h"]], self.h[c["h2"]]

        def f():
            if (a == b) is not (b == a):
                raise ValueError("depends on the side")
            return a == b, a != b, hash(a) == hash(b)

        e["out"] = self.out(f, self.showeq)

    def do_keqother(self, c, e):
        k = self.h[c["h"]]
        o = {"None": lambda: None, "int": lambda: 3, "bytes": lambda: k.public_key, "str": lambda: k.nickname,
             "object": object, "hash": lambda: hash(k), "tuple": lambda: (k.public_key, k.nickname),
             "repr": lambda: repr(k)}[c["what"]]
        e["out"] = self.out(lambda: k == o(), self.showother)

    # -- passwords ---------------------------------------------------------
    def do_pwenc(self, c, e):
        e["word"] = c["pass"].encode().hex()
        data = self.bytes(c["data_"])
        e["data"] = brief(data.hex())

        def f():
            b = Utils.encrypt(data, c["pass"])
            self.res[c["b"]] = {"blob": b.hex()}
            return b

        e["out"] = self.out(f, lambda b: {"blob": brief(b.hex())})

    def do_pwdec(self, c, e):
        e["word"] = c["pass"].encode().hex()
        blob = self.bytes(c["blob_"])
        e["blob"] = brief(blob.hex())
        e["out"] = self.out(lambda: Utils.decrypt(blob, c["pass"]), lambda v: {"v": brief(v.hex())})

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    # -- shorthands --------------------------------------------------------
    def knew(self, h, kind=None, name=None, fresh=False, full=False, **more):
        kind = kind or self.rnd.choice(sorted(CLASSES))
        c = {"op": "knew", "h": h, "kind": kind, "named": name is not None, "name": name or "", **more}
        if full:
            c["full"] = True
        elif not fresh:
            used = [x.get("slot") for x in self.trace if x["op"] == "knew" and x["kind"] == kind]
            c["slot"] = next(i for i in range(100) if i not in used)
            c["named"], c["name"] = True, name or ("name of " + h if self.rnd.random() < 0.6 else words.word(self.rnd))
        self.do(c)

    def sign(self, h, data):
        s = self.fresh("s")
        self.do({"op": "ksign", "h": h, "data_": data, "s": s})
        return s if s in self.res else None

    def verify(self, h, data, sig, pubh="", **more):
        c = {"op": "kverify", "h": h, "data_": data, "sig_": sig, "pubh": pubh}
        c.update(more)
        if self.rnd.random() < 0.2:
            c["kw"] = True
        self.do(dict(c, **self.form(pubh)))

    def form(self, pubh=True):
        """Now and then a public key comes in another form."""
        return {"as": self.rnd.choice(["DER", "OpenSSH"])} if pubh and self.rnd.random() < 0.12 else {}

    def enc(self, h, to, data):
        x = self.fresh("e")
        self.do({"op": "kenc", "h": h, "toh": to, "data_": data, "x": x, **self.form()})
        return x if x in self.res else None

    def dec(self, h, sender, parts, how=""):
        c = {"op": "kdec", "h": h, "fromh": sender, "how": how}
        c.update({"raw": parts} if isinstance(parts, str) else {"parts": parts})
        self.do(dict(c, **self.form()))

    def save(self, h, x, word, form, exotic=False, **more):
        self.do({"op": "ksave", "h": h, "x": x, "pass": word, "form": form, "exotic": exotic, **more})

    def load(self, h, x, word, form, kind, **more):
        had = h in self.h and self.h[h]
        self.do({"op": "kload", "h": h, "x": x, "pass": word, "form": form, "kind": kind, **more})
        return h in self.h and self.h[h] is not had


def lit(h):
    return {"hex": h}


def of(x, f):
    return {"of": x, "f": f}


def alter(rnd, r, n):
    """An alteration of a recipe for n bytes."""
    f = rnd.randrange(8)
    do = {0: ["flip", rnd.randrange(max(1, 8 * n))], 1: ["flip", rnd.choice([0, 7, max(0, 8 * n - 1), max(0, 8 * n - 8)])],
          2: ["cut", rnd.choice([1, 1, 2, 16])], 3: ["head", rnd.choice([1, 1, 16])],
          4: ["add", rnd.choice(["00", "ff", "0a", "00" * 16])], 5: ["front", rnd.choice(["00", "01", "00" * 16])],
          6: ["zero", 0], 7: ["cut", 10000]}[f]
    return dict(r, do=r.get("do", []) + [do])


def halved(rnd, r):
    """Half a byte more or less, or what is no digit."""
    return dict(r, chars=[rnd.choice([["add", "0"], ["add", "f"], ["add", "g"], ["add", "zz"], ["head", 1], ["cut", 1], ["add", "\u00e9"]])])


SPECIAL = ["", "00", "0000", "0a", "61", "6100", "ff" * 33, "0d0a", "20", "7b7d", "c3a9", "00" * 16]


def data(rnd):
    return rnd.choice(SPECIAL) if rnd.random() < 0.4 else value(rnd, True)


# -- C20 -------------------------------------------------------------------
def signing(rnd):
    d = KDriver(rnd)
    hs = "abcd"[: rnd.choice([2, 3, 3, 4])]
    for i, h in enumerate(hs):
        d.knew(h, rnd.choice(["base", "auth"]), fresh=i == 0 and rnd.random() < 0.1)
    d.knew("z", "enc")
    texts = [data(rnd) for _ in range(3)]
    texts += [texts[0] + "00", texts[0][:-2], texts[1] + texts[2], "", "00" + texts[0]]
    sigs = []
    for _ in range(6):
        h, m = rnd.choice(hs), rnd.choice(texts)
        s = d.sign(h, lit(m))
        if s:
            sigs.append((h, m, s))
            for g in hs:
                d.verify(g, lit(m), of(s, "sig"), h)
            d.verify(h, lit(m), of(s, "sig"))
    if not sigs:
        return d.trace
    for _ in range(60):
        h, m, s = rnd.choice(sigs)
        g, pub, sig, text = rnd.choice(hs), h, of(s, "sig"), lit(m)
        n = len(d.res[s]["sig"]) // 2
        f = rnd.randrange(10)
        if f < 3:
            text = lit(rnd.choice(texts)) if rnd.random() < 0.5 else alter(rnd, text, len(m) // 2)
        elif f < 6:
            sig = alter(rnd, sig, n)
        elif f == 6:
            sig = rnd.choice([lit(""), lit("00" * n), lit("ff" * n), lit("00"), lit(m), of(rnd.choice(sigs)[2], "sig"),
                              {"cat": [sig, sig]}])
        elif f < 9:
            pub = rnd.choice(list(hs) + ["", "z"])
        else:
            text, pub = of(s, "sig"), rnd.choice(list(hs))
        d.verify(g, text, sig, pub)
    h, m, s = rnd.choice(sigs)
    for bad in ("", "61", "2d2d2d2d2d"):
        d.verify(rnd.choice(hs), lit(m), of(s, "sig"), badpub_=lit(bad))
    if rnd.random() < 0.3:  # generated again
        h, m, s = rnd.choice(sigs)
        d.knew("y", d.kind[h], fresh=True)
        s = d.sign("y", lit(m))
        if s:
            d.verify("y", lit(m), of(s, "sig"))
            d.do({"op": "kregen", "h": "y"})
            d.verify("y", lit(m), of(s, "sig"))
            s2 = d.sign("y", lit(m))
            if s2:
                d.verify("y", lit(m), of(s2, "sig"))
                d.verify(hs[0], lit(m), of(s2, "sig"), "y")
    return d.trace


BLOCKS = [16, 32, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384]


def places(rnd, n):
    """Single bytes of n worth changing: the ends, and the two sides of every border between blocks."""
    some = {0, 1, n - 2, n - 1}
    for b in few(rnd, BLOCKS, 4):
        k = b * rnd.randint(1, max(1, n // b))
        some |= {k - 1, k, n - b - 1, n - b}
    some |= {rnd.randrange(n) for _ in range(4)}
    return sorted(i for i in some if 0 <= i < n)


def longdata(rnd):
    """Data as long as a whole number of blocks, or one byte off, with no two blocks alike; and its length."""
    f = rnd.random()
    b = rnd.choice(BLOCKS) if f < 0.5 else max(2, words.number(rnd, 3000000)) if f < 0.9 else rnd.choice([65536, 100000, 1 << 20])
    n = b * rnd.randint(1, max(1, min(6, 24000 // b))) + rnd.choice([0, 0, 0, -1, 1, 16, b // 3])
    return {"noise": [rnd.randrange(1 << 30), n]}, n


def longsigned(rnd):
    """Long data, with one byte changed anywhere, cut and extended."""
    d = KDriver(rnd)
    d.knew("a", rnd.choice(["base", "auth"]))
    d.knew("b", rnd.choice(["base", "auth"]))
    m, n = longdata(rnd)
    s = d.sign("a", m)
    if s:
        d.verify("a", m, of(s, "sig"))
        d.verify("b", m, of(s, "sig"), "a")
        for i in places(rnd, n):
            d.verify(rnd.choice("ab"), dict(m, do=[["flip", 8 * i + rnd.randrange(8)]]), of(s, "sig"), "a")
        for do in (["cut", 1], ["head", 1], ["add", "00"], ["front", "00"], ["cut", rnd.choice(BLOCKS)]):
            d.verify("a", dict(m, do=[do]), of(s, "sig"))
        d.verify("a", {"cat": [m, dict(m, do=[["head", max(0, n - rnd.choice(BLOCKS))]])]}, of(s, "sig"))
    return d.trace


# -- C21 -------------------------------------------------------------------
def longsealed(rnd):
    """Long data comes back whole; its ciphertext with one byte changed anywhere does not."""
    d = KDriver(rnd)
    d.knew("a", rnd.choice(["base", "enc"]))
    d.knew("b", rnd.choice(["base", "enc"]))
    for _ in range(2):
        m, _ = longdata(rnd)
        x = d.enc("a", "b", m)
        if x:
            d.dec("b", "a", x)
            n = len(d.res[x]["ciphertext"]) // 2
            for i in few(rnd, places(rnd, n), 6):
                d.dec("b", "a", dict(whole(x), ciphertext=dict(of(x, "ciphertext"), do=[["flip", 8 * i + rnd.randrange(8)]])))
    return d.trace


def whole(x):
    return {f: of(x, f) for f in FIELDS}


def enveloped(rnd):
    d = KDriver(rnd)
    hs = "abcd"[: rnd.choice([2, 3, 4])]
    for i, h in enumerate(hs):
        d.knew(h, rnd.choice(["base", "enc"]), fresh=i == 0 and rnd.random() < 0.1)
    texts = [data(rnd) for _ in range(3)] + [""]
    if rnd.random() < 0.2:
        texts.append("ab" * rnd.choice([1000, 5000, 70000]))
    envs = []
    a, b = rnd.choice(hs), rnd.choice(hs)
    for i in range(5):
        s, r = (a, b) if i < 2 else (rnd.choice(hs), rnd.choice(hs))
        m = rnd.choice(texts)
        x = d.enc(s, r, lit(m))
        if x:
            envs.append((s, r, x))
            d.dec(r, s, x)
            d.dec(r, s, whole(x))
            for g in hs:
                d.dec(g, s, x)
                d.dec(r, g, x)
    for _ in range(45):
        if not envs:
            break
        s, r, x = rnd.choice(envs)
        parts = whole(x)
        f = rnd.randrange(10)
        k = rnd.choice(FIELDS)
        if f < 4:
            parts[k] = alter(rnd, parts[k], len(d.res[x][k]) // 2)
        elif f == 4:
            del parts[k]
        elif f == 5:
            parts[k] = rnd.choice([{"text": ""}, {"text": "zz"}, lit("00" * (len(d.res[x][k]) // 2)), lit(""),
                                   of(x, rnd.choice(FIELDS))])
        elif f < 8:
            for k in few(rnd, FIELDS, rnd.choice([1, 1, 2, 3, 4])):
                parts[k] = of(rnd.choice(envs)[2], k)
        elif f == 9:
            parts[k] = halved(rnd, parts[k])
        else:
            i, j = few(rnd, FIELDS, 2)
            parts[i], parts[j] = parts[j], parts[i]
        if rnd.random() < 0.2:
            r = rnd.choice(hs)
        if rnd.random() < 0.2:
            s = rnd.choice(hs)
        d.dec(r, s, parts)
    for g in ("", "7b7d", "6e756c6c", "5b5d", "61", "ff"):
        d.do({"op": "kgarbage", "h": rnd.choice(hs), "fromh": rnd.choice(hs), "raw_": lit(g)})
    return d.trace


def flipped(rnd):
    """One bit of one field, every field, from end to end."""
    d = KDriver(rnd)
    d.knew("a", "base")
    d.knew("b", rnd.choice(["base", "enc"]))
    m = data(rnd)
    x = d.enc("a", "b", lit(m))
    if not x:
        return d.trace
    d.dec("b", "a", x)
    for f in FIELDS:
        n = len(d.res[x].get(f, "")) // 2
        for i in sorted({0, 1, 2, 3, n - 1, n - 2, n - 3, *[rnd.randrange(max(1, n)) for _ in range(12)]}):
            if 0 <= i < n:
                d.dec("b", "a", dict(whole(x), **{f: dict(of(x, f), do=[["flip", 8 * i + rnd.randrange(8)]])}))
        for do in (["cut", 1], ["head", 1], ["add", "00"], ["front", "00"], ["zero", 0], ["rev", 0], ["cut", 10000]):
            d.dec("b", "a", dict(whole(x), **{f: dict(of(x, f), do=[do])}))
        d.dec("b", "a", dict(whole(x), **{f: halved(rnd, of(x, f))}))
        d.dec("b", "a", {k: v for k, v in whole(x).items() if k != f})
    return d.trace


ENDS = (["cut", 1], ["head", 1], ["add", "00"], ["front", "00"])


def rare(rnd, what, tries):
    """Of many signatures or envelopes only those that begin or end with a zero byte somewhere, and their alterations."""
    d = KDriver(rnd)
    d.knew("a", "base")
    d.knew("b", "auth" if what == "sign" else "enc" if what == "enc" else "base")
    found = 0
    for i in range(tries):
        m = lit(rhex(rnd, rnd.choice([0, 1, 8, 33])))
        kept = len(d.trace)
        if what == "sign":
            x = d.sign("a", m)
            if x:
                d.verify("b", m, of(x, "sig"), "a")
            fields, fine = ["sig"], x and d.trace[-1]["out"] == {"ok": True, "v": True}
        elif what == "enc":
            x = d.enc("a", "b", m)
            if x:
                d.dec("b", "a", x)
            fields, fine = FIELDS, x and d.trace[-1]["out"] == {"ok": True, "v": m["hex"]}
        else:
            x, w = d.fresh("b"), rnd.choice(["", "word", "\u4e2d"])
            d.do({"op": "pwenc", "data_": m, "pass": w, "b": x})
            if x in d.res:
                d.do({"op": "pwdec", "blob_": of(x, "blob"), "pass": w})
            fields, fine = ["blob"], x in d.res and d.trace[-1]["out"] == {"ok": True, "v": m["hex"]}
        if not fine:
            break
        some = [f for f in fields if d.res[x][f][:2] == "00" or d.res[x][f][-2:] == "00"]
        if what == "word" and d.res[x]["blob"][32:34] == "00":
            some = ["blob"]
        if not some:
            del d.trace[kept:]
            continue
        found += 1
        for f in some:
            for do in ENDS:
                changed = dict(of(x, f), do=[do])
                if what == "sign":
                    d.verify("b", m, changed, "a")
                elif what == "enc":
                    d.dec("b", "a", dict(whole(x), **{f: changed}))
                else:
                    d.do({"op": "pwdec", "blob_": changed, "pass": w})
        if found > 8:
            break
    return d.trace


# -- C22 -------------------------------------------------------------------
def others(d, h):
    """Every operation of the other kind, with all sorts of arguments."""
    rnd = d.rnd
    some = [x for x in sorted(d.h) if d.h[x] is not None]
    m = [lit(data(rnd)), lit(""), {"other": rnd.choice(["None", "str", "int", "bytearray", "list", "Obj"])}]
    res = [of(x, f) for x in d.res for f in d.res[x] if f in ("sig", "raw")]
    pub = [{"pub": rnd.choice(some)}, {"pub": h}, {"other": "None"}, lit("")]
    if d.kind[h] == "auth":
        for what in ("encrypt", "decrypt"):
            for _ in range(2):
                args = [rnd.choice(m + res * 2), rnd.choice(pub + pub[:2] * 2)]
                d.do({"op": "kother", "h": h, "what": what, "args": args})
        d.do({"op": "kother", "h": h, "what": "encrypt", "args": [m[0], pub[0]]})
    elif d.kind[h] == "enc":
        for _ in range(2):
            d.do({"op": "kother", "h": h, "what": "sign", "args": [rnd.choice(m + res)]})
            args = [rnd.choice(m), rnd.choice(m + res * 2)] + ([rnd.choice(pub)] if rnd.random() < 0.7 else [])
            d.do({"op": "kother", "h": h, "what": "signature_valid", "args": args})
        d.do({"op": "kother", "h": h, "what": "sign", "args": [m[0]]})


def does(d, h, base, m=None):
    """Everything a pair can do, with a base pair as its partner."""
    m = lit(data(d.rnd)) if m is None else m
    k = d.kind[h]
    if k in ("base", "auth"):
        s = d.sign(h, m)
        if s:
            d.verify(h, m, of(s, "sig"))
            d.verify(base, m, of(s, "sig"), h)
            d.verify(h, dict(m, do=[["add", "00"]]), of(s, "sig"))
        s = d.sign(base, m)
        if s:
            d.verify(h, m, of(s, "sig"), base)
            d.verify(h, m, of(s, "sig"))
    if k in ("base", "enc"):
        x = d.enc(h, base, m)
        if x:
            d.dec(base, h, x)
            d.dec(base, base, x)
        x = d.enc(base, h, m)
        if x:
            d.dec(h, base, x)
            d.dec(h, h, x)


def mine(rnd):
    """Now and then a class of the user."""
    return {"mine": True} if rnd.random() < 0.25 else {}


def kinds(rnd):
    d = KDriver(rnd)
    d.knew("base", "base")
    hs = []
    for i, k in enumerate(few(rnd, ["auth", "enc", rnd.choice(["auth", "enc"])], 3)):
        d.knew("k%d" % i, k, fresh=i == 0 and rnd.random() < 0.3, **mine(rnd))
        hs.append("k%d" % i)
    for h in hs:
        does(d, h, "base")
        others(d, h)
    for n in range(3):
        h = rnd.choice(hs)
        f = rnd.randrange(4)
        if f == 0:
            d.do({"op": "kname", "h": h, "name": naming(rnd)[0]})
        elif f == 1 and d.trace[[e.get("h") for e in d.trace].index(h)].get("slot") is None:
            d.do({"op": "kregen", "h": h})
        else:
            form, x, g = rnd.choice(["file", "string"]), "x%d" % n, "l%d" % n
            d.save(h, x, "word", form)
            if d.load(g, x, "word", form, d.kind[h], **mine(rnd)):
                hs.append(g)
                h = g
        does(d, h, "base")
        others(d, h)
    for a in hs:  # envelopes and signatures among them
        b = rnd.choice(hs)
        if d.kind[a] == "enc" and d.kind[b] == "enc":
            x = d.enc(a, b, lit(data(rnd)))
            if x:
                d.dec(b, a, x)
        if d.kind[a] == "auth" and d.kind[b] == "auth":
            m = lit(data(rnd))
            s = d.sign(a, m)
            if s:
                d.verify(b, m, of(s, "sig"), a)
    return d.trace


# -- C23 -------------------------------------------------------------------
NAMES = ["", "a", "my key", "\u00e9\u00df", "\u4e2d\u6587", "\U0001f511", '"quoted"', "a\nb", "\\", "null", "x" * 300, "\u0000", "{}", " ",
         "a\ud800", "\udce9"]


def naming(rnd, n=1):
    """n names, some of them words of the code."""
    return [w if rnd.random() < 0.6 else words.word(rnd) for w in few(rnd, NAMES, n)]


def passing(rnd, some, n=1):
    """n different passwords, some of them words of the code."""
    out = []
    while len(out) < n:
        w = rnd.choice(some) if rnd.random() < 0.7 else words.word(rnd)
        if w not in out and w and "\0" not in w:
            out.append(w)
    return out


WORDS = ["word", "Word", "word ", " word", "wor", "wordword", "drow", "\u00e9", "e\u0301"[0], "x" * 100, "x" * 101, "0", "null",
         "\n", '"', "p\u00e4ss", "\u00ff", "12345678", "123456789", "\t"]


def others_of(rnd, word):
    out = {word + "x", word + " ", " " + word, word.upper(), word.lower(), word[:-1], word[1:], word + word, word[::-1],
           "\u0000" + word, "", rnd.choice(WORDS)}
    out.discard(word)
    return sorted(out)


def saved(rnd):
    d = KDriver(rnd)
    kind = rnd.choice(["base", "base", "auth", "enc"])
    d.knew("base", "base")
    d.knew("p", kind, naming(rnd)[0] if rnd.random() < 0.7 else None, fresh=rnd.random() < 0.15)
    slots = {}
    for i in range(4):
        h = rnd.choice(sorted(g for g in d.h if g != "base"))
        form = rnd.choice(["file", "string"])
        x = "x%d" % i if form == "string" or rnd.random() < 0.6 else "same"
        word = passing(rnd, WORDS)[0]
        d.save(h, x, word, form)
        slots[x] = (word, form, d.kind[h])
        if rnd.random() < 0.4:
            d.do({"op": "kname", "h": h, "name": naming(rnd)[0]})
        if rnd.random() < 0.4:  # a save over it that is refused
            how = rnd.choice([{"odd": "bytes"}, {"odd": "set"}, {"word": "\u4e2d"}])
            d.save(h, x, how.pop("word", word), form, exotic=True, **how)
            if d.trace[-1]["out"]["ok"]:
                d.save(h, x, word, form)
        y = x if rnd.random() < 0.7 else rnd.choice(sorted(slots))
        word, form, k = slots[y]
        for w in few(rnd, others_of(rnd, word), 3):
            d.load("q%d" % i, y, w, form, k)
        if d.load("q%d" % i, y, word, form, k):
            does(d, "q%d" % i, "base")
            m = lit(data(rnd))
            if k != "enc":  # each verifies what the other signs
                for a, b in (("p", "q%d" % i), ("q%d" % i, "p")):
                    s = d.sign(a, m)
                    if s:
                        d.verify(b, m, of(s, "sig"))
            if k != "auth":
                z = d.enc("base", "p", m)
                if z:
                    d.dec("q%d" % i, "base", z)
            if rnd.random() < 0.5:
                d.do({"op": "keq", "h": "p", "h2": "q%d" % i})
    for k in ("file", "string"):
        d.load("none", "never", "word", k, kind)
    for i, word in enumerate(["\u4e2d", "\U0001f511", ""]):
        d.save("p", "odd%d" % i, word, "string", exotic=True)
        if d.trace[-1]["out"]["ok"]:
            for w in (word, "?", ""):
                d.load("odd", "odd%d" % i, w, "string", kind)
    return d.trace


def nulword(rnd):
    """A known finding: NUL characters at the end of a passphrase do not count."""
    d = KDriver(rnd)
    d.knew("p", "base")
    for i, (a, b) in enumerate([("word", "word\u0000"), ("word\u0000", "word")]):
        d.save("p", "x%d" % i, a, "string")
        d.load("q%d" % i, "x%d" % i, b, "string", "base")
    return d.trace


# -- C24 -------------------------------------------------------------------
PASSWORDS = ["", "a", "password", "Password", "password ", " ", "\u00e9", "e\u0301", "\u4e2d", "\U0001f511", "0", "x" * 64,
             "x" * 65, "\u0000", "a\u0000", "a" * 1000]


def passwords(rnd):
    d = KDriver(rnd)
    made = []
    texts = [data(rnd) for _ in range(2)] + [rnd.choice(["", "00" * 16, "ab" * 1000])]
    pws = few(rnd, PASSWORDS, 2) + passing(rnd, PASSWORDS, 1) + [rnd.choice(["", "\u00e9"])]
    pws.append(pws[0] + rnd.choice(["x", "\u0000", " "]))
    for i in range(5):
        m, w = (texts[0], pws[0]) if i < 2 else (rnd.choice(texts), rnd.choice(pws))
        b = d.fresh("b")
        d.do({"op": "pwenc", "data_": lit(m), "pass": w, "b": b})
        if b in d.res:
            made.append((b, m, w))
            d.do({"op": "pwdec", "blob_": of(b, "blob"), "pass": w})
    for _ in range(60):
        if not made:
            break
        b, m, w = rnd.choice(made)
        blob, n = of(b, "blob"), len(d.res[b]["blob"]) // 2
        f = rnd.randrange(8)
        if f < 2:
            w = rnd.choice(pws + others_of(rnd, w))
        elif f < 5:
            blob = alter(rnd, blob, n)
        elif f == 5:
            blob = dict(blob, do=[["take", rnd.randrange(n + 1)]])
        elif f == 6:  # parts of several
            cut = [dict(of(rnd.choice(made)[0], "blob"), do=do) for do in
                   ([["take", 16]], [["take", 32], ["head", 16]], [["head", 32]])]
            blob = {"cat": cut}
        else:
            blob = rnd.choice([lit(""), lit("00" * 32), lit("00" * 16), lit(m), {"cat": [blob, blob]},
                               dict(blob, do=[["head", 16]]), dict(blob, do=[["rev", 0]])])
        d.do({"op": "pwdec", "blob_": blob, "pass": w})
    b, m, w = made[0] if made else (None, "", "")
    if b:
        for i in range(0, len(d.res[b]["blob"]) // 2, max(1, len(d.res[b]["blob"]) // 160)):
            d.do({"op": "pwdec", "blob_": dict(of(b, "blob"), do=[["flip", 8 * i + rnd.randrange(8)]]), "pass": w})
    return d.trace


def longpasswords(rnd):
    """Long data comes back whole, and not when a byte of it was changed anywhere."""
    d = KDriver(rnd)
    for w in few(rnd, PASSWORDS, 2):
        m, n = longdata(rnd)
        b = d.fresh("b")
        d.do({"op": "pwenc", "data_": m, "pass": w, "b": b})
        if b in d.res:
            blob = of(b, "blob")
            d.do({"op": "pwdec", "blob_": blob, "pass": w})
            for i in places(rnd, len(d.res[b]["blob"]) // 2):
                d.do({"op": "pwdec", "blob_": dict(blob, do=[["flip", 8 * i + rnd.randrange(8)]]), "pass": w})
            for do in (["cut", 1], ["cut", rnd.choice(BLOCKS)], ["add", "00"], ["head", 1], ["take", rnd.choice([16, 32, 33, n])]):
                d.do({"op": "pwdec", "blob_": dict(blob, do=[do]), "pass": w})
            d.do({"op": "pwdec", "blob_": blob, "pass": w + "x"})
    return d.trace


# -- C25 -------------------------------------------------------------------
def kequal(rnd):
    d = KDriver(rnd)
    kind = rnd.choice(sorted(CLASSES))
    d.knew("a", kind, rnd.choice(["n", "m"]))
    d.knew("b", kind, rnd.choice(["n", "m"]))
    n = 0
    for _ in range(8):
        f = rnd.randrange(4)
        hs = sorted(d.h)
        h = rnd.choice(hs)
        if f < 2 and n < 2:
            n += 1
            form = rnd.choice(["file", "string"])
            d.save(h, "x%d" % n, "word", form)
            d.load("l%d" % n, "x%d" % n, "word", form, kind if rnd.random() < 0.7 else rnd.choice(sorted(CLASSES)))
        elif f == 2:
            d.do({"op": "kname", "h": h, "name": rnd.choice(["n", "m", "", "n ", " n", "N", "n\n", "n\0", "\u00f1", "n\u0303", "nn"])})
        elif len(hs) > 2:  # one key under two names that differ little
            form = rnd.choice(["file", "string"])
            d.save(h, "y", "word", form)
            if d.load("twin", "y", "word", form, kind):
                a = naming(rnd)[0] or "name"
                b = rnd.choice([a.swapcase(), a + " ", " " + a, a + "\0", a[:-1], a + a, a[::-1], unicodedata.normalize("NFD", a),
                                a + "\n", "x" + a[1:]])
                for h, a in ((h, a), ("twin", b)):
                    d.do({"op": "kname", "h": h, "name": a})
                d.do({"op": "keq", "h": h, "h2": "twin"})
                d.do({"op": "keq", "h": "twin", "h2": h})
        for _ in range(4):
            a, b = rnd.choice(hs), rnd.choice(hs)
            d.do({"op": "keq", "h": a, "h2": b})
        d.do({"op": "keqother", "h": h, "what": rnd.choice(["None", "int", "bytes", "str", "object", "hash", "tuple", "repr"])})
    return d.trace


def fullsize(rnd):
    """A pair as the constructor makes it."""
    d = KDriver(rnd)
    d.knew("base", "base")
    d.knew("p", rnd.choice(["auth", "enc", "base"]), rnd.choice([None, "n"]), full=True)
    does(d, "p", "base")
    others(d, "p")
    d.save("p", "x", "word", "string")
    if d.load("q", "x", "word", "string", d.kind["p"]):
        does(d, "q", "base")
        d.do({"op": "keq", "h": "p", "h2": "q"})
    return d.trace


# -- what TLC makes --------------------------------------------------------
def explore(module, universe):
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump([universe], f)
    try:
        code, out = tlc.run(module, env={"UNIVERSE": path}, timeout=600)
    finally:
        os.unlink(path)
    n = tlc.counts(out)
    if code != 0 or n is None:
        raise tlc.MachineryError("the model does not satisfy its properties:\n" + out[-3000:])
    return [json.loads(t) for k, t in tlc.printed(out) if k == "EDGE"], n


MOLE = "u3"


def deliveries(rnd, part):
    """Deliveries of MCKeys: part = (made, [delivery, ...])."""
    made, sent = part
    d = KDriver(rnd)
    for u in ("u1", "u2", MOLE):
        d.knew(u, "base" if u == MOLE else rnd.choice(["base", "enc"]))
    envs = {i: d.enc(e["from"], e["to"], lit(e["data"])) for i, e in enumerate(made, 1)}
    if None in envs.values():
        return d.trace
    junk = {f: [lit("00" * n), lit("11" * n), lit("")] for f, n in zip(FIELDS, (BITS // 8, 16, 16, 1, BITS // 8))}
    key = lambda i: "own" if i == 100 else envs[i]  # noqa: E731
    for s in sent:
        parts = {}
        for f, x in zip(FIELDS, (s["esk"], s["nonce"], s["tag"], s["text"], s["sig"])):
            if isinstance(x, dict) and x["w"] == "new":
                parts[f] = {"known": key(x["i"]), "to": x["to"]} if f == "enc_session_key" else {"tagfor": key(x["i"])}
            else:
                i = x["i"] if isinstance(x, dict) else x
                if i == 100:
                    parts[f] = {"signby": MOLE} if f == "signature" else {"own": True}
                elif i == 200:
                    parts[f] = lit("")
                else:
                    parts[f] = of(envs[i], f) if i else rnd.choice(junk[f])
        made_up = any({"known", "tagfor", "signby", "own"} & set(r) for r in parts.values())
        c = {"op": "kdec", "h": s["r"], "fromh": s["s"], "how": "made up by an insider" if made_up else "", "parts": parts}
        if made_up:
            c["mole"] = MOLE
        d.do(c)
    return d.trace


def seals(rnd, part):
    """Questions about signatures and encrypted texts."""
    (sigs, boxes), asked = part
    d = KDriver(rnd)
    for u in sorted({s["by"] for s in sigs} | {a["pub"] for a in asked if a["kind"] == "sig"}):
        d.knew(u, rnd.choice(["base", "auth"]))
    made = [d.sign(s["by"], lit(s["d"])) for s in sigs]
    boxed = []
    for b in boxes:
        boxed.append(d.fresh("b"))
        d.do({"op": "pwenc", "data_": lit(b["d"]), "pass": b["pass"], "b": boxed[-1]})
    if None in made or not all(b in d.res for b in boxed):
        return d.trace
    cut = [[["take", 16]], [["take", 32], ["head", 16]], [["head", 32]]]
    users = sorted(d.h)
    for a in asked:
        if a["kind"] == "sig":
            sig = of(made[a["sig"] - 1], "sig") if a["sig"] else rnd.choice([lit("00" * (BITS // 8)), lit("")])
            d.verify(rnd.choice(users), lit(a["d"]), sig, a["pub"])
        else:
            parts = [dict(of(boxed[i - 1], "blob"), do=c) if i else lit(rnd.choice(["00", "a5"]) * 16)
                     for i, c in zip(a["src"], cut)]
            d.do({"op": "pwdec", "blob_": {"cat": parts}, "pass": a["pass"]})
    return d.trace


def cover(rnd, edges, length):
    """Walks (lists of actions) from the start that take every transition."""
    key = lambda s: json.dumps(s, sort_keys=True)  # noqa: E731
    graph, start = {}, None
    for e in edges:
        graph.setdefault(key(e["a"]), []).append((e["act"], key(e["b"])))
        if start is None or (e["a"]["q"]["id"] == 0 and all(m["id"] == 0 for m in e["a"]["m"].values())
                             and e["a"]["p"]["id"] == 1 and e["act"] == ["name", "n2"]):
            start = key(e["a"])
    todo = {a: list(bs) for a, bs in graph.items()}
    for bs in todo.values():
        rnd.shuffle(bs)
    near = {a: sorted({b for _, b in bs}) for a, bs in graph.items()}
    left = sum(map(len, todo.values()))
    out = []
    while left:
        at, walk = start, []
        while left and len(walk) < length:
            if not todo.get(at):
                for b in walks.nearest(near, at, lambda x: todo.get(x)):
                    walk.append(next(act for act, t in graph[at] if t == b))
                    at = b
            act, at = todo[at].pop()
            left -= 1
            walk.append(act)
        out.append(walk)
    return out


def savedwalk(rnd, part):
    """A walk of MCSaved: renaming, generating again, saving, loading."""
    walk, ask = part
    d = KDriver(rnd)
    kind = rnd.choice(["base", "base", "auth", "enc"])
    d.knew("base", "base")
    names = dict(zip(("n1", "n2"), naming(rnd, 2)))
    words = dict(zip(("a", "b"), passing(rnd, WORDS, 2)))
    form = rnd.choice(["file", "file", "string"])
    d.knew("p", kind, names["n1"], fresh=any(a[0] == "regen" for a in walk))
    n = 0
    for act in walk:
        if act[0] == "name":
            d.do({"op": "kname", "h": "p", "name": names[act[1]]})
        elif act[0] == "regen":
            d.do({"op": "kregen", "h": "p"})
        elif act[0] == "save":
            h = act[1]
            if h == "q":
                h = next((x for x in ("q%d" % i for i in range(n, 0, -1)) if x in d.h), None)
            if h:
                d.save(h, act[2], words[act[3]], form)
        else:
            n += 1
            h = "q%d" % n
            if d.load(h, act[1], words[act[2]], form, kind):
                if ask == "kinds":
                    others(d, h)
                if rnd.random() < (0.3 if ask == "saved" else 0.6):
                    does(d, h, "base")
                d.do({"op": "keq", "h": "p", "h2": h})
    return d.trace


WALKS = {"deliveries": deliveries, "seals": seals, "savedwalk": savedwalk}


def walk(rnd, part, name):
    return WALKS[name](rnd, part)


def plan(rnd, prop, tier):
    """(models, [(walk, part), ...])"""
    models, parts = [], []
    deep = tier != "quick"
    if prop == "C21":
        users, texts = ["u1", "u2", MOLE], ["", "6162636465"]
        some = [[{"from": "u1", "to": "u2", "data": texts[1]}, {"from": "u1", "to": "u2", "data": ""}],
                [{"from": "u1", "to": MOLE, "data": texts[1]}, {"from": "u1", "to": "u2", "data": texts[1]}]]
        for _ in range(12 if deep else 2):
            some.append([{"from": rnd.choice(users), "to": rnd.choice(users), "data": rnd.choice(texts)} for _ in range(2)])
        edges, n = explore("MCKeys", {"users": users, "mole": MOLE, "bound": True, "data": texts, "max": 2, "chosen": some,
                                      "only": not deep})
        models.append(dict(n, module="MCKeys"))
        groups = {}
        for e in edges:
            if not e["mine"]:
                groups.setdefault(json.dumps(e["made"]), ([], []))[0 if e["near"] else 1].append(e["sent"])
        for k, (near, far) in sorted(groups.items()):
            sent = near + few(rnd, far, min(len(far), 6000 if deep else 1200))
            rnd.shuffle(sent)
            parts += [("deliveries", (json.loads(k), sent[i:i + 150])) for i in range(0, len(sent), 150)]
    if prop in ("C20", "C24"):
        users, texts, words = ["u1", "u2"], ["", "61"], ["", "a"]
        some = [{"sigs": [{"by": rnd.choice(users), "d": rnd.choice(texts)} for _ in range(2)],
                 "boxes": [{"pass": rnd.choice(words), "d": rnd.choice(texts)} for _ in range(2)]}
                for _ in range(40 if deep else 12)]
        edges, n = explore("MCSeals", {"users": users, "data": texts, "passes": words, "sigs": 2, "boxes": 2, "chosen": some})
        models.append(dict(n, module="MCSeals"))
        groups = {}
        for e in edges:
            if e["ask"]["kind"] == ("sig" if prop == "C20" else "box"):
                groups.setdefault(json.dumps([e["sigs"], e["boxes"]]), []).append(e["ask"])
        for k, asked in sorted(groups.items()):
            rnd.shuffle(asked)
            parts.append(("seals", (json.loads(k), asked)))
    if prop in ("C22", "C23"):
        u = {"names": ["n1", "n2"], "passes": ["a", "b"], "slots": ["x1", "x2"] if deep else ["x1"], "edges": True}
        edges, n = explore("MCSaved", u)
        models.append(dict(n, module="MCSaved"))
        paths = cover(rnd, edges, 25)
        most = 600 if deep else 80
        if len(paths) > most:
            paths = few(rnd, paths, most)
        parts += [("savedwalk", (p, "kinds" if prop == "C22" else "saved")) for p in paths]
    return models, parts
