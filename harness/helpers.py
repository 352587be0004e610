"""Executes events of spec/Helpers.tla on the helpers of pymt; drivers for them.

The files and directories of an execution lie in a scratch directory of its own.
"""
import contextlib
import os
import random
import shutil
import tempfile
import time

from Crypto.PublicKey import ECC, RSA

from pymt import Proof
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.utils import Utils

import keys
import words
from bigkeys import BIG
from drivers import HERE, Driver
from words import few
from world import hexof

MADE = {}  # generated keys, by kind


def made(kind):
    if kind not in MADE:
        if kind == "rsa":
            MADE[kind] = RSA.generate(1024).export_key()
        elif kind in BIG:
            MADE[kind] = BIG[kind]
        elif kind == "dsa":
            MADE[kind] = ECC.generate(curve="Ed25519").export_key(format="PEM").encode()
        elif kind == "rsa 2048":
            MADE[kind] = Utils.generate_rsa_keypair()
        elif kind == "default":
            MADE[kind] = Utils.generate_ecc_key()
        else:
            MADE[kind] = Utils.generate_ecc_key(kind)
    return MADE[kind]


# form of a key -> (bytes, loads, private)
def form(kind, name, pick):
    raw = made(kind)
    if not kind.startswith("rsa"):
        k = ECC.import_key(raw)
        raw = {"as made": raw, "public": k.public_key().export_key(format="PEM").encode(),
               "der": bytes(k.export_key(format="DER")), "public der": bytes(k.public_key().export_key(format="DER")),
               "ssh": k.public_key().export_key(format="OpenSSH").encode()}[name]
        return raw, False, False
    k = RSA.import_key(raw)
    if name == "as made":
        return raw, True, True
    if name in ("der", "pkcs8"):
        return k.export_key("DER" if name == "der" else "PEM", pkcs=1 if name == "der" else 8), True, True
    if name == "locked":
        return k.export_key(passphrase="word"), False, False
    if name == "locked pkcs8":
        return k.export_key("DER", passphrase="word", pkcs=8), False, False
    pub = k.publickey()
    if name in ("public", "public der", "ssh"):
        return pub.export_key({"public": "PEM", "public der": "DER", "ssh": "OpenSSH"}[name]), True, False
    der, ssh = k.export_key("DER"), pub.export_key("OpenSSH")
    raw = {
        "nothing": b"", "cut": der[: pick % len(der)], "cut pem": raw[: pick % (len(raw) - 40)], "word": b"ssh-rsa",
        "ssh word": b"ssh-rsa ", "ssh short": b"ssh-rsa AAAA", "ssh cut": ssh[: 9 + pick % 60], "ssh junk": b"ssh-rsa !!!!",
        "text": b"key", "junk": bytes((pick * i) % 251 for i in range(1, 50)), "der junk": b"\x30\x03\x02\x01\x01",
    }[name]
    try:  # some damage leaves another key
        k = RSA.import_key(raw)
        return raw, True, k.has_private()
    except Exception:
        return raw, False, False


FORMS = {True: ["as made", "der", "pkcs8", "locked", "locked pkcs8", "public", "public der", "ssh", "nothing", "cut",
                "cut pem", "word", "ssh word", "ssh short", "ssh cut", "ssh junk", "text", "junk", "der junk"],
         False: ["as made", "public", "der", "public der", "ssh"]}


def digest(v, size):
    """The digest that a hexadecimal text or a digest stands for."""
    if len(v) == size:
        return hexof(v)
    text = v.decode()
    if len(text) != 2 * size or text != text.lower():
        raise ValueError("not a digest")
    return bytes.fromhex(text).hex()


SIZE = {"sha256": 32, "sha512": 64, "keccak": 32}
FIELDS = ["proof_type", "timestamp", "target_key", "root_hash", "proof"]


class HDriver(Driver):
    limit = 120

    def __init__(self, rnd):
        super().__init__(rnd)
        self.o, self.k = {}, {}
        self.dir = self.back = None

    # -- hashes ----------------------------------------------------------------
    def do_hsum(self, c, e):
        alg, how, hexd = c["alg"], c["how"], c["hexd"]
        same = {x: bytes.fromhex(x) for x in c["parts"]}  # equal parts are one object
        parts = [same[x] for x in c["parts"]]
        size = SIZE[alg]

        def f():
            if how == "list":
                v = keccak_hash_list(parts, hexdigest=True) if hexd else keccak_hash_list(parts)
            elif how == "bytes":
                v = keccak_hash(parts[0], hexdigest=True) if hexd else keccak_hash(parts[0])
            elif how == "default":
                v = Utils.hash_data(parts[0])
            elif how == "data":
                v = Utils.hash_data(parts[0], type=alg)
            else:
                v = getattr(Utils, alg)(parts[0])
            if len(v) != (2 * size if hexd else size):
                raise ValueError("not the form asked for")
            return v

        e["out"] = self.out(f, lambda v: {"v": digest(v, size)})

    def do_hstart(self, c, e):
        data = bytes.fromhex(c["data"])

        def f():
            self.o[c["r"]] = (Utils.hash_data(data, finalize=False, type=c["alg"]) if c["how"] == "data"
                              else getattr(Utils, c["alg"])(data, finalize=False))

        e["out"] = self.out(f)

    def do_hmore(self, c, e):
        e["out"] = self.out(lambda: self.o[c["r"]].update(bytes.fromhex(c["data"])))

    def do_hend(self, c, e):
        e["out"] = self.out(lambda: self.o[c["r"]].digest(), lambda v: {"v": hexof(v)})

    def do_hwrong(self, c, e):
        e["out"] = self.out(WRONG[c["why"]])

    # -- ids and times -----------------------------------------------------------
    def do_hid(self, c, e):
        def f():
            if c.get("seeded"):
                random.seed(c["seeded"])
            if c["form"] == "bytes":
                v = Utils.get_id().decode()
            else:
                v = Utils.get_id_string()
            int(v, 16)
            return v

        e["out"] = self.out(f, lambda v: {"v": v})

    def do_htime(self, c, e):
        e["lo"] = int(time.time()) - 1

        def f():
            if c["form"] == "datetime":
                return Utils.get_datetime_stamp()
            s = Utils.get_timestamp().decode() if c["form"] == "bytes" else Utils.get_timestamp_string()
            return Utils.from_timstamp_string(s)

        with clock(c.get("zone")):
            e["out"] = self.out(f, lambda v: {"v": int(v.timestamp())})
        e["hi"] = int(time.time()) + 1

    # -- keys ------------------------------------------------------------------
    def do_hkey(self, c, e):
        def f():
            raw, loads, priv = form(c["kind"], c["form"], c["pick"])
            self.k[c["r"]] = raw
            return loads, priv

        e["out"] = self.out(f, lambda v: {})
        if e["out"]["ok"]:
            e["loads"], e["priv"] = form(c["kind"], c["form"], c["pick"])[1:]
        else:
            e["loads"] = e["priv"] = False
            self.stop = True

    def do_hvalid(self, c, e):
        raw = self.k[c["k"]]

        def f():
            if c["plain"]:
                return Utils.rsa_key_valid(raw)
            if not c["raise"]:
                return Utils.rsa_key_valid(raw, c["type"])
            return Utils.rsa_key_valid(raw, key_type=c["type"], raise_exeptions=True)

        e["out"] = self.out(f, self.truth)

    # -- files -----------------------------------------------------------------
    def scratch(self):
        if self.dir is None:
            self.dir = os.path.realpath(tempfile.mkdtemp(prefix="pymt-files-"))
            self.back = os.getcwd()
            os.chdir(self.dir)
        return self.dir

    def close(self):
        if self.dir is not None:
            os.chdir(self.back)
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def do_hmake(self, c, e):
        p = self.scratch() + c["name"]
        if c["kind"] == "dir":
            os.mkdir(p)
        else:
            with open(p, "w"):
                pass

    def do_hremove(self, c, e):
        p = self.scratch() + c["name"]
        if os.path.isdir(p):
            shutil.rmtree(p)
        else:
            os.remove(p)

    def do_hgo(self, c, e):
        os.chdir(self.scratch() + c["name"])

    def do_hexists(self, c, e):
        top = self.scratch()
        via = c["via"] + "/.." * c["via"].count("/") if c.get("via") else ""  # there and back
        name = via + c.get("dots", "") + c["name"]
        name = {"absolute": top + name, "here": "." + name, "relative": name[1:]}[c["form"]]
        e["via"] = c.get("via", "")
        e["out"] = self.out(lambda: (Utils.file_exists if c["kind"] == "file" else Utils.dir_exists)(name), self.truth)

    # -- proof objects ------------------------------------------------------------
    def do_hproof(self, c, e):
        kind, target, root, steps = c["fields"]

        def f():
            p = Proof(bytes.fromhex(target), bytes.fromhex(root), tuple(
                tuple(map(bytes.fromhex, s)) if len(s) == 2 else bytes.fromhex(s[0]) for s in steps), kind.encode())
            self.o[c["r"]] = p
            return p

        e["out"] = self.out(f, lambda p: {"ts": p.timestamp.hex()})

    def do_hshow(self, c, e):
        p, how = self.o[c["r"]], c["how"]

        def f():
            if how == "attributes":
                d = dict(zip(FIELDS, (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)))
            elif how == "items":
                d = dict(p.items())
            elif how == "iteration":
                d = dict(list(p))
            else:
                d = {}
                for _ in range(2):  # every iteration starts anew
                    for k, v in p:
                        d[k] = v
                        if how == "broken off" and len(d) == 2:
                            break
                d = dict(p)
            if sorted(d) != sorted(FIELDS) or not isinstance(repr(p), str):
                raise ValueError("not the fields of a proof")
            return d

        def show(d):
            return {"ts": d["timestamp"].hex(), "fields": [
                d["proof_type"].decode(), d["target_key"].hex(), d["root_hash"].hex(),
                [[s.hex()] if isinstance(s, bytes) else [x.hex() for x in s] for s in d["proof"]]]}

        e["out"] = self.out(f, show)


WRONG = {
    "text to hash": lambda: Utils.hash_data("data"), "text for sha256": lambda: Utils.sha256("data"),
    "text for sha512": lambda: Utils.sha512("data"), "an unknown hash": lambda: Utils.hash_data(b"data", type="md5"),
    "no hash": lambda: Utils.hash_data(b"data", type=None), "text for Keccak": lambda: keccak_hash("data"),
    "a list of text for Keccak": lambda: keccak_hash_list([b"data", "data"]),
    "a file name of bytes": lambda: Utils.file_exists(b"/"), "a directory name of bytes": lambda: Utils.dir_exists(b"/"),
    "no file name": lambda: Utils.file_exists(None), "a text as a key": lambda: Utils.rsa_key_valid("key"),
    "an unknown kind of key": lambda: Utils.rsa_key_valid(b"key", "secret"),
    "a kind of key in bytes": lambda: Utils.rsa_key_valid(b"key", b"public"),
    "a number for a truth value": lambda: Utils.rsa_key_valid(b"key", "public", 1),
    "a target of text": lambda: Proof("t", b"r", (), b"MT-POI"), "a root of text": lambda: Proof(b"t", "r", (), b"MT-POI"),
    "steps in a list": lambda: Proof(b"t", b"r", [], b"MT-POI"), "a kind of proof as text": lambda: Proof(b"t", b"r", (), "MT-POI"),
    "an unknown kind of proof": lambda: Proof(b"t", b"r", (), b"POI"), "no kind of proof": lambda: Proof(b"t", b"r", (), b""),
}


def raw(rnd):
    n = rnd.choice([0, 1, 2, 31, 32, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 200, 272, rnd.randint(3, 900)])
    return bytes(rnd.randrange(256) for _ in range(n)).hex()


def sums(rnd):
    """Digests in every form, and hash objects that run beside each other."""
    d = HDriver(rnd)
    open_ = []
    for _ in range(rnd.randint(6, 16)):
        x = rnd.random()
        if x < 0.5:
            how = rnd.choice(["list", "list", "bytes", "default", "data", "own"])
            alg = "keccak" if how in ("list", "bytes") else "sha256" if how == "default" else rnd.choice(["sha256", "sha512"])
            parts = [raw(rnd) for _ in range(rnd.choice((0, 1, 2, 3, 5)))] if how == "list" else [raw(rnd)]
            if how == "list" and parts and rnd.random() < 0.5:
                parts = [rnd.choice(parts[:3]) for _ in range(rnd.choice((2, 3, 6, 17)))]
            d.do({"op": "hsum", "alg": alg, "how": how, "parts": parts, "hexd": alg != "keccak" or rnd.random() < 0.5})
        elif x < 0.65 or not open_:
            r = d.fresh("h")
            d.do({"op": "hstart", "r": r, "alg": rnd.choice(["sha256", "sha512"]), "data": raw(rnd), "how": rnd.choice(["data", "own"])})
            if r in d.o:
                open_.append(r)
        elif x < 0.85:
            d.do({"op": "hmore", "r": rnd.choice(open_), "data": raw(rnd)})
        else:
            d.do({"op": "hend", "r": open_.pop(rnd.randrange(len(open_)))})
    for r in open_:
        d.do({"op": "hend", "r": r})
    d.do({"op": "hwrong", "why": rnd.choice(sorted(WRONG))})
    return d.trace


ZONES = ["AAA0", "AAA-14", "AAA+11:30", "AAA-5:45", "AAA+6", "AAA-6", "AAA-12", "summer ends soon", "summer ended"]


@contextlib.contextmanager
def clock(zone):
    """Another time zone; the hour that summer time ends is there twice."""
    if zone is None:
        yield
        return
    if zone.startswith("summer"):
        at = time.gmtime(time.time() + 3600 + (600 if zone == "summer ends soon" else -600))
        zone = time.strftime("AAA0BBB-1,0/0,%%d/%H:%M:%S", at) % (at.tm_yday - 1)
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


@contextlib.contextmanager
def coarse(so=True):
    """A clock that shows sixteenths of a second."""
    old = time.time, time.time_ns
    if so:
        time.time = lambda: old[0]() // 0.0625 * 0.0625
        time.time_ns = lambda: old[1]() // 62500000 * 62500000
    try:
        yield
    finally:
        time.time, time.time_ns = old


def ids(rnd):
    """Ids and time stamps."""
    d = HDriver(rnd)
    seeded = rnd.choice([0, 0, 5])  # by another part of the program
    with coarse(rnd.random() < 0.4 and not getattr(HERE, "among", False)):
        for _ in range(60):
            d.do({"op": "hid", "form": rnd.choice(["bytes", "string"]), "seeded": seeded if rnd.random() < 0.3 else 0})
    for f in ("bytes", "string", "datetime"):
        d.do({"op": "htime", "form": f})
        if not getattr(HERE, "among", False):
            for zone in few(rnd, ZONES, 4):
                d.do({"op": "htime", "form": f, "zone": zone})
    for why in few(rnd, sorted(WRONG), 8):
        d.do({"op": "hwrong", "why": why})
    return d.trace


def validity(rnd):
    """Keys in every form, asked about in every way."""
    d = HDriver(rnd)
    for _ in range(6):
        kind = rnd.choice(["rsa"] * 10 + ["rsa 2048", "rsa 1536", "rsa 3072", "rsa 4096", "P-256", "P-384", "P-521", "default", "dsa"])
        k = d.fresh("k")
        d.do({"op": "hkey", "r": k, "kind": kind, "form": rnd.choice(FORMS[kind.startswith("rsa")]), "pick": rnd.randrange(10**6)})
        for type_ in ("public", "private"):
            for raises in (False, True):
                d.do({"op": "hvalid", "k": k, "type": type_, "raise": raises, "plain": False})
        d.do({"op": "hvalid", "k": k, "type": "public", "raise": False, "plain": True})
    return d.trace


def files(rnd):
    """Files and directories that come and go, from several working directories."""
    d = HDriver(rnd)
    d.do({"op": "hgo", "name": ""})
    have = {}
    names = ["/a", "/b", "/ab", "/c.txt", "/.d", "/e f", "/g ", "/g", "/~", "/$HOME", "/A", "/a.", "/*", "/\u00f1", "/n\u0303", "/a%20b",
             "/" + words.word(rnd).replace("/", "").strip(".") + "x"]
    at = ""
    for _ in range(rnd.randint(8, 16)):
        x = rnd.random()
        dirs = [n for n, k in have.items() if k == "dir"]
        if x < 0.5:
            name = rnd.choice([""] + dirs) + rnd.choice(names)
            if name not in have:
                have[name] = rnd.choice(["dir", "file"])
                d.do({"op": "hmake", "name": name, "kind": have[name]})
        elif x < 0.65 and have:
            name = rnd.choice(sorted(have))
            if not (at + "/").startswith(name + "/"):
                have = {n: k for n, k in have.items() if not (n + "/").startswith(name + "/")}
                d.do({"op": "hremove", "name": name})
        elif x < 0.8 and dirs:
            at = rnd.choice([""] + dirs)
            d.do({"op": "hgo", "name": at})
        for kind in ("file", "dir"):
            some = rnd.choice(sorted(have) + [n + rnd.choice([" ", "x", "\n", "\t"]) for n in sorted(have)] + [rnd.choice([""] + dirs) + rnd.choice(names)])
            d.do({"op": "hexists", "kind": kind, "form": "absolute", "name": some})
            below = [n[len(at):] for n in have if n.startswith(at + "/")]
            for f in ("here", "relative"):
                d.do({"op": "hexists", "kind": kind, "form": f, "name": rnd.choice(below + names)})
            over = {"via": rnd.choice(below + names)} if rnd.random() < 0.7 else {"dots": rnd.choice(["/.", "/", "/./."])}
            if not over.get("dots") == "/":
                d.do({"op": "hexists", "kind": kind, "form": "here", "name": rnd.choice(below + names[:3]), **over})
            over = {"via": rnd.choice(sorted(have) + names)} if rnd.random() < 0.7 else {"dots": rnd.choice(["/.", "/", "/./."])}
            d.do({"op": "hexists", "kind": kind, "form": "absolute", "name": some, **over})
    return d.trace


def shown(rnd):
    """Proof objects of all kinds, shown in every way, also in the middle of another showing."""
    d = HDriver(rnd)
    rs = []
    for _ in range(3):
        steps = [[raw(rnd)] if rnd.random() < 0.5 else [b"left".hex(), raw(rnd)] for _ in range(rnd.choice((0, 1, 2, 5)))]
        r = d.fresh("o")
        d.do({"op": "hproof", "r": r, "fields": [rnd.choice(["MPT-POI", "MPT-POE", "MT-POI"]), raw(rnd), raw(rnd), steps]})
        if r in d.o:
            rs.append(r)
    for _ in range(8):
        if rs:
            d.do({"op": "hshow", "r": rnd.choice(rs), "how": rnd.choice(["attributes", "items", "iteration", "iteration", "again", "broken off"])})
    return d.trace


FORMS_OF_NAMES = ("absolute", "here", "relative")


def trees(rnd, steps, name):
    """Transitions of MCHelpers: a directory tree is made, changed in one way and asked about."""
    d = HDriver(rnd)
    d.do({"op": "hgo", "name": ""})
    for s in steps:
        for n, kind in sorted(s["F"]):
            d.do({"op": "hmake", "name": n, "kind": kind})
        if s["at"]:
            d.do({"op": "hgo", "name": s["at"]})
        d.do(dict(s["act"]))
        for n in s["names"]:
            for kind in ("file", "dir"):
                for f in FORMS_OF_NAMES:
                    d.do({"op": "hexists", "kind": kind, "form": f, "name": n})
        d.do({"op": "hgo", "name": ""})
        for n in sorted(os.listdir(d.scratch())):
            d.do({"op": "hremove", "name": "/" + n})
    return d.trace


def running(rnd, steps, name):
    """Transitions of MCHelpers: running hash objects, one of them continued or ended."""
    d = HDriver(rnd)
    for s in steps:
        names = {}
        for r, alg, data in s["H"]:
            names[r] = d.fresh("h")
            d.do({"op": "hstart", "r": names[r], "alg": alg, "data": data[:1] and data[:2], "how": rnd.choice(["data", "own"])})
            if data[2:]:
                d.do({"op": "hmore", "r": names[r], "data": data[2:]})
        act = dict(s["act"])
        if act["op"] == "hstart":
            names[act["r"]] = d.fresh("h")
        act["r"] = names[act["r"]]
        d.do(act)
        for r in names.values():
            d.do({"op": "hend", "r": r})
    return d.trace


def walk(rnd, steps, name):
    return {"trees": trees, "running": running}[name](rnd, steps, name)


def plan(rnd, tier):
    """(models, parts): parts are (name, steps)"""
    models, parts = [], []
    for what, u in (("trees", {"names": ["/a", "/ab", "/b"], "below": ["/a", "/c"]}),
                    ("running", {"algs": ["sha256", "sha512"], "data": ["", "61", raw(rnd)], "deep": 3 if tier == "quick" else 4})):
        edges, n = keys.explore("MCHelpers", dict({"names": [], "below": [], "algs": [], "data": [], "deep": 4, "what": what}, **u))
        models.append(dict(n, module="MCHelpers", universes=1))
        rnd.shuffle(edges)
        edges = edges[:1500] if tier == "quick" else edges
        parts += [(what, edges[i:i + 15]) for i in range(0, len(edges), 15)]
    return models, parts
