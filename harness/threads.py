"""Several threads at once: which of them runs is decided at every line of the code
under test (or every instruction, or every access to a storage), by a random generator
or by a behaviour of spec/MCThreads.tla, so that an execution can be repeated.

Every thread runs a driver and records its own trace, which has to be valid by itself.
"""
import json
import os
import random
import sys
import tempfile
import threading
import time
import traceback

import pymt

import drivers
import helpers
import keys
import merkle
import paths
import tlc
from drivers import Driver, keypool, neighbours, pick
from merkle import HOW, MDriver, leafpool
from words import few
from world import Abort, OpTimeout, Store

CODE = os.path.dirname(pymt.__file__) + os.sep
LIMIT = 300  # seconds


class Baton:
    """Lets one of several threads run at a time."""

    def __init__(self, rnd, rate=0.0, fine=False, turns=None):
        self.rnd, self.rate, self.fine = rnd, rate, fine
        self.turns = turns  # the order of the threads, access by access
        self.at = 0
        self.lock = threading.Condition()
        self.alive, self.holder = [], None
        self.ticks = self.switches = 0
        self.over = False
        self.done = threading.Event()
        self.here = threading.local()

    def run(self, jobs):
        """Runs the functions, each in its thread; returns their answers."""
        out = [None] * len(jobs)
        threads = [threading.Thread(target=self.body, args=(i, f, out), daemon=True) for i, f in enumerate(jobs)]
        self.alive = list(range(len(jobs)))
        self.holder = self.turns[0] if self.turns else self.rnd.randrange(len(jobs))
        for t in threads:
            t.start()
        seen, quiet, start = -1, 0, time.time()
        while quiet < 60 and time.time() - start < LIMIT and not self.done.wait(1):
            quiet = quiet + 1 if self.ticks == seen else 0
            if quiet:  # the one that may run waits for another, or computes long
                with self.lock:
                    if self.alive:
                        i = self.alive.index(self.holder) if self.holder in self.alive else 0
                        self.pass_on(self.alive[(i + 1) % len(self.alive)])
            seen = self.ticks
        self.over = not self.done.is_set()
        with self.lock:
            self.lock.notify_all()
        for t in threads:
            t.join(5)
        return out

    def body(self, i, f, out):
        self.here.nr = i
        try:
            with self.lock:
                self.wait(i)
            if self.traced(i):
                sys.settrace(self.enter)
            out[i] = f()
        except BaseException:
            out[i] = {"trace": [], "error": traceback.format_exc()}
        finally:
            sys.settrace(None)
            with self.lock:
                self.alive.remove(i)
                if self.alive and self.holder == i:
                    self.pass_on(self.rnd.choice(self.alive))
                if not self.alive:
                    self.done.set()

    def traced(self, i):
        return self.rate

    # -- deciding who runs -------------------------------------------------
    def wait(self, i):
        while self.holder != i and not self.over:
            self.lock.wait()
        if self.over:
            raise OpTimeout("the threads did not end")

    def pass_on(self, i):
        self.holder = i
        self.switches += 1
        self.lock.notify_all()

    def tick(self):
        i = self.here.nr
        self.ticks += 1
        if self.holder != i or self.over:
            with self.lock:
                self.wait(i)
        elif self.rnd.random() < self.rate:
            with self.lock:
                if len(self.alive) > 1:
                    self.pass_on(self.rnd.choice([j for j in self.alive if j != i]))
                    self.wait(i)

    def turn(self):
        """The next step of the thread; waits until it is its turn."""
        i = self.here.nr
        with self.lock:
            self.ticks += 1
            while not self.over:
                while self.at < len(self.turns) and self.turns[self.at] not in self.alive:
                    self.at += 1
                if self.at >= len(self.turns):  # the schedule is over: anything goes
                    if len(self.alive) > 1 and self.rnd.random() < 0.5:
                        self.pass_on(self.rnd.choice([j for j in self.alive if j != i]))
                        self.wait(i)
                    return
                if self.turns[self.at] == i:
                    self.at += 1
                    return
                self.pass_on(self.turns[self.at])
                self.wait(i)
        raise OpTimeout("the threads did not end")

    def enter(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CODE):
            return None
        if self.fine:
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
        self.tick()
        return self.line

    def line(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.tick()
        return self.line


class Cut(Baton):
    """The first thread is stopped at one of its steps until the second one has made all its calls."""

    def __init__(self, rnd, at, fine=False):
        super().__init__(rnd, fine=fine, turns=[0])
        self.cut, self.steps = at, 0

    def traced(self, i):
        return i == 0

    def tick(self):
        self.steps += 1
        self.ticks += 1
        if self.steps == self.cut:
            with self.lock:
                if 1 in self.alive:
                    self.pass_on(1)
                    self.wait(0)


class Shared(Store):
    """A storage whose accesses are steps of the schedule."""

    baton = None

    def __getitem__(self, key):
        if self.baton:
            self.baton.turn()
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        if self.baton:
            self.baton.turn()
        super().__setitem__(key, value)


def job(module, f, *args):
    """What one thread does: it runs a driver and closes it."""
    def g():
        drivers.HERE.driver = None
        drivers.HERE.among = True  # key pairs are not shared
        error = None
        try:
            trace = f(*args)
        except Abort as a:
            trace = a.trace
        except Exception:
            trace = drivers.HERE.driver.trace if drivers.HERE.driver else []
            error = traceback.format_exc()
        finally:
            if hasattr(drivers.HERE.driver, "close"):
                drivers.HERE.driver.close()
            drivers.HERE.among = False
        return {"module": module, "trace": trace, "error": error}

    return g


def run(rnd, jobs, alone, **how):
    if alone:
        return [f() for f in jobs]
    how = how or {"rate": rnd.choice([0.01, 0.03, 0.1, 0.3]), "fine": rnd.random() < 0.3}
    return Baton(rnd, **how).run(jobs)


# -- objects that share nothing -----------------------------------------------
TRIE = [("history", {}), ("history", {"kinds": ("empt",)}), ("twins", {}), ("shared", {}), ("reopened", {}), ("honest", {}),
        ("refusals", {}), ("restored", {}), ("mapping", {}), ("views", {}), ("rebuilt", {}), ("equal", {}), ("references", {}),
        ("secured", {}), ("stale", {}), ("nested", {})]
MERKLE = [("growing", {}), ("mhonest", {}), ("coded", {}), ("mapart", {}), ("mequal", {})]
KEYS = [("signing", {}), ("enveloped", {}), ("passwords", {}), ("saved", {}), ("kequal", {})]
HELPERS = [("sums", {}), ("ids", {}), ("shown", {}), ("validity", {})]
PATHS = [("pathwork", {}), ("near", {}), ("nodework", {})]
GROUPS = [("PymtTrace", drivers, TRIE), ("MerkleTrace", merkle, MERKLE), ("KeysTrace", keys, KEYS),
          ("HelpersTrace", helpers, HELPERS), ("PathsTrace", paths, PATHS)]


def apart(rnd, alone, group):
    """Objects of their own in every thread, of one kind or of several."""
    n = rnd.choice([2, 2, 3])
    same = rnd.random() < 0.7
    module, made, some = next(g for g in GROUPS if g[0].startswith(group))
    name, kw = rnd.choice(some)
    jobs = []
    for _ in range(n):
        seed = rnd.random()
        jobs.append(job(module, lambda f=getattr(made, name), seed=seed, kw=kw: f(random.Random(seed), **kw)))
        if not same:
            if module == "KeysTrace" or rnd.random() < 0.6:
                name, kw = rnd.choice(some)
            else:
                module, made, some = rnd.choice([g for g in GROUPS if g[0] != "KeysTrace"])
                name, kw = rnd.choice(some)
    if name == "ids" and same:
        rs = run(rnd, jobs, alone)
        return rs + [{"module": module, "trace": sum((r["trace"] for r in rs), []), "error": None}]
    return run(rnd, jobs, alone)


# -- one call in the middle of another ------------------------------------------
def one_trie(d, h, others, probes, pool, read):
    rnd = d.rnd
    drivers.HERE.driver = d
    d.n = 1000 * (1 + ord(h[0]))
    kind = d.kind[h]
    for _ in range(1 if rnd.random() < 0.6 else 2):
        f = rnd.randrange(6 if read else 8)
        k = rnd.choice(probes)
        if f < 2:
            way = "poi" if k in d.keys[h] else "poe"
            p = d.prove(h, k, way)
            if p:
                d.verify(h, p, way)
        elif f == 2 and kind != "sparse":
            d.do({"op": "ask", "h": h, "what": rnd.choice(["get", "item", "has", "in"]), "k": k})
        elif f == 3 and kind != "empt":
            d.codec(h)
        elif f == 3 and not d.crowded:
            d.view(h, rnd.choice(["sparse", "root"]))
        elif f == 4 and kind == "empt":
            d.do({"op": "mapview", "h": h, "first": 1})
        elif f == 4 and kind == "mpt":
            d.do({"op": "eq", "h": h, "h2": rnd.choice(others)})
        elif f == 5 and d.proofs:
            p = rnd.choice(sorted(d.proofs))
            d.verify(h, p, rnd.choice(["poi", "poe"]))
        elif not read:
            live = sorted(d.keys[h])
            if live and rnd.random() < 0.5:
                d.drop(h, rnd.choice(live))
            else:
                d.put(h, rnd.choice(pool))
    d.obs(h, few(rnd, probes, min(5, len(probes))), items=True)
    return d.trace


def cut_trie(rnd, mode):
    """Tries of their own, on storages of their own or on one, or one trie that is only read."""
    d = Driver(rnd)
    d.crowded = mode == "beside"
    kinds = ["mpt", "mpt", "empt", "sparse"]
    sec = rnd.random() < 0.2
    pool = keypool(rnd, rnd.choice([3, 4, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 3))
    hs = "a" if mode == "read" else "ab"
    for h in hs:
        d.new(h, rnd.choice(kinds), sec, "s" if mode == "beside" else None, "dict" if mode == "beside" else None)
    same = [(k, "b" + drivers.value(rnd)) for k in few(rnd, pool, rnd.randint(1, len(pool)))]
    for k, v in same:
        for h in hs:
            d.put(h, k, v if rnd.random() < 0.8 else None)
    k = rnd.choice(probes)
    for h in hs:
        d.prove(h, k, "poi" if k in d.keys[h] else "poe")
    jobs = []
    for h in (hs + hs)[:2]:
        c = clone(d, random.Random(rnd.random()))
        c.h = dict(d.h) if mode == "read" else {h: d.h[h]}
        jobs.append(job("PymtTrace", one_trie, c, h, [h], probes, pool, mode == "read"))
    return jobs


def one_tree(d, h, vs, read):
    rnd = d.rnd
    drivers.HERE.driver = d
    d.n = 1000 * (1 + ord(h[0]))
    for _ in range(1 if rnd.random() < 0.6 else 2):
        f = rnd.randrange(4 if read else 7)
        if f < 2:
            p = d.mpoi(h, rnd.choice(vs))
            if p:
                d.mverify(h, p)
        elif f == 2 and d.proofs:
            d.mcodec(rnd.choice(sorted(d.proofs)), rnd.choice(HOW))
        elif f > 3:
            if f > 4:
                d.mputs(h, [rnd.choice(vs) for _ in range(rnd.randint(1, 3))])
            d.mmake(h)
    d.mobs(h)
    return d.trace


def cut_tree(rnd, mode):
    d = MDriver(rnd)
    vs = leafpool(rnd, rnd.choice([1, 2, 3, 5, 8]))
    hs = "a" if mode == "read" else "ab"
    for h in hs:
        d.mnew(h, kind="tools" if rnd.random() < 0.25 else "tree")
        d.mputs(h, vs)
        d.mmake(h)
        d.mpoi(h, rnd.choice(vs))
    jobs = []
    for h in (hs + hs)[:2]:
        jobs.append(job("MerkleTrace", one_tree, clone(d, random.Random(rnd.random())), h, vs, mode == "read"))
    return jobs


def one_pair(d, f, h, g):
    rnd = d.rnd
    drivers.HERE.driver = d
    d.n = 1000 * (1 + ord(h[0]))
    m = keys.lit(keys.data(rnd))
    if f == "enc":
        x = d.enc(h, g, m)
        if x:
            d.dec(g, h, x)
    elif f == "sign":
        s = d.sign(h, m)
        if s:
            d.verify(h, m, keys.of(s, "sig"))
            d.verify(g, m, keys.of(s, "sig"), h)
    elif f == "word":
        word, b = keys.words.word(rnd), d.fresh("b")
        d.do({"op": "pwenc", "pass": word, "data_": m, "b": b})
        d.do({"op": "pwdec", "pass": word, "blob_": keys.of(b, "blob")})
    else:
        word = keys.words.word(rnd)
        d.save(h, "x" + h, word, f)
        d.load(h + "2", "x" + h, word, f, d.kind[h])
    return d.trace


def cut_pair(rnd, mode):
    d = keys.KDriver(rnd)
    kind = {"enc": ["base", "enc"], "sign": ["base", "auth"]}.get(mode, ["base", "auth", "enc"])
    for h in "abcd":
        d.knew(h, rnd.choice(kind))
    jobs = []
    for h, g in ("ab", "cd"):
        c = clone(d, random.Random(rnd.random()))
        jobs.append(job("KeysTrace", one_pair, c, mode, h, g))
    return jobs


def cut_any(rnd, mode):
    module, made, some = next(g for g in GROUPS if g[0].startswith(mode))
    name, kw = rnd.choice([x for x in some if x[0] not in ("ids", "validity")])
    return [job(module, lambda seed=seed: getattr(made, name)(random.Random(seed), **kw)) for seed in (rnd.random(), rnd.random())]


# at how many of the steps, where not at 80
MOST = {"any Paths": 30, "any Helpers": 30, "any Pymt": 30, "pair file": 25, "pair string": 25, "tree own": 50, "tree read": 50}


def cutin(rnd, alone, what):
    """The calls of one thread, all of them, at every step of the calls of another."""
    kind, mode, most = what
    seed, fine = rnd.random(), rnd.random() < 0.2
    made = {"trie": cut_trie, "tree": cut_tree, "pair": cut_pair, "any": cut_any}[kind]

    def run_at(n):
        r = random.Random(seed)
        jobs = made(r, mode)
        if alone and n:
            return [f() for f in jobs]
        b = Cut(r, n, fine)
        return b.run(jobs), b.steps

    _, steps = run_at(0)
    cuts = range(1, steps + 1) if steps <= most else sorted({int(steps * (i + rnd.random()) / most) + 1 for i in range(most)})
    out, seen = [], set()
    for n in cuts:
        rs = run_at(n)
        for r in rs if alone else rs[0]:
            shown = json.dumps(r["trace"])
            out.append({"module": r["module"], "trace": [], "error": r["error"]} if shown in seen and not alone else r)
            seen.add(shown)
    return out


# -- one object, read by all -----------------------------------------------
def clone(d, rnd):
    """A driver that knows the objects of another one."""
    c = type(d).__new__(type(d))
    for k, v in vars(d).items():
        setattr(c, k, dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)
    c.rnd = rnd
    rnd.mood = None
    return c


def read_trie(d, pool, probes):
    rnd = d.rnd
    drivers.HERE.driver = d
    mine = sorted(d.proofs)
    d.n = 100 * rnd.randrange(1, 100)
    for _ in range(rnd.randint(4, 9)):
        h = rnd.choice(sorted(d.h))
        kind = d.kind[h]
        f = rnd.randrange(8)
        k = rnd.choice(probes)
        if f < 3 or kind == "root":
            d.obs(h, few(rnd, probes, min(5, len(probes))), items=rnd.random() < 0.5)
        elif f == 3 and d.keys[h]:
            p = d.prove(h, rnd.choice(sorted(d.keys[h])), "poi")
            mine += [p] if p else []
        elif f == 4:
            p = d.prove(h, k, "poe")
            mine += [p] if p else []
        elif f == 5 and kind == "empt":
            d.view(h, rnd.choice(["sparse", "root"]))
        elif f == 5 and kind == "mpt":
            d.do({"op": "eq", "h": h, "h2": h})
        elif f == 6 and kind == "mpt":
            d.codec(h)
        elif f == 7 and kind in ("empt", "mpt"):
            d.do({"op": "ask", "h": h, "what": rnd.choice(["get", "item", "has", "in"]), "k": k})
        if mine and rnd.random() < 0.6:
            p = rnd.choice(mine)
            d.verify(h, p, rnd.choice(["poi", "poe"]))
    return d.trace


def readers(rnd, alone):
    """One trie with its views and proofs, read and proved from by every thread."""
    d = Driver(rnd)
    kind, sec = rnd.choice(["mpt", "mpt", "empt", "empt", "sparse"]), rnd.random() < 0.3
    pool = keypool(rnd, rnd.choice([3, 5, 8]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 4))
    d.new("a", kind, sec)
    for k in pool:
        d.put("a", k)
    for k in few(rnd, sorted(d.keys["a"]), rnd.randrange(len(d.keys["a"]))):
        if rnd.random() < 0.4:
            d.drop("a", k)
    if kind == "empt":
        for v in ("sparse", "root"):
            d.view("a", v)
    for k in few(rnd, probes, min(3, len(probes))):
        p = d.prove("a", k, "poi" if k in d.keys["a"] else "poe")
        if p:
            d.verify("a", p, rnd.choice(["poi", "poe"]))
    jobs = []
    for _ in range(rnd.choice([2, 3])):
        r = random.Random(rnd.random())
        jobs.append(job("PymtTrace", read_trie, clone(d, r), pool, probes))
    return run(rnd, jobs, alone)


def read_tree(d, vs):
    rnd = d.rnd
    drivers.HERE.driver = d
    d.n = 100 * rnd.randrange(1, 100)
    mine = sorted(d.proofs)
    for _ in range(rnd.randint(4, 9)):
        h = rnd.choice(sorted(d.h))
        f = rnd.randrange(4)
        if f == 0:
            d.mobs(h)
        elif f == 1:
            p = d.mpoi(h, rnd.choice(vs))
            mine += [p] if p else []
        elif mine:
            p = rnd.choice(mine)
            if f == 2:
                d.mcodec(p, rnd.choice(HOW))
            else:
                d.mverify(h, p)
    return d.trace


def treereaders(rnd, alone):
    """One Merkle tree that is made, and its proofs."""
    d = MDriver(rnd)
    d.mnew("a", kind="tools" if rnd.random() < 0.25 else "tree")
    vs = leafpool(rnd, rnd.choice([1, 2, 3, 5, 8, 13]))
    d.mputs("a", vs)
    d.mmake("a")
    d.mobs("a")
    for v in few(rnd, vs, min(3, len(vs))):
        p = d.mpoi("a", v)
        if p:
            d.mverify("a", p)
    jobs = [job("MerkleTrace", read_tree, clone(d, random.Random(rnd.random())), vs) for _ in range(rnd.choice([2, 3]))]
    return run(rnd, jobs, alone)


# -- tries of their own on one storage ---------------------------------------
def write_trie(d, h, pool, probes):
    rnd = d.rnd
    drivers.HERE.driver = d
    d.n = 100 * rnd.randrange(1, 100)
    d.obs(h, probes)
    for i in range(rnd.randint(5, 10)):
        d.step(h, pool, 0.75 if i < 4 else 0.4)
        f = rnd.randrange(4)
        if f == 0:
            k = rnd.choice(probes)
            kind = "poi" if k in d.keys[h] else "poe"
            p = d.prove(h, k, kind)
            if p:
                d.verify(h, p, kind)
        elif f < 3:
            d.obs(h, few(rnd, probes, min(4, len(probes))))
    d.obs(h, probes)
    return d.trace


def beside(rnd, alone):
    """Every thread writes a trie of its own; the nodes of all are in one storage."""
    n = rnd.choice([2, 2, 3])
    pool = keypool(rnd, rnd.choice([3, 4, 6]))
    probes = pick(rnd, pool, neighbours(rnd, pool, 3))
    d = Driver(rnd)
    d.crowded = True
    first = few(rnd, pool, rnd.randrange(len(pool)))
    same = [(k, "b" + drivers.value(rnd)) for k in first]
    for h in "abc"[:n]:
        kind = rnd.choice(["mpt", "mpt", "mpt", "empt", "sparse"])
        d.new(h, kind, rnd.random() < 0.2, "s", "dict")
    for h in "abc"[:n]:
        for k, v in same:
            d.put(h, k, v)
    jobs = [job("PymtTrace", write_trie, clone(d, random.Random(rnd.random())), h, pool, probes) for h in "abc"[:n]]
    return run(rnd, jobs, alone)


# -- behaviours of the model ----------------------------------------------
def follow(d, h, calls, probes, baton):
    drivers.HERE.driver = d
    for e in calls:
        if baton:
            baton.turn()
        if e["do"] == "put":
            d.put(h, e["k"], "b" + e["v"])
        elif e["do"] == "drop":
            d.drop(h, e["k"])
        else:
            has = d.kind[h] == "sparse" or d.rnd.random() < 0.2
            d.do({"op": "ask", "h": h, "what": d.rnd.choice(["has", "in"] if has else ["get", "item"]), "k": e["k"]})
    for s in d.stores.values():
        if isinstance(s, Shared):
            s.baton = None
    d.obs(h, probes)
    return d.trace


def scheduled(rnd, alone, uni, log):
    d = Driver(rnd)
    d.crowded = True
    d.stores["s"] = Shared()
    made = {}
    for i in uni["of"]:
        if i not in made:
            h = made[i] = "abc"[len(made)]
            d.new(h, rnd.choice(["mpt", "mpt", "mpt", "empt", "sparse"]), rnd.random() < 0.2, "s", "dict")
    for h in made.values():
        for k, v in uni["start"]:
            d.put(h, k, "b" + v)
    turns = [e["t"] - 1 for e in log]
    baton = None if alone else Baton(rnd, turns=turns)
    d.stores["s"].baton = baton
    jobs = []
    for t, i in enumerate(uni["of"]):
        calls = [e for e in log if e["t"] == t + 1 and e["do"] in ("put", "drop", "ask")]
        c = clone(d, random.Random(rnd.random()))
        jobs.append(job("PymtTrace", follow, c, made[i], calls, uni["keys"], baton))
    return [f() for f in jobs] if alone else baton.run(jobs)


# -- the plan ----------------------------------------------------------------
def universes(rnd, tier):
    out = []
    for of, writes in (([1, 2], [True, True]), ([1, 2, 2], [True, False, False]), ([1, 1, 1], [False] * 3)):
        ks = keypool(rnd, 6)[: 3 if of == [1, 2] else 2]
        vals = [rnd.choice(["31", "80", ""] if False else ["31", "80"]), rnd.choice("26af") * 2 * rnd.choice([20, 29, 32, 40])]
        start = [[k, rnd.choice(vals)] for k in few(rnd, ks, min(len(ks), rnd.choice([1, 2])))]
        out.append({"keys": ks, "vals": vals, "of": of, "writes": writes, "calls": 2 if tier == "quick" or len(of) > 2 else 3,
                    "start": start, "log": False})
    return out


def plan(rnd, tier, n=3):
    """(models, [(universe, log)])"""
    models, parts = [], []
    for logs in (False, True):
        us = universes(rnd, tier)
        for x in us:
            x["log"], x["calls"] = logs, 5 if logs else x["calls"]
        fd, path = tempfile.mkstemp(suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump(us, f)
        try:
            args = ["-simulate", f"num={n}", "-depth", "400", "-seed", str(rnd.randrange(10**6))] if logs else []
            code, out = tlc.run("MCThreads", cfg=f"{tlc.VERIF}/spec/MCThreads{'Logs' if logs else ''}.cfg",
                                env={"UNIVERSE": path}, timeout=800, args=args)
        finally:
            os.unlink(path)
        if code != 0:
            raise tlc.MachineryError("the model does not satisfy its properties:\n" + out[-3000:])
        if logs:
            for kind, text in tlc.printed(out):
                if kind == "LOG":
                    x = json.loads(text)
                    parts.append((us[x["u"] - 1], x["log"]))
        else:
            models.append(dict(tlc.counts(out), module="MCThreads", universes=len(us)))
    parts.sort(key=lambda x: json.dumps(x))
    return models, parts
