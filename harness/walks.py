"""Walks along the state graph TLC explored, executed on the real tries.

TLC prints every transition between contents of a universe (MCTrieAlgo, Edges).  A
cover of these transitions by walks from the empty trie is executed; on every visit
of a content the style of the walk asks what its property is about.
"""
import json
import os
import tempfile

import tlc
from drivers import (HOWS, NULL, Driver, chain_in, chain_out, fuse, keccak, keypool, lackings, leafnode, mutate_bytes,
                     neighbours, question, refuse, value)
from words import few

LONG = {n: b.hex() * n for n, b in ((20, b"t"), (29, b"n"), (32, b"z"), (40, b"b"))}

# Universes with the shapes that matter: each key set makes TLC visit every
# arrangement of leaves, extensions and branches over it, inline and hashed.
FIXED = [
    (["", "01", "0110", "12"], ["31", LONG[32]], ["02", "0111", "10"]),
    (["646f", "646f67", "646f6765", "686f727365"], ["31", LONG[29]], ["6f", "64", "646f68"]),
    (["00", "0001", "01", "10"], ["61", LONG[40]], ["", "0000", "000100", "1000"]),
    (["abcdef", "abcd", "abce", "bb"], ["61", LONG[20]], ["ab", "abcdef00", "abcdee"]),
    (["aaaaaaaa", "aaaaaabb", "aaaabbbb", "bbbbbbbb"], ["32", LONG[32]], ["aaaaaaab", "aaaa", "aabbbbbb"]),
    (["10", "11", "12", "1f"], [LONG[29], LONG[40]], ["1e", "1000", ""]),
    (["", "00", "0000", "000000"], ["01", LONG[32]], ["00000000", "01", "0001"]),
    (["7f", "80", "8000", "7fff"], [NULL, LONG[29]], ["", "7f00", "ff"]),
]


def universe(keys, vals, probes, deep=True, hold=False, crash=False):
    return {"keys": keys, "vals": vals, "probes": probes, "deep": deep, "hold": hold, "crash": crash}


def fixed(i):
    return universe(*FIXED[i % len(FIXED)])


def random_universe(rnd, n=4):
    keys = keypool(rnd, n)
    a, b = value(rnd), value(rnd)
    while b == a:
        b = value(rnd)
    if rnd.random() < 0.5:
        a = rnd.choice(["31", "7f", "80"])
        b = LONG[rnd.choice(sorted(LONG))]
    return universe(keys, [a, b], neighbours(rnd, keys, 4))


def explore(universes, timeout=800, edges=True, module="MCTrieAlgo", node=None):
    """Model-checks the algorithms on these universes; returns (graphs, counts)."""
    node = node or content
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(universes, f)
    try:
        code, out = tlc.run(module, cfg=f"{tlc.VERIF}/spec/{module}{'Edges' if edges else ''}.cfg",
                            env={"UNIVERSE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    n = tlc.counts(out)
    if code != 0 or n is None:
        raise tlc.MachineryError("the model does not satisfy its properties:\n" + out[-3000:])
    graphs = [{} for _ in universes]
    for kind, text in tlc.printed(out):
        if kind == "EDGE":
            e = json.loads(text)
            a, b = node(e["a"]), node(e["b"])
            if a != b:
                graphs[e["u"] - 1].setdefault(a, set()).add(b)
    return [{a: sorted(bs) for a, bs in sorted(g.items())} for g in graphs], n


def content(f):
    return tuple(sorted(f.items())) if isinstance(f, dict) else ()


def cover(rnd, graph, length, start=()):
    """Walks from the start that take every transition at least once."""
    todo = {a: list(bs) for a, bs in graph.items()}
    for bs in todo.values():
        rnd.shuffle(bs)
    left = sum(map(len, todo.values()))
    walks = []
    while left:
        at, walk = start, [start]
        while left and len(walk) < length:
            if not todo.get(at):
                path = nearest(graph, at, lambda x: todo.get(x))
                walk += path
                at = walk[-1]
            at = todo[at].pop()
            left -= 1
            walk.append(at)
        walks.append(walk)
    return walks


def nearest(graph, start, good):
    back, queue = {start: None}, [start]
    for a in queue:
        if good(a):
            path = []
            while a != start:
                path.append(a)
                a = back[a]
            return path[::-1]
        for b in graph.get(a, ()):
            if b not in back:
                back[b] = a
                queue.append(b)
    raise AssertionError("not reachable")


# -- executing a walk ------------------------------------------------------
class Walk(Driver):
    def __init__(self, rnd, uni):
        super().__init__(rnd)
        self.u = uni
        self.probes = sorted(set(uni["keys"]) | set(uni["probes"]))
        self.hs = []  # the handles that follow the walk
        self.mem = {}

    def start(self, *kinds, how=None, secs=None):
        for i, kind in enumerate(kinds):
            h = "abcdef"[i]
            self.new(h, kind, self.mem["sec"] if secs is None else secs[i], how=how)
            self.hs.append(h)

    def kinds_of(self, h):
        return self.kind[h]

    def move(self, a, b, only=None):
        """The write or deletion that leads from content a to content b."""
        a, b = dict(a), dict(b)
        if self.mem.get("storm"):
            return self.storm(a, b)
        for h in only or self.hs:
            for k in sorted(set(a) | set(b)):
                key = keccak(k) if h in self.mem.get("hashed", ()) else k
                if k not in b:
                    self.drop(h, key)
                elif a.get(k) != b[k]:
                    self.put(h, key, "b" + b[k])

    def storm(self, a, b):
        """The same while the storage fails at every single access of the call."""
        rnd, h = self.rnd, self.hs[0]
        k = next(k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))
        c = {"op": "update", "h": h, "k": k, "v": "b" + b[k]} if k in b else {"op": "delete", "h": h, "k": k}
        f = dict(fuse(rnd), stay=rnd.random() < 0.3)
        f.pop("rw", None)
        f.pop("where", None)
        for n in range(1, 200):
            e = self.do(dict(c, fuse=dict(f, n=n)))
            self.obs(h, self.probes)
            if e["out"]["ok"] or not e["fired"]:
                break
            if self.kind[h] == "empt" and k not in b:  # the data may be gone already
                self.do({"op": "tamper", "h": h, "k": k, "v": "b" + a[k]})
        if k in b:
            self.keys[h].add(k)
        else:
            self.keys[h].discard(k)

    def ask(self, h, k):
        return "poi" if k in self.keys[h] else "poe"


def look(d, now, first):
    for h in d.hs:
        d.obs(h, d.probes)


def lookref(d, now, first):
    h = d.hs[0]
    d.obs(h, d.probes)
    if d.kind[h] == "empt" and now:
        for k, v in now:
            if d.rnd.random() < 0.5:
                d.do({"op": "tamper", "h": h, "k": k, "v": "b" + d.rnd.choice(d.u["vals"] + ["", v + "00"])})
        d.obs(h, d.probes)
        for k, v in now:
            d.do({"op": "tamper", "h": h, "k": k, "v": "b" + v})


def refused(d, now, first):
    h, rnd = rnd_h(d), d.rnd
    absent = [k for k in d.probes if k not in d.keys[h]]
    present = sorted(d.keys[h])
    for k in absent if first else few(rnd, absent, min(1, len(absent))):
        d.do({"op": rnd.choice(["delete", "delitem"]), "h": h, "k": k})
        d.prove(h, k, "poi")
    for k in present if first else present[:1]:
        d.prove(h, k, "poe")
    if d.kind[h] != "mpt":
        refuse(d, h, rnd.choice(d.probes))
    else:
        d.do({"op": "refuse", "h": h, "what": "update value", "arg": rnd.choice(["str", "int", "none", "list"]),
              "k": rnd.choice(d.probes)})
    for g in d.hs + ["z"]:
        d.obs(g, d.probes)


def rnd_h(d):
    return d.rnd.choice(d.hs)


def olds(d, now, first):
    rnd, snaps = d.rnd, d.mem.setdefault("snaps", [])
    h = d.hs[0]
    snaps.append((d.snap(h), set(d.keys[h])))
    for x, ks in few(rnd, snaps, min(2, len(snaps))):
        o = d.open(x, "mpt", d.mem["sec"], "s_a", ks)
        d.obs(o, d.probes)
        if rnd.random() < 0.3:
            d.step(o, d.u["keys"], 0.5)
            d.obs(o, d.probes)
    d.obs(h, d.probes)


def completeness(kind):
    def visit(d, now, first):
        if not now or not first:
            return
        h = d.hs[0]
        vs = [h]
        k0 = d.kind[h]
        if k0 == "mpt" or k0 == "sparse":
            vs.append(d.codec(h))
        if k0 == "empt":
            vs.append(d.view(h, "sparse"))
        if k0 != "mpt":
            vs.append(d.view(h, "root"))
        vs.append(d.open(d.snap(h), "root", d.mem["sec"], "none", d.keys[h]))
        vs = [v for v in vs if v]
        for k in d.probes:
            if d.ask(h, k) == kind:
                p = d.prove(h, k, kind)
                if p:
                    for v in vs:
                        d.verify(v, p, kind)
    return visit


def soundness(kind):
    typ = {"poi": "MPT-POI", "poe": "MPT-POE"}[kind]

    def visit(d, now, first):
        if not now or not first:
            return
        h, rnd = d.hs[0], d.rnd
        outs = []
        for k in d.probes:
            for kk in ("poi", "poe"):
                p = d.fresh("p")
                d.do({"op": kk, "h": h, "k": k, "p": p})
                o = d.trace[-1]["out"]
                if o["ok"] and o["nodes"]:
                    outs.append((kk, o))
        if not outs:
            return
        x = d.snap(h)
        root = d.roots[x].hex() if d.roots[x] else ""

        def attempt(target, nodes, claimed=root, t=typ):
            f = d.fresh("f")
            tail = [leafnode(target, NULL)] if kind == "poe" else []
            d.do({"op": "forge", "type": t, "target": target, "root": claimed, "nodes": nodes + tail, "p": f})
            d.verify(h, f, kind)

        paths = {}
        for kk, o in outs:
            paths[o["target"]] = o["nodes"][:-1] if kk == "poe" else o["nodes"]
        first_node = next(iter(paths.values()))[:1]
        every = first_node + sorted({n for ns in paths.values() for n in ns} - set(first_node))
        for target, nodes in sorted(paths.items()):
            attempt(target, every)
            attempt(target, nodes)
            for i in range(len(nodes)):  # each node taken out
                attempt(target, nodes[:i] + nodes[i + 1:])
            for i in range(len(nodes)):  # cut off
                attempt(target, nodes[:i])
            for other in few(rnd, sorted(paths), min(2, len(paths))):
                attempt(other, nodes)
            if rnd.random() < 0.5:
                attempt(target, chain_in(rnd, target) if kind == "poi" else chain_out(rnd, target))
                attempt(target, nodes[:1] + (chain_in(rnd, target) if kind == "poi" else chain_out(rnd, target)))
            if nodes and rnd.random() < 0.5:
                i = rnd.randrange(len(nodes))
                attempt(target, nodes[:i] + [mutate_bytes(rnd, nodes[i])] + nodes[i + 1:])
            if rnd.random() < 0.3:
                attempt(target, nodes, claimed=keccak(root))
        for kk, o in outs[:4]:  # one kind presented as the other
            f = d.fresh("f")
            d.do({"op": "forge", "type": typ, "target": o["target"], "root": o["root"], "nodes": list(o["nodes"]), "p": f})
            d.verify(h, f, kind)
    return visit


def bound(d, now, first):
    held = d.mem.setdefault("held", [])
    h, rnd = d.hs[0], d.rnd
    for p, kk in few(rnd, held, min(8, len(held))):
        d.verify(h, p, kk)
        if rnd.random() < 0.2:
            d.verify(h, p, "poe" if kk == "poi" else "poi")
    if now and rnd.random() < 0.5:
        for k in few(rnd, d.probes, 3):
            kk = d.ask(h, k)
            p = d.prove(h, k, kk)
            if p:
                held.append((p, kk))
                d.verify(h, p, kk)


def serial(d, now, first):
    h = d.hs[0]
    c = d.codec(h)
    if not c:
        return
    d.obs(c, d.probes)
    if now:
        k = d.rnd.choice(d.probes)
        p = d.prove(c, k, d.ask(h, k))
        if p:
            d.verify(h, p, d.ask(h, k))
            d.verify(c, p, d.ask(h, k))
    f = d.rnd.random()
    if f < 0.4:  # the copy changes, the original does not
        d.step(c, d.u["keys"], 0.5)
        d.obs(c, d.probes)
        d.obs(h, d.probes)
    elif f < 0.8:  # go on with the copy
        d.hs[0] = c


def items(d, now, first):
    rnd = d.rnd
    h = d.hs[0]
    d.obs(h, d.probes, items=True)
    d.do({"op": "mapview", "h": h, "first": rnd.randrange(3)})
    for k in few(rnd, d.probes, 2):
        f = rnd.randrange(4)
        if f == 0 and k in d.keys[h]:
            v = dict(now)[k]
            d.do({"op": "pop", "h": h, "k": k})
            d.obs(h, d.probes, items=True)
            d.do({"op": "setdefault", "h": h, "k": k, "v": "b" + v})
        elif f == 1:
            d.do({"op": "pop", "h": h, "k": k, "default": "n"})
            if k in dict(now):
                d.put(h, k, "b" + dict(now)[k])
        elif f == 2 and k in d.keys[h]:
            d.do({"op": "setdefault", "h": h, "k": k, "v": "b00"})
        elif f == 3 and first:
            for _ in range(len(d.keys[h]) + 1):
                d.do({"op": "popitem", "h": h})
            d.obs(h, d.probes, items=True)
            for kk, v in now:
                d.put(h, kk, "b" + v)
    d.obs(h, d.probes, items=True)


def altered(d, now, first):
    rnd, h = d.rnd, d.hs[0]
    data = dict(now)
    for k in sorted(data):
        v = data[k]
        forms = ["b" + v + "00", "b" + v[:-2], "b" + k + v, "a" + v, "b", "b" + d.u["vals"][0], "b" + d.u["vals"][1]]
        for x in forms if first else few(rnd, forms, 1):
            if x != "b" + v:
                d.do({"op": "tamper", "h": h, "k": k, "v": x})
                d.obs(h, d.probes if rnd.random() < 0.2 else [k] + few(rnd, d.probes, 2))
        if rnd.random() < 0.4:
            d.do({"op": "tamper", "h": h, "k": k})
            d.obs(h, [k])
        if rnd.random() < 0.3:  # the other value arrives in the data before it is written
            other = "b" + rnd.choice([x for x in d.u["vals"] if x != v])
            d.do({"op": "tamper", "h": h, "k": k, "v": other})
            d.put(h, k, other)
            d.obs(h, d.probes)
            d.put(h, k, "b" + v)
        d.do({"op": "tamper", "h": h, "k": k, "v": "b" + v})
    d.obs(h, d.probes)


def views(d, now, first):
    rnd = d.rnd
    full, sparse = d.hs[:2]
    for src, kind in ((full, "sparse"), (full, "root"), (sparse, "root")):
        if rnd.random() < 0.5:
            v = d.view(src, kind)
            if v:
                d.mem.setdefault("views", []).append(v)
    vs = d.mem.get("views", [])[-6:]
    if rnd.random() < 0.15:
        d.do({"op": "rebuild", "h": full})
    for v in d.hs + vs:
        d.obs(v, d.probes)
    if now:
        for k in few(rnd, d.probes, 2):
            makers = d.hs + [v for v in vs if d.kind[v] == "sparse" and d.keys[v]]
            m = rnd.choice(makers)
            p = d.prove(m, k, d.ask(m, k))
            if p:
                for v in d.hs + vs:
                    if d.keys[v]:
                        d.verify(v, p, d.ask(m, k))
    if vs and rnd.random() < 0.3:
        v = rnd.choice(vs)
        if d.kind[v] == "sparse":
            d.step(v, d.u["keys"], 0.5)


def rebuild(d, now, first):
    rnd, h = d.rnd, d.hs[0]
    g = d.fresh("n")
    d.do({"op": "adopt", "h": g, "sec": d.mem["sec"], "st": "s_" + g, "d": h, "how": rnd.choice(HOWS)})
    d.data[g] = d.data[h]
    d.keys[g] = set(d.keys[h])
    d.do({"op": "rebuild", "h": g})
    d.obs(g, d.probes, items=True)
    if now:
        k = rnd.choice(d.probes)
        p = d.prove(g, k, d.ask(h, k))
        if p:
            d.verify(h, p, d.ask(h, k))
    if rnd.random() < 0.5:
        d.do({"op": "rebuild", "h": h})
        d.obs(h, d.probes)
    if rnd.random() < 0.3:
        d.hs[0] = g


def others(d, now, first):
    look(d, now, first)
    for h in ("y", "z"):
        d.obs(h, d.probes)
    if d.rnd.random() < 0.2:
        d.step(d.rnd.choice("yz"), d.u["keys"])
    if d.rnd.random() < 0.1:
        g = d.fresh("n")
        d.new(g, d.rnd.choice(["empt", "sparse"]), False, how="default")
        d.obs(g, d.probes)


def same(d, now, first):
    rnd = d.rnd
    if "past" not in d.mem:
        d.mem["past"] = {}
    past = d.mem["past"]
    c = d.codec("a")
    if c:
        d.do({"op": "eq", "h": "a", "h2": c})
        for x in few(rnd, sorted(past), min(4, len(past))):
            d.do({"op": "eq", "h": "a" if rnd.random() < 0.5 else past[x], "h2": past[x] if rnd.random() < 0.5 else "a"})
        past[c] = c
    d.do({"op": "eq", "h": "a", "h2": "b"})


def hashed(d, now, first):
    d.obs("a", d.probes)
    d.obs("b", [keccak(k) for k in d.probes])
    d.do({"op": "eq", "h": "a", "h2": "b"})
    if now and first:
        for k in d.probes:
            kk = d.ask("a", k)
            for h, kx in (("a", k), ("b", keccak(k))):
                p = d.prove(h, kx, kk)
                if p:
                    d.verify("a", p, kk)
                    d.verify("b", p, kk)


def failing(d, now, first):
    d.obs(d.hs[0], d.probes)
    for _ in range(4 if first else 1):
        question(d, d.hs[0], d.probes)


def lacking(d, now, first):
    """Each node of the trie is missing once, and some of them together."""
    h, rnd = d.hs[0], d.rnd
    if not first or not now:
        return
    nodes = sorted(n.hex() for n in d.stores["s_a"].keys())
    x = d.snap(h)
    for gone in [[n] for n in nodes[-6:]] + [nodes, few(rnd, nodes, len(nodes) // 2)]:
        st = d.fresh("t")
        d.do({"op": "prune", "st": "s_a", "to": st, "nodes": gone})
        g = d.open(x, d.kind[h], d.mem["sec"], st, d.keys[h])
        d.obs(g, d.probes)
        if rnd.random() < 0.3:
            lackings(d, g, d.u["keys"], d.probes)


def start_storm(d):
    d.mem["sec"] = secs(d.rnd)
    d.mem["storm"] = True
    d.start(d.rnd.choice(["mpt", "sparse", "empt"]), how="flaky")


def secs(rnd):
    return rnd.random() < 0.3


def start_plain(kinds):
    def f(d):
        d.mem["sec"] = secs(d.rnd)
        d.start(d.rnd.choice(kinds))
    return f


def start_refused(d):
    d.mem["sec"] = secs(d.rnd)
    kind = d.rnd.choice(["mpt", "empt", "sparse"])
    d.start(kind)
    d.new("z", "mpt" if kind == "mpt" else "sparse", secs(d.rnd), "s_a")
    d.put("z", d.u["keys"][0])
    d.put("z", d.u["keys"][1])


def start_views(d):
    d.mem["sec"] = secs(d.rnd)
    d.start("empt", "sparse")


def start_others(d):
    d.mem["sec"] = secs(d.rnd)
    d.start(d.rnd.choice(["empt", "sparse"]), how="default")
    for h in "yz":
        d.new(h, d.rnd.choice(["empt", "sparse"]), secs(d.rnd), how="default")


def start_same(d):
    d.mem["sec"] = False
    d.start("mpt", "mpt")


def start_hashed(d):
    d.mem["sec"] = True
    d.mem["hashed"] = {"b"}
    d.start("mpt", "mpt", secs=[True, False])


STYLES = {
    "look": (start_plain(["mpt"]), look),
    "lookall": (start_plain(["mpt", "empt", "sparse"]), look),
    "lookref": (start_plain(["empt", "sparse"]), lookref),
    "refused": (start_refused, refused),
    "olds": (start_plain(["mpt"]), olds),
    "poi": (start_plain(["mpt", "mpt", "empt", "sparse"]), completeness("poi")),
    "poe": (start_plain(["mpt", "mpt", "empt", "sparse"]), completeness("poe")),
    "nopoi": (start_plain(["mpt", "mpt", "mpt", "empt"]), soundness("poi")),
    "nopoe": (start_plain(["mpt", "mpt", "mpt", "empt"]), soundness("poe")),
    "bound": (start_plain(["mpt", "mpt", "empt"]), bound),
    "serial": (start_plain(["mpt", "mpt", "sparse"]), serial),
    "items": (start_plain(["empt"]), items),
    "altered": (start_plain(["empt"]), altered),
    "views": (start_views, views),
    "rebuild": (start_plain(["empt"]), rebuild),
    "others": (start_others, others),
    "same": (start_same, same),
    "hashed": (start_hashed, hashed),
    "failing": (start_storm, failing),
    "lacking": (start_plain(["mpt", "mpt", "sparse"]), lacking),
}


def walk(rnd, uni, path, firsts, style):
    """Executes one walk; firsts are the positions where a content is new."""
    d = Walk(rnd, uni)
    begin, visit = STYLES[style]
    begin(d)
    for i, now in enumerate(path):
        if i:
            d.move(path[i - 1], now)
        visit(d, now, i in firsts)
    return d.trace


def plan(rnd, graph, length, start=()):
    """(path, positions of contents visited for the first time) of a cover."""
    seen, out = set(), []
    for path in cover(rnd, graph, length, start):
        firsts = set()
        for i, c in enumerate(path):
            if c not in seen:
                seen.add(c)
                firsts.add(i)
        out.append((path, firsts))
    return out
