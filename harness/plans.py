"""What is explored for which property."""
import random
import traceback

import drivers
import helpers
import keys
import merkle
import paths
import threads
import walks
from words import few
from world import Abort

# property -> walk styles with their share of the universes, and drivers with the
# number of executions of one round
TRIE = {
    "C01": (["look"], {"history": 160, "drain": 60, "reopened": 20}),
    "C02": (["lookall"], {"twins": 120, "drain": 40, "history": 60, "shared": 30}),
    "C03": (["refused"], {"refusals": 150}),
    "C04": (["olds"], {"shared": 110, "reopened": 80}),
    "C05": (["poi"], {("honest", "poi"): 160, ("big", "poi"): 4}),
    "C06": (["nopoi"], {("forged", "poi"): 130}),
    "C07": (["poe"], {("honest", "poe"): 160, ("big", "poe"): 4}),
    "C08": (["nopoe"], {("forged", "poe"): 130}),
    "C09": (["bound"], {"stale": 140, "forged": 60}),
    "C10": (["serial"], {"restored": 150}),
    "C11": (["items"], {"mapping": 150, ("history", "empt"): 50}),
    "C12": (["altered"], {"tampered": 170, "tamperedlong": 16}),
    "C13": (["views"], {"views": 120}),
    "C14": (["rebuild"], {"rebuilt": 130}),
    "C15": (["others"], {"isolated": 120}),
    "C25": (["same"], {"equal": 120, "boundary": 1}),
    "C26": (["hashed"], {"secured": 120}),
    "C27": (["lookref"], {"references": 60, "boundary": 1}),
    "C28": (["failing"], {"outages": 120}),
    "C29": (["lacking"], {"pruned": 130}),
}

ARGS = {
    "poi": {"which": ("poi",)}, "poe": {"which": ("poe",)}, "empt": {"kinds": ("empt",)},
    "copied": {"kinds": ("mpt", "sparse")}, "views": {"kinds": ("empt", "empt", "sparse")},
    "sign": {"what": "sign", "tries": 300}, "enc": {"what": "enc", "tries": 200}, "word": {"what": "word", "tries": 300},
}

for _p, (_, _made) in TRIE.items():
    if _p in ("C28", "C29"):
        continue
    _made["medley"] = 60
    _made["large"] = 2
    _made["bulky"] = 3
    _made["nested"] = 6
TRIE["C05"][1].update({("nested", "poi"): 12, ("ladder", "poi"): 3})
TRIE["C07"][1].update({("nested", "poe"): 12, ("ladder", "poe"): 3})
for _p in ("C01", "C02", "C06", "C08", "C09", "C10"):
    TRIE[_p][1]["ladder"] = 1
for _p in ("C10", "C11", "C13", "C14"):
    TRIE[_p][1].update({("bulky", "empt" if _p in ("C11", "C14") else "copied" if _p == "C10" else "views"): 8})
    TRIE[_p][1].update({("large", "empt" if _p in ("C11", "C14") else "copied" if _p == "C10" else "views"): 4})

MERKLE = {
    "C15": ([], {"mapart": 60}),
    "C16": (["mlook"], {"growing": 200, "mlarge": 10}),
    "C17": (["mprove"], {"mhonest": 200, "mlarge": 10}),
    "C18": (["malter"], {"mforged": 200, "minner": 1, "mlarge": 4}),
    "C19": (["mcode"], {"coded": 120, "mlarge": 4}),
    "C25": ([], {"mequal": 80, "mfields": 30}),
}

KEYS = {
    "C20": {"signing": 90, "longsigned": 24, ("rare", "sign"): 6},
    "C21": {"enveloped": 60, "flipped": 24, "longsealed": 12, ("rare", "enc"): 6},
    "C22": {"kinds": 80, "fullsize": 1},
    "C23": {"saved": 80, "nulword": 1, "fullsize": 1},
    "C24": {"passwords": 160, "longpasswords": 16, ("rare", "word"): 12},
    "C25": {"kequal": 30},
}

PATHS = {"C30": {"pathwork": 150, "near": 60, "nodework": 200}}

HELPERS = {"C31": {"sums": 120, "ids": 12, "validity": 120, "files": 60, "shown": 60}}

THREADS = {"C32": {("apart", "Pymt"): 24, ("apart", "Merkle"): 20, ("apart", "Keys"): 10, ("apart", "Helpers"): 16,
                   ("apart", "Paths"): 24, "readers": 60, "treereaders": 30, "beside": 50,
                   ("cutin", "trie own"): 8, ("cutin", "trie beside"): 8, ("cutin", "trie read"): 10,
                   ("cutin", "tree own"): 5, ("cutin", "tree read"): 5, ("cutin", "pair enc"): 2, ("cutin", "pair sign"): 2,
                   ("cutin", "pair word"): 2, ("cutin", "pair file"): 2, ("cutin", "pair string"): 2,
                   ("cutin", "any Paths"): 5, ("cutin", "any Helpers"): 5, ("cutin", "any Pymt"): 5}}

LENGTH = 30  # steps of one walk


def plan(prop, seed, tier, nr):
    """The models to check and the executions to make: {"models": [...], "tasks": [...]}"""
    rnd = random.Random(f"{prop} {seed} {tier} {nr}")
    tasks, models = [], []
    if prop in TRIE:
        styles, made = TRIE[prop]
        i = int(prop[1:])
        if tier == "quick":
            unis = [walks.fixed(i), walks.random_universe(rnd, 3)]
        else:
            unis = [walks.fixed(j) for j in range(len(walks.FIXED))] if nr == 0 else []
            unis += [walks.random_universe(rnd, rnd.choice([3, 4, 4, 5])) for _ in range(4)]
            if nr == 0:
                u = dict(walks.random_universe(rnd, 3), hold=True)
                _, n = walks.explore([u], edges=False)
                models.append(dict(n, module="MCTrieAlgo", universes=1, holding_old_roots=True))
        if prop == "C28" and nr < 3:  # every call cut short at every point
            u = dict(walks.random_universe(rnd, 3 if tier == "quick" else 4), crash=True, deep=False)
            _, n = walks.explore([u], edges=False)
            models.append(dict(n, module="MCTrieAlgo", universes=1, interrupted_calls=True))
        graphs, n = walks.explore(unis)
        models.append(dict(n, module="MCTrieAlgo", universes=len(unis)))
        for style in styles:
            for ui, (u, g) in enumerate(zip(unis, graphs)):
                for wi, (path, firsts) in enumerate(walks.plan(rnd, g, LENGTH)):
                    tasks.append(("PymtTrace", "walk", style, u, path, firsts, f"{prop} {seed} {nr} {style} {ui} {wi}"))
        add(tasks, "PymtTrace", made, prop, seed, tier, nr)
    if prop in MERKLE:
        styles, made = MERKLE[prop]
        if styles:
            unis = merkle_universes(rnd, tier, nr)
            graphs, n = merkle.explore(unis)
            models.append(dict(n, module="MCMerkle", universes=len(unis)))
            for style in styles:
                for ui, (u, g) in enumerate(zip(unis, graphs)):
                    for wi, (path, firsts) in enumerate(walks.plan(rnd, g, 60, ((), False))):
                        tasks.append(("MerkleTrace", "walk", style, u, path, firsts, f"{prop} {seed} {nr} {style} {ui} {wi}"))
        add(tasks, "MerkleTrace", made, prop, seed, tier, nr)
    if prop in KEYS:
        found, parts = keys.plan(rnd, prop, tier)
        models += found
        for wi, (name, part) in enumerate(parts):
            tasks.append(("KeysTrace", "walk", name, part, f"{prop} {seed} {nr} {name} {wi}"))
        add(tasks, "KeysTrace", KEYS[prop], prop, seed, tier, nr)
    if prop in PATHS:
        found, parts = paths.plan(rnd, tier)
        models += found
        for wi, part in enumerate(parts):
            tasks.append(("PathsTrace", "walk", "pairs", part, f"{prop} {seed} {nr} pairs {wi}"))
        add(tasks, "PathsTrace", PATHS[prop], prop, seed, tier, nr)
    if prop in HELPERS:
        found, parts = helpers.plan(rnd, tier)
        models += found
        for wi, (name, part) in enumerate(parts):
            tasks.append(("HelpersTrace", "walk", name, part, f"{prop} {seed} {nr} {name} {wi}"))
        add(tasks, "HelpersTrace", HELPERS[prop], prop, seed, tier, nr)
    if prop in THREADS:
        found, parts = threads.plan(rnd, tier)
        models += found
        for wi, (uni, log) in enumerate(parts):
            tasks.append(("Threads", "walk", "scheduled", (uni, log), f"{prop} {seed} {nr} scheduled {wi}"))
        add(tasks, "Threads", THREADS[prop], prop, seed, tier, nr)
    return {"models": models, "tasks": tasks}


ONCE = {"boundary", "minner", "fullsize", "nulword"}  # known findings, or slow


def add(tasks, module, made, prop, seed, tier, nr):
    for name, count in made.items():
        name, arg = name if isinstance(name, tuple) else (name, None)
        if name in ONCE and nr:
            continue
        for j in range(1 if name in ONCE else count * (1 if tier == "quick" else 4)):
            tasks.append((module, "driver", name, arg, f"{prop} {seed} {nr} {name} {j}"))


def merkle_universes(rnd, tier, nr):
    a = few(rnd, merkle.ALGS, 4)
    vals = rnd.choice([["61", "62"], ["", "00"], ["00", "0000"], [drivers.value(rnd), drivers.value(rnd)]])
    deep = 5 if tier == "quick" else 7
    return [
        merkle.muniverse(a[0], True, vals, deep),
        merkle.muniverse(a[1], False, ["6161", "6262"], deep - 1),
        merkle.muniverse(a[2], True, ["61"], 20 if tier == "quick" else 70, distinct=True),
        merkle.muniverse(a[3], False, ["6162"], 20 if tier == "quick" else 70, distinct=True),
    ]


HARNESS = {"PymtTrace": (drivers, walks, drivers.Driver), "MerkleTrace": (merkle, merkle, merkle.MDriver),
           "KeysTrace": (keys, keys, keys.KDriver), "PathsTrace": (paths, paths, paths.PDriver),
           "HelpersTrace": (helpers, helpers, helpers.HDriver)}


def execute(task, alone=False):
    """Runs one task; [{"module", "source", "trace", "error"}]

    Several threads give a trace each; alone: one thread after the other.
    """
    module, kind, name = task[:3]
    rnd = random.Random(task[-1])
    error = None
    drivers.HERE.driver = None
    try:
        if module == "Threads":
            f = getattr(threads, name)
            if name == "cutin":
                rs = f(rnd, alone, task[3].split() + [threads.MOST.get(task[3], 80)])
            else:
                rs = f(rnd, alone, *task[3]) if kind == "walk" else f(rnd, alone, *task[3:-1] if task[3] else ())
            return [dict(r, source=task[-1], task=task, part=i) for i, r in enumerate(rs)]
        made, walked, _ = HARNESS[module]
        if kind == "walk" and module in ("KeysTrace", "PathsTrace", "HelpersTrace"):
            trace = walked.walk(rnd, task[3], name)
        elif kind == "walk":
            trace = walked.walk(rnd, task[3], task[4], task[5], name)
        else:
            trace = getattr(made, name)(rnd, **ARGS.get(task[3], {}))
    except Abort as a:
        trace = a.trace
    except Exception:
        trace = drivers.HERE.driver.trace
        error = f"{task[-1]}: {traceback.format_exc()}"
    finally:
        close(drivers.HERE.driver)
    if module == "Threads":  # before the threads started
        d = drivers.HERE.driver
        module = "MerkleTrace" if isinstance(d, merkle.MDriver) else "PymtTrace"
    return [{"module": module, "source": task[-1], "trace": trace, "error": error, "task": task, "part": 0}]


def close(d):
    if hasattr(d, "close"):
        d.close()


# what the real code answered, by event; everything else is the command
ANSWERS = {"obs": {"raw", "get", "has", "ref", "hash", "root", "len", "keys", "secure", "rows", "nodes", "bytes", "store"},
           "mobs": {"root", "count", "leaves"}, "pobs": {"len", "nibs", "ext", "leaf", "shown"},
           "nobs": {"enc", "ref", "shell", "kind", "path", "refs", "data"}, "htime": {"lo", "hi"}, "hkey": {"loads", "priv"}}


def rerun(module, trace):
    """Executes the commands of a recorded trace again."""
    d = HARNESS[module][2](random.Random(0))
    for e in trace:
        c = {k: v for k, v in e.items() if k not in ("out", "fired", "after") and k not in ANSWERS.get(e["op"], ())}
        if e["op"] == "obs" and "items" in e:
            c["items"] = True
        c["op"] = c.get("op_", c["op"])
        try:
            d.do(c)
        except Abort:
            break
        except Exception as x:  # the execution went another way
            print(f"replay ended at step {len(d.trace) + 1}: {type(x).__name__}: {x}")
            break
    close(d)
    return d.trace


def assumptions(prop):
    out = ["the operator overrides of the specification (java/Crypto.java) compute Keccak-256, the digests and hexadecimal "
           "arithmetic correctly",
           "the harness records calls and answers as they were"]
    if prop in TRIE or prop in MERKLE:
        out.append("no two strings that occur have the same Keccak-256 or other digest")
    if prop in HELPERS:
        out.append("the operating system answers truly whether a file or directory exists, and its clock runs forward")
    if prop in KEYS:
        out.append("RSA signatures and OAEP, AES-EAX and PBKDF2 of pycryptodome are as strong as they should be")
    return out
