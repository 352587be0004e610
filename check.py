#!/opt/venv/bin/python -B
"""Decides one property:  check.py <property> [--tier quick|thorough] [--replay FILE]

Model-checks the specification, executes walks of its state graph and random
histories on the real code in /repo, and has TLC validate every recorded execution
against the specification.  Exit 0: no clause of the property was broken.  Exit 1:
one was (VIOLATION line).  Exit 2: no verdict.
"""
import argparse
import json
import os
import sys
import time
from multiprocessing import Pool

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("PYMT_SRC", "/repo/src"))
sys.path.insert(0, VERIF + "/harness")

import plans  # noqa: E402
import tlc  # noqa: E402


def findings():
    """The known findings: (property, clause) pairs.  Fixed entries suppress nothing."""
    known = []
    with open(VERIF + "/known_findings.txt") as f:
        for line in f:
            if line.startswith("known: "):
                prop, clause = line[len("known: property="):].rstrip("\n").split(" ", 1)
                known.append((prop, clause.split(" | ")[0]))
    return known


def generate(tasks, deadline):
    """Executes the tasks; returns the traces, in order."""
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        out = []
        for r in pool.imap(plans.execute, tasks, chunksize=max(1, len(tasks) // 200)):
            out += r
            if time.time() > deadline:
                pool.terminate()
                break
    return out


def alone(task):
    """What is broken when the threads of a task run one after the other."""
    rs = [r for r in plans.execute(task, alone=True) if r["trace"]]
    seen = set()
    for module in {r["module"] for r in rs}:
        some = [r for r in rs if r["module"] == module]
        for b in tlc.validate(module, [r["trace"] for r in some])[0]:
            seen.add((some[b["t"] - 1]["part"], b["op"], b["clause"]))
    return seen


def together(found):
    """C32: what is broken only when the threads run at the same time."""
    out, seen = [], {}
    for r, b in found:
        if r["source"] not in seen and len(seen) < 40:
            seen[r["source"]] = alone(r["task"])
        if (r["part"], b["op"], b["clause"]) not in seen.get(r["source"], {(r["part"], b["op"], b["clause"])}):
            out.append((r, b))
    return out


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if "task" in r:
        task = tuple(r["task"])
        rs = [x for x in plans.execute(task) if x["trace"]]
        found = [(rs[i], b) for i in range(len(rs)) for b in tlc.validate(rs[i]["module"], [rs[i]["trace"]])[0]]
        found = together(found)
        for x, b in found:
            print(f"thread {x['part']} step {b['l']}: {b['op']}: {b['clause']}\n    {json.dumps(x['trace'][b['l'] - 1])[:2000]}")
        if found:
            print(f"VIOLATION property={r['property']} replay={path}")
        return 1 if found else 0
    trace = plans.rerun(r["module"], r["trace"])
    bad, _ = tlc.validate(r["module"], [trace])
    bad = [b for b in bad if r["property"] in b["tags"]]
    for b in bad:
        print(f"step {b['l']}: {b['op']}: {b['clause']}\n    {json.dumps(trace[b['l'] - 1])[:2000]}")
    if bad:
        print(f"VIOLATION property={r['property']} replay={path}")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.property == "setup":
        tlc.classes()
        return 0
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.property
    budget = 600 if a.tier == "quick" else float(os.environ.get("THOROUGH_SECONDS", "1500"))
    known = [c for p, c in findings() if p == prop]

    total = {"model_states": 0, "model_transitions": 0, "trace_states": 0, "events": 0, "traces": 0, "walks": 0}
    cover = {"operations": {}, "sources": {}}
    samples, found, quiet, broken, models = [], [], {}, [], []
    rounds = 0
    while True:
        plan = plans.plan(prop, seed, a.tier, rounds)
        for m in plan["models"]:
            total["model_states"] += m["distinct"]
            total["model_transitions"] += m["generated"]
            models.append(m)
        results = generate(plan["tasks"], t0 + budget)
        for module in sorted({r["module"] for r in results}):
            rs = [r for r in results if r["module"] == module and r["trace"]]
            for part in range(0, len(rs), 1500):
                chunk = rs[part:part + 1500]
                bad, n = tlc.validate(module, [r["trace"] for r in chunk])
                total["trace_states"] += n["distinct"]
                total["traces"] += len(chunk)
                for r in chunk:
                    total["events"] += len(r["trace"])
                    cover["sources"][r["source"]] = cover["sources"].get(r["source"], 0) + 1
                    for e in r["trace"]:
                        cover["operations"][e["op"]] = cover["operations"].get(e["op"], 0) + 1
                if not samples:
                    samples = [{"source": r["source"], "events": r["trace"][:6]} for r in chunk[:1] + chunk[-1:]]
                hit = set()
                for b in bad:
                    hit.add(b["t"])
                    if prop in plans.THREADS:
                        found.append((chunk[b["t"] - 1], b))
                        continue
                    if prop not in b["tags"]:
                        continue
                    if b["clause"] in known:
                        quiet.setdefault(b["clause"], 0)
                        quiet[b["clause"]] += 1
                    else:
                        found.append((chunk[b["t"] - 1], b))
                broken += [r for i, r in enumerate(chunk, 1) if r["error"] and i not in hit]
        rounds += 1
        if prop in plans.THREADS:
            found = together(found)
        if found or a.tier == "quick" or time.time() - t0 > budget * 0.6:
            break

    for clause, n in sorted(quiet.items()):
        print(f"KNOWN-FINDING: property={prop} {clause} ({n} times)")
    code = 0
    if found:
        found.sort(key=lambda x: (x[1]["l"], len(x[0]["trace"])))
        r, b = found[0]
        os.makedirs(VERIF + "/replay", exist_ok=True)
        path = f"{VERIF}/replay/{prop}.json"
        with open(path, "w") as f:
            x = {"property": prop, "module": r["module"], "source": r["source"],
                 "clause": b["clause"], "step": b["l"], "trace": r["trace"][:b["l"]]}
            if prop in plans.THREADS:
                x.update(task=r["task"], thread=r["part"])
            json.dump(x, f, indent=1)
        seen = {}
        for _, x in found:
            k = (x["op"], x["clause"].split(" ")[0] if x["op"] == "obs" else x["clause"])
            seen[k] = seen.get(k, 0) + 1
        for (op, clause), n in sorted(seen.items(), key=lambda x: -x[1])[:8]:
            print(f"  {n} x {op}: {clause}")
        print(f"  shortest: {r['source']} step {b['l']}: {b['clause']}: {json.dumps(r['trace'][b['l'] - 1])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif len(broken) > 3 + total["traces"] // 50:
        print(f"the harness failed without a verdict, {len(broken)} times:\n" + broken[0]["error"], file=sys.stderr)
        code = 2
    elif broken:
        print(f"  {len(broken)} executions ended early:\n" + broken[0]["error"])
    coverage = {
        "states": total["model_states"] + total["trace_states"],
        "transitions": total["model_transitions"] + total["events"],
        "traces_validated_against_impl": total["traces"],
        "model_states": total["model_states"],
        "trace_states": total["trace_states"],
        "events_executed_on_the_code": total["events"],
        "rounds": rounds,
        "events_by_call": dict(sorted(cover["operations"].items())),
        "traces_by_source": dict(sorted(cover["sources"].items())),
        "models": models[:40],
        "known_findings_seen": quiet,
        "executions_ended_early": len(broken),
        "samples": samples,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump({"property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
                   "coverage": coverage, "assumptions": plans.assumptions(prop),
                   "wall_s": round(time.time() - t0, 1), "violations": len(found)}, f, indent=1)
    print(f"{prop} {a.tier}: {total['traces']} executions, {total['events']} events, "
          f"{coverage['states']} states, {time.time() - t0:.1f} s")
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except tlc.MachineryError as e:
        print(f"no verdict: {e}", file=sys.stderr)
        sys.exit(2)
