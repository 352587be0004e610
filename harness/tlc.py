"""Compiles the operator overrides and runs TLC."""
import json
import os
import re
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/tla"
JARS = f"{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def classes():
    """The directory with Crypto.class, compiled when it is missing or old."""
    src, out = f"{VERIF}/java/Crypto.java", f"{VERIF}/build"
    cls = f"{out}/Crypto.class"
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(out, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=out)
        subprocess.run(["javac", "-cp", f"{TOOLS}/tla2tools.jar", "-d", tmp, src], check=True, timeout=120)
        for f in os.listdir(tmp):
            os.replace(f"{tmp}/{f}", f"{out}/{f}")
        os.rmdir(tmp)
    return out


def run(module, cfg=None, env=None, workers=8, timeout=600, args=(), heap="6g", props=()):
    """Runs TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", *props,
           f"-DTLA-Library={VERIF}/spec", "-cp", f"{classes()}:{JARS}", "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg or f"{VERIF}/spec/{module}.cfg", *args, f"{VERIF}/spec/{module}.tla"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=meta,
                           env={**os.environ, **(env or {})})
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC ran out of time on {module}")
    finally:
        subprocess.run(["rm", "-rf", meta])
    return r.returncode, r.stdout


def counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return None
    return {"generated": int(m.group(1)), "distinct": int(m.group(2))}


LINE = re.compile(r'^"@@(BAD|END|EDGE|NOTE|LOG) (.*)"$')


def printed(out):
    """The records the specification printed, as (kind, text)."""
    for line in out.splitlines():
        m = LINE.match(line)
        if m:
            yield m.group(1), m.group(2).replace('\\"', '"').replace("\\\\", "\\")


def validate(module, traces, timeout=600, workers=8, heap="6g"):
    """Checks traces against a trace specification.

    Returns (violations, states).  Every trace must be consumed to its end;
    anything else is an error of the machinery, not a verdict.
    """
    if not traces:
        return [], {"generated": 0, "distinct": 0}
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(traces, f)
    try:
        code, out = run(module, env={"TRACES": path}, timeout=timeout, workers=workers, heap=heap)
    finally:
        os.unlink(path)
    bad, ended = [], set()
    for kind, text in printed(out):
        if kind == "BAD":
            bad.append(json.loads(text))
        elif kind == "END":
            ended.add(int(text))
    n = counts(out)
    if code != 0 or n is None or ended != set(range(1, len(traces) + 1)):
        tail = "\n".join(x for x in out.splitlines() if not x.startswith(("\tat", "Parsing", "Semantic", "Linting", "Loading")))
        raise MachineryError(f"TLC did not reach a verdict on all traces of {module} "
                             f"(exit {code}, {len(ended)}/{len(traces)} ended)\n{tail[-4000:]}")
    if any("MACHINERY" in b["tags"] for b in bad):
        raise MachineryError(f"unknown events: {[b for b in bad if 'MACHINERY' in b['tags']][:3]}")
    return bad, n
