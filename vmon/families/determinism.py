"""The same source and configuration always give the same script: other processes, other hash
seeds, other histories (order of compilations, repeated compilations), other entry points."""
import json
import os
import subprocess
import sys

import uplc

from vmon import core  # (import order: sets up the path to the repository)
from opshin.compiler_config import DEFAULT_CONFIG, OPT_CONFIGS, CompilationConfig

from vmon.core import REPO, ChainProgram, CompileFailure
from vmon.diff import rng_for
from vmon.pool import import_program, EXAMPLES, example_path, program

TASK_LIMIT = 240
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tasks(tier, seed, n=8, size=4, imports=4, thorough=10):
    m = thorough if tier == "thorough" else 1
    return [{"i": i, "size": size} for i in range(n * m)] + [{"i": i, "size": 16, "kind": "imports"} for i in range(imports * m)]


def child(job, hashseed, cwd=None):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VMON_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "compile_worker.py")], input=json.dumps(job),
                       capture_output=True, text=True, env=env, timeout=200, cwd=cwd)
    if p.returncode != 0:
        raise RuntimeError("compile worker failed: " + p.stderr[-800:])
    return json.loads(p.stdout)


def run(t, rep, tier, seed):
    rng = rng_for(seed, "determinism", t.get("kind", ""), t["i"])
    progs = [{"kind": "imports", "source": import_program(rng), "file": "<unknown>"} for _ in range(t["size"])] if t.get("kind") else mixed(t, rng, tier)
    observe(t, rep, tier, seed, rng, progs)


def mixed(t, rng, tier):
    progs = []
    kinds = ["random", "records", "random" if t["i"] % 2 else "skeleton"]
    for j in range(t["size"] - 1):
        kind = kinds[j % len(kinds)]
        src, fn, _ = program(kind, rng)
        progs.append({"kind": kind, "source": src, "file": "<unknown>"})
    # small examples often, big ones in the thorough tier only
    ex = EXAMPLES[t["i"] % (len(EXAMPLES) if tier == "thorough" else len(EXAMPLES) - 4)]
    with open(example_path(ex)) as f:
        progs.append({"kind": ex, "source": f.read(), "file": example_path(ex)})
    return progs


def observe(t, rep, tier, seed, rng, progs):
    for p in progs:
        p["level"] = rng.randrange(4)
        p["cfg"] = rng.choice([{}, {}, {"wrap_output": True}, {"expand_union_types": True}, {"remove_dead_code": False}, {"fast_access_skip": 2}])
        p["via"] = rng.choice(["compile", "static", "compile"])
        if p["file"] != "<unknown>" and rng.random() < 0.5:
            p["via"] = "build"
    k = len(progs)
    fwd = list(range(k))
    sh = rng.sample(fwd, k)
    jobs = [(0, fwd), (rng.randrange(1, 2**32 - 1), fwd[::-1]), (rng.randrange(1, 2**32 - 1), sh + sh[:1])]
    seen = {}
    from concurrent.futures import ThreadPoolExecutor

    cwds = [rng.choice(["/", "/tmp", HERE]) for _ in jobs]
    with ThreadPoolExecutor(3) as ex:
        results = list(ex.map(lambda jc: child({"order": jc[0][1], "programs": progs}, jc[0][0], cwd=jc[1]), zip(jobs, cwds)))
    for (hs, order), res in zip(jobs, results):
        rep.event("processes")
        for i, ds in res.items():
            for d in ds:
                seen.setdefault(int(i), []).append((f"PYTHONHASHSEED={hs} order={order}", d))
    # this process (long-lived, many compilations before, accelerated copies)
    for i, p in enumerate(progs):
        try:
            import hashlib

            cp = ChainProgram(p["source"], DEFAULT_CONFIG.update(OPT_CONFIGS[p["level"]]).update(CompilationConfig(**p["cfg"])), contract_file=p["file"])
            d = hashlib.sha256(uplc.flatten(cp.code)).hexdigest()
        except CompileFailure as e:
            d = "ERR " + e.kind
        seen[i].append(("long-lived worker", d))
    for i, p in enumerate(progs):
        ds = {d for _, d in seen[i]}
        rep.event("compilations", len(seen[i]))
        rep.event("kind_" + (p["kind"] if p["kind"] in ("random", "records", "skeleton", "imports") else "example"))
        if any(d.startswith("ERR") for d in ds):
            rep.event("rejected")
        rep.sig(p["source"], p["level"], sorted(p["cfg"].items()))
        rep.sample(kind=p["kind"], level=p["level"], cfg=p["cfg"], via=p["via"], digest=seen[i][0][1][:16], compilations=len(seen[i]))
        rep.expect(len(ds) == 1, "the same source compiled to different scripts", kind=p["kind"], opt_level=p["level"], config=p["cfg"], via=p["via"],
                   digests=[(a[:80], d[:24]) for a, d in seen[i]], source_=p["source"][:6000])
