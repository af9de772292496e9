"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--seed N]
                                run.py <property> --replay FILE
exit 0: held on everything observed; 1: VIOLATION; 2: nothing observed / machinery error."""
import argparse
import gc
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv":
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)


def worker_init():
    import resource

    import ctypes
    import signal

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the runner
    gc.disable()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


_count = 0


def work(item):
    global _count
    fam, task, tier, seed = item
    from vmon import core
    from vmon.report import Report

    rep = Report()
    t0 = time.time()
    mod = importlib.import_module("vmon.families." + fam)
    try:
        with core.limit(getattr(mod, "TASK_LIMIT", 120) * (1 if tier == "quick" else 3)):
            mod.run(task, rep, tier, seed)
    except core.TimeLimit:
        rep.event("task_timeouts")
    except MemoryError:
        rep.event("task_out_of_memory")
    except Exception:
        rep.errors.append(f"{fam} {task}: {traceback.format_exc()[-1500:]}")
    _count += 1
    if _count % 10 == 0:
        gc.collect()
    rep.counters["t_" + fam] += round(time.time() - t0, 2)
    return rep


def findings_file():
    known = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                known[(prop, key)] = parts[3]
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--only", default=None, help="run only this family")
    ap.add_argument("--brief", action="store_true", help="development: list all violations in one line each")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    from vmon import core, props
    from vmon.report import Report

    if a.selftest:
        cp = core.ChainProgram("def validator(a: int) -> int:\n    return a + 1\n")
        assert cp.run([core.enc(41)]).brief() == core.Obs("ok", core.enc(42)).brief()
        print("selftest ok: opshin from", os.path.dirname(core.opshin.__file__))
        return 0
    if a.replay:
        return replay(a.replay)
    spec = props.PROPS[a.prop]
    cap = 420 if a.tier == "quick" else 800
    items = []
    for fam, params in spec["families"]:
        if a.only and fam != a.only:
            continue
        mod = importlib.import_module("vmon.families." + fam)
        for t in mod.tasks(a.tier, a.seed, **params):
            items.append((fam, t, a.tier, a.seed))
    # interleave the families so that a wall cap cuts all of them alike
    order = core_order(items, a.seed)
    total = Report()
    from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
    from concurrent.futures.process import BrokenProcessPool
    import multiprocessing as mp

    gc.collect()
    gc.freeze()
    done = skipped = 0
    broken = False
    it = iter(order)
    ex = ProcessPoolExecutor(a.jobs, mp_context=mp.get_context("fork"), initializer=worker_init)
    try:
        pend = set()
        exhausted = False
        while True:
            while not exhausted and len(pend) < a.jobs * 2:
                if time.time() - t0 > cap:
                    skipped += sum(1 for _ in it)
                    exhausted = True
                    break
                try:
                    pend.add(ex.submit(work, next(it)))
                except StopIteration:
                    exhausted = True
            if not pend:
                break
            fin, pend = wait(pend, return_when=FIRST_COMPLETED)
            for f in fin:
                total.merge(f.result())
                done += 1
            if len(total.violations) >= 3 and not a.brief and a.tier == "quick":
                for p in pend:
                    p.cancel()
                exhausted = True
                skipped += sum(1 for _ in it)
                pend = {p for p in pend if not p.cancelled()}
    except BrokenProcessPool as e:
        broken = True
        total.errors.append(f"a worker died: {e}")
    workers = list((ex._processes or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for w in workers:
        w.kill()

    known = findings_file()
    for key, occ in sorted(total.findings.items()):
        text = known.get((a.prop, key))
        if text is None:
            total.violations += [{**o, "finding": key} for o in occ]
        else:
            print(f"KNOWN-FINDING: property={a.prop} key={key} {text}")
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(total.violations[: 60 if a.brief else 3]):
        path = os.path.join(rdir, f"{a.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "seed": a.seed, **v}, f, indent=1, default=repr)
        print(f"VIOLATION property={a.prop} replay={path}")
        if a.brief:
            print("   ", v.get("label"), v.get("level"), v.get("args", "")[:150], "|", v.get("error", "")[:200], "| py", v.get("python", "")[:200], "| ch", v.get("chain", "")[:200], "" if v.get("label") else str(v)[:600])
            continue
        print("  " + "\n  ".join(f"{k}: {str(x)[:700]}" for k, x in v.items() if x)[:2500])
    c = total.counters
    times = {k: round(x, 1) for k, x in c.items() if k.startswith("t_")}
    counts = {k: x for k, x in c.items() if not k.startswith("t_") and k != "evaluations"}
    wall = round(time.time() - t0, 2)
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(c["evaluations"]),
            "distinct_nontrivial": len(total.sigs),
            "rule": spec["rule"],
            "samples": total.samples or [{"note": "no sample"}],
            "tasks_done": done,
            "tasks_skipped_by_time_cap": skipped,
            "observed": counts,
            "worker_seconds": times,
            "known_findings_seen": {k: len(x) for k, x in total.findings.items()},
            "machinery_errors": total.errors[:5],
        },
        "wall_s": wall,
        "assumptions": spec.get("assumptions", []),
        "violations": len(total.violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(
        f"{a.prop} tier={a.tier} seed={a.seed} tasks={done} skipped={skipped} evaluations={c['evaluations']} "
        f"distinct={len(total.sigs)} violations={len(total.violations)} errors={len(total.errors)} wall={wall}s {({k: x for k, x in counts.items() if not k.startswith('feature_')})} {times}"
    )
    for e in total.errors[:5]:
        print("ERROR", e[-1500:] if a.brief else e[-1500:])
    sys.stdout.flush()
    if total.violations:
        os._exit(1)
    low = [f"{k}<{m}" for k, m in spec["min"].items() if c[k] < m] if not a.only else []
    if broken or total.errors or low:
        print("INCONCLUSIVE", low)
        sys.stdout.flush()
        os._exit(2)
    os._exit(0)


def core_order(items, seed):
    """round robin over families, each family in its own order"""
    per = {}
    for it in items:
        per.setdefault(it[0], []).append(it)
    tagged = []
    for fam, l in per.items():
        for i, it in enumerate(l):
            tagged.append(((i + 0.5) / len(l), fam, i, it))
    tagged.sort(key=lambda t: t[:3])
    return [t[3] for t in tagged]


def replay(path):
    from vmon import core
    from vmon.diff import diff_case
    from vmon.report import Report

    with open(path) as f:
        v = json.load(f)
    if not v.get("source") or not v.get("level"):
        print(json.dumps(v, indent=1)[:4000])
        print("no program in this replay: re-run the check with the recorded seed")
        return 2
    rep = Report()
    src = v["source"]
    diff_case(rep, src, [v["args"]] if v.get("args") else [], (v["level"],), v.get("fn", "validator"),
              trace=v.get("trace", False), cfg=v.get("cfg") or {}, must_compile=not v.get("args"))
    for x in rep.violations:
        print(json.dumps(x, indent=1, default=repr))
    print("reproduced" if rep.violations else "not reproduced", rep.errors)
    return 1 if rep.violations else 0


if __name__ == "__main__":
    sys.exit(main())
