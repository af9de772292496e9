"""The differential oracle: one program, observed under CPython and on the UPLC machine."""
import random

from vmon.core import (
    CompileFailure,
    ChainProgram,
    NotEncodable,
    PyProgram,
    TimeLimit,
    agree,
    config,
    enc,
    limit,
    run_uplc,
    to_uplc,
)
from vmon.shrink import shrink

TRACE_LEVELS = ("O0", "O1")
_shrunk = 0


def confirm(cp, canon, po, logs, unordered):
    """re-execute a disagreeing run on the stock uplc machine: True if it disagrees as well"""
    try:
        with limit(60):
            co = run_uplc(cp.code, [to_uplc(a) for a in canon], reference=True)
    except (TimeLimit, NotEncodable, RecursionError):
        return True
    return not agree(po, co, logs=logs, unordered=unordered)


def diff_case(
    rep,
    src,
    argsets,
    levels=("O2",),
    fn="validator",
    trace=False,
    must_compile=True,
    unordered=False,
    finding=None,
    cfg=None,
    label="",
    shrinkable=False,
    stock=0,
):
    """Observe `src` on every args tuple (python values, or strings evaluated in the module)."""
    cfg = cfg or {}
    py = PyProgram(src, fn)
    try:
        if py.load_error is not None and must_compile:
            rep.errors.append(f"{label}: python cannot load: {py.load_error!r}")
            return
        runs = []
        for a in argsets:
            try:
                if isinstance(a, str):
                    a = eval(a, dict(py.mod.__dict__))
                canon = [enc(x) for x in a]
                with limit(15):
                    runs.append((a, canon, py.run(list(a))))
            except (NotEncodable, TimeLimit):
                rep.event("inconclusive")
        for level in levels:
            over = {}
            if not isinstance(level, str):
                level, over = level
            name = level + "".join(f" {k}={v}" for k, v in over.items())
            try:
                cp = ChainProgram(src, config(level, **{**cfg, **over}), fn)
            except CompileFailure as e:
                if isinstance(e.exc, MemoryError):
                    rep.event("inconclusive")
                    continue
                if must_compile:
                    rep.violation(
                        "a program in the supported subset was rejected",
                        finding=finding,
                        label=label,
                        level=level,
                        error=str(e)[:500],
                        source=src,
                        fn=fn,
                        cfg={**cfg, **over},
                    )
                else:
                    rep.event("rejected")
                continue
            rep.event("compiled")
            logs = trace and level in TRACE_LEVELS and not over.get("remove_trace") and not over.get("constant_folding")
            rep.event("config_" + name)
            for run in list(runs):
                a, canon, po = run
                try:
                    co = cp.run(canon)
                except NotEncodable:
                    # out of steps (or not encodable): not worth trying at other levels
                    rep.event("inconclusive")
                    runs.remove(run)
                    continue
                rep.event("evaluations")
                rep.event("outcome_" + po.status)
                rep.event("trace_events", len(co.logs))
                rep.sig(label or src, canon, name)
                if agree(po, co, logs=logs, unordered=unordered):
                    rep.sample(program=src[-600:], args=repr(a)[:200], level=level, outcome=co.brief()[:200])
                    if stock and rep.counters["stock_runs"] < stock:
                        rep.event("stock_runs")
                        if confirm(cp, canon, po, logs, unordered):
                            rep.errors.append(f"{label}: machines disagree on {a!r}")
                    continue
                if not confirm(cp, canon, po, logs, unordered):
                    rep.errors.append(f"{label}: own machine disagrees with stock on {a!r}")
                    continue
                small = src
                if shrinkable:
                    small = _shrink(src, a, fn, level, {**cfg, **over}, logs, unordered)
                rep.violation(
                    "compiled program and Python disagree",
                    finding=finding,
                    label=label,
                    level=level,
                    args=repr(a),
                    fn=fn,
                    cfg={**cfg, **over},
                    trace=logs,
                    python=po.brief()[:600],
                    chain=co.brief()[:600],
                    source=small,
                    original=src if small is not src else None,
                )
                break
    finally:
        py.close()


def still_fails(src, rs, fn, level, cfg, logs, unordered, seconds=10):
    try:
        with limit(seconds):
            py = PyProgram(src, fn)
            try:
                if py.load_error:
                    return False
                a = eval(rs, dict(py.mod.__dict__))
                po = py.run(list(a))
                if "NameError" in po.error or "UnboundLocal" in po.error:
                    return False
                c = ChainProgram(src, config(level, **cfg), fn)
                return not agree(po, c.run([enc(x) for x in a]), logs=logs, unordered=unordered)
            finally:
                py.close()
    except (TimeLimit, CompileFailure, NotEncodable, NameError, AttributeError, TypeError):
        return False


def _shrink(src, a, fn, level, cfg, logs, unordered):
    global _shrunk
    if _shrunk >= 2:
        return src
    _shrunk += 1
    rs = repr(a)
    try:
        if not still_fails(src, rs, fn, level, cfg, logs, unordered):
            return src
        return shrink(src, lambda s: still_fails(s, rs, fn, level, cfg, logs, unordered), 20)
    except Exception:
        return src


def rng_for(seed, *parts):
    return random.Random("/".join(str(p) for p in (seed,) + parts))
