"""Hand written programs, one mechanism each, driven with random and fixed hostile arguments.

A corpus file is a sequence of programs separated by lines `### name [key=value ...]`;
optional `#! [args]` lines give explicit argument lists evaluated inside the module.
Every program is in the supported subset, so a rejection counts as a violation."""
import os
import re

from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for
from vmon.typed import rand_args

TASK_LIMIT = 150
CORPUS = os.path.join(os.path.dirname(os.path.dirname(__file__)), "corpus")
HEAD = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
"""


def load(name):
    out = []
    with open(os.path.join(CORPUS, name + ".txt")) as f:
        text = f.read()
    common = ""
    for chunk in re.split(r"^### ", text, flags=re.M):
        if not chunk.strip():
            continue
        head, _, body = chunk.partition("\n")
        words = head.split()
        opts = dict(w.split("=", 1) for w in words[1:] if "=" in w)
        if words[0] == "COMMON":
            common = body
            continue
        args = []
        src = []
        for line in body.split("\n"):
            if line.startswith("#!"):
                args.append(line[2:].strip())
            else:
                src.append(line)
        head_ = "" if "nohead" in words else HEAD
        out.append((words[0], head_ + ("" if "nocommon" in words else common) + "\n".join(src), args, opts))
    return out


def tasks(tier, seed, corpus, levels=("O2",), n=10, trace=True, thorough=12, chunk=4):
    progs = load(corpus)
    k = n * (thorough if tier == "thorough" else 1)
    return [
        {"corpus": corpus, "i": i, "chunk": chunk, "levels": list(levels), "n": k, "trace": trace}
        for i in range(0, len(progs), chunk)
    ]


def run(t, rep, tier, seed):
    for name, src, args, opts in load(t["corpus"])[t["i"] : t["i"] + t["chunk"]]:
        rng = rng_for(seed, "curated", t["corpus"], name)
        sets = list(args)
        py = PyProgram(src)
        try:
            if py.load_error is not None:
                rep.errors.append(f"{t['corpus']}/{name}: {py.load_error!r}")
                continue
            nparams = py.mod.validator.__code__.co_argcount
            if not (nparams == 0 or opts.get("random") == "no"):
                for _ in range(t["n"]):
                    sets.append(repr(rand_args(rng, py.mod)))
            elif not sets:
                sets.append("[]")
        finally:
            py.close()
        rep.event("programs")
        diff_case(
            rep,
            src,
            sets,
            levels=opts["levels"].split(",") if "levels" in opts else t["levels"],
            trace=t["trace"] and opts.get("trace") != "no",
            unordered=opts.get("unordered") == "yes",
            finding=opts.get("finding"),
            cfg={"allow_isinstance_anything": True} if opts.get("any") == "yes" else {},
            label=f"{t['corpus']}/{name}",
            stock=1,
        )
