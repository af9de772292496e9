"""Optimisation levels and single optimisation flags must not change what a program does."""
from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for
from vmon.families import curated
from vmon.gen import ArgGen, Gen
from vmon.typed import rand_args

TASK_LIMIT = 200
SINGLE = [
    ("O0", {"constant_folding": True}),
    ("O0", {"remove_dead_code": True}),
    ("O0", {"compress_patterns": True}),
    ("O0", {"constant_index_access_list": True}),
    ("O0", {"fast_access_skip": 2}),
    ("O0", {"fast_access_skip": 7}),
    ("O0", {"expand_union_types": True}),
    ("O0", {"remove_trace": True}),
    ("O1", {"expand_union_types": True, "fast_access_skip": 3}),
    ("O2", {"constant_folding": False}),
    ("O2", {"remove_dead_code": False}),
    ("O2", {"compress_patterns": False}),
    ("O2", {"constant_index_access_list": False}),
    ("O2", {"fast_access_skip": None}),
    ("O2", {"fast_access_skip": 20}),
    ("O2", {"expand_union_types": True}),
    ("O2", {"remove_trace": True}),
    ("O3", {"remove_trace": False}),
    ("O3", {"expand_union_types": True}),
    ("O3", {"constant_folding": False}),
]
EXPANDED = [(level, {"expand_union_types": True}) for level in ("O0", "O1", "O2", "O3")] + [
    ("O2", {"expand_union_types": True, "fast_access_skip": None}),
    ("O1", {"expand_union_types": True, "constant_folding": True}),
]
BASE = ["O0", "O1", "O2", "O3"]


def tasks(tier, seed, n, corpora=("control", "unions", "records", "expansion"), per=2, flags=3, thorough=12):
    k = n * (thorough if tier == "thorough" else 1)
    out = [{"kind": "random", "i": i, "per": per, "flags": flags} for i in range(0, k, per)]
    for c in corpora:
        m = len(curated.load(c))
        out += [{"kind": "curated", "corpus": c, "i": i, "per": 6, "flags": flags if tier == "quick" else 21} for i in range(0, m, 6)]
    return out


def run(t, rep, tier, seed):
    if t["kind"] == "curated":
        for name, src, args, opts in curated.load(t["corpus"])[t["i"] : t["i"] + t["per"]]:
            if "finding" in opts or "levels" in opts:
                continue
            rng = rng_for(seed, "flags", t["corpus"], name)
            py = PyProgram(src)
            sets = list(args)
            try:
                if py.load_error is not None:
                    rep.errors.append(f"{name}: {py.load_error!r}")
                    continue
                if opts.get("random") != "no":
                    sets += [repr(rand_args(rng, py.mod)) for _ in range(4)]
            finally:
                py.close()
            rep.event("programs")
            if t["corpus"] == "expansion":
                diff_case(rep, src, sets, levels=["O0"] + EXPANDED, must_compile=True, label=f"expansion/{name}", trace=True)
                continue
            for lv in rng.sample(SINGLE, t["flags"]):
                # union expansion types every variant on its own and may refuse impossible branches
                diff_case(rep, src, sets, levels=[lv], must_compile=not lv[1].get("expand_union_types"), unordered=opts.get("unordered") == "yes",
                          cfg={"allow_isinstance_anything": True} if opts.get("any") == "yes" else {},
                          label=f"{t['corpus']}/{name}", trace=opts.get("trace") != "no")
        return
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "flags", "random", i)
        p = Gen(rng).program()
        py = PyProgram(p.source)
        try:
            if py.load_error is not None:
                rep.event("not_loadable")
                continue
            args = []
            for _ in range(4):
                ag = ArgGen(rng, p.recs, py.mod)
                args.append(repr([ag.val(ty) for _, ty in p.params]))
        finally:
            py.close()
        rep.event("programs")
        diff_case(rep, p.source, args, levels=BASE + rng.sample(SINGLE, t["flags"]), must_compile=False,
                  label=f"random program flags seed={seed} i={i}", shrinkable=True, trace=True)
