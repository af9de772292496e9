"""Random well-typed programs (vmon.gen) under random hostile arguments."""
from vmon.core import PyProgram, NotEncodable
from vmon.diff import diff_case, rng_for
from vmon.gen import ArgGen, Gen

TASK_LIMIT = 150


def tasks(tier, seed, n, levels=("O2",), trace=False, per=3, nargs=4, tag="", weights=None, thorough=12):
    n = n * (thorough if tier == "thorough" else 1)
    return [
        {"i": i, "per": per, "levels": list(levels), "trace": trace, "nargs": nargs, "tag": tag, "weights": weights or {}}
        for i in range(0, n, per)
    ]


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "random_programs", t["tag"], i)
        p = Gen(rng, **t["weights"]).program()
        py = PyProgram(p.source)
        try:
            if py.load_error is not None:
                rep.event("not_loadable")
                continue
            args = []
            for _ in range(t["nargs"]):
                ag = ArgGen(rng, p.recs, py.mod)
                args.append(repr([ag.val(ty) for _, ty in p.params]))
        finally:
            py.close()
        rep.event("programs")
        diff_case(
            rep,
            p.source,
            args,
            levels=t["levels"],
            trace=t["trace"],
            must_compile=False,
            label=f"random program {t['tag']} seed={seed} i={i}",
            shrinkable=True,
            stock=1 if i % 8 == 0 else 0,
        )
        for f in p.features:
            rep.event("feature_" + str(f))
