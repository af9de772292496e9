"""str(), print() and f-strings over random types: every rendered character must be Python's."""
from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for
from vmon.tygen import TyGen, value

TASK_LIMIT = 150


def tasks(tier, seed, n=160, per=4, levels=("O0", "O1"), thorough=12):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per, "levels": list(levels)} for i in range(0, k, per)]


TEXTS = ["", "a", "x=", " ", "{{", "}}", "é", "%d", "\\n", "--"]


def body(rng, params):
    names = [p for p, _ in params]
    out = []
    for j in range(rng.randrange(1, 5)):
        r = rng.randrange(9)
        k = [rng.choice(names) for _ in range(rng.randrange(1, 4))]
        if r == 0:
            out.append(f"print({', '.join(k)})")
        elif r == 1:
            out.append(f"s += str({k[0]})")
        elif r == 2:
            parts = "".join(rng.choice(TEXTS) + "{" + x + "}" for x in k) + rng.choice(TEXTS)
            out.append(f's += f"{parts}"')
        elif r == 3:
            out.append(f"print([{k[0]}])")
        elif r == 4:
            out.append(f"s += str([{k[0]}, {k[0]}])")
        elif r == 5:
            out.append(f"print(str({k[0]}), len(str({k[0]}).encode()))")
        elif r == 6:
            out.append("s += str({1: %s, 2: %s})" % (k[0], k[0]))
        elif r == 7:
            out.append(f"print(({k[0]}, {rng.choice(names)}, {rng.choice(names)}))" if rng.random() < 0.5 else f"print(({k[0]},))")
        else:
            out.append('print(f"{%s}" + str(%s) + "|")' % (k[0], k[-1]))
    return out


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "stringify", i)
        g = TyGen(rng, nrec=rng.randrange(1, 4), strs=True)
        params = [(f"p{j}", g.ty(rng.choice([0, 1, 2, 3]))) for j in range(rng.randrange(1, 4))]
        src = (
            g.source()
            + f"def validator({', '.join(f'{n}: {a}' for n, a in params)}) -> str:\n    s = \"\"\n    "
            + "\n    ".join(body(rng, params))
            + "\n    return s\n"
        )
        py = PyProgram(src)
        try:
            if py.load_error is not None:
                rep.errors.append(f"stringify {i}: {py.load_error!r}")
                continue
            sets = []
            for _ in range(5):
                sets.append(repr([value(rng, py.mod, a) for _, a in params]))
        finally:
            py.close()
        rep.event("programs")
        diff_case(rep, src, sets, levels=t["levels"], trace=True, label=f"stringify seed={seed} i={i}", stock=1 if i % 16 == 0 else 0)
