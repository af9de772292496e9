"""Every operation on containers, for elements of every (nested) type."""
from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for
from vmon.tygen import TyGen, value

TASK_LIMIT = 200
# (expression or lines ending in an expression, result type); p, q: T; l, m: List[T]; d: Dict[int, T]; n: int; c: bool
T, L, LL, D = "{T}", "List[{T}]", "List[List[{T}]]", "Dict[int, {T}]"
OPS = [
    ("[p]", L), ("[p, q]", L), ("[p, q, p]", L), ("[p] + l", L), ("l + [q]", L), ("l + m", L), ("l + l + [p]", L), ("[l]", LL), ("[l, m]", LL), ("[l, [p]]", LL),
    ("[[p], l]", LL), ("[[p]]", LL), ("[[p], [q, p]]", LL), ("[l] + [m]", LL), ("[[x] for x in l]", LL), ("[[x, p] for x in l]", LL), ("[[p] + l for x in m]", LL),
    ("[l + [x] for x in m]", LL), ("[l[1:] for x in m]", LL), ("[[y for y in l] for x in m]", LL),
    ("[p][0]", T), ("[q, p][1]", T), ("[p, q][-1]", T), ("[l, m][1]", L), ("[l, m][0][0]", T), ("[[p], l][1][0]", T), ("[[p], l][0][0]", T), ("[[[p]]][0][0][0]", T),
    ("[[[p]], [l]][1]", LL), ("[[[p]]][0]", LL), ("[[l]][0][0]", L), ("[[[l]]][0][0][0]", L),
    ("l[0]", T), ("l[-1]", T), ("l[n]", T), ("l[1:]", L), ("l[:1]", L), ("l[n:]", L), ("l[:n]", L), ("l[-1:]", L), ("l[:-1]", L), ("l[n:2]", L), ("l[1:n]", L), ("l[0:0]", L),
    ("[l, m][1:]", LL), ("[l, m][:1]", LL), ("[l, m, l][n:]", LL), ("[p, q][1:]", L), ("[p, q][:n]", L),
    ("[x for x in l]", L), ("[x for x in l if c]", L), ("[x for x in reversed(l)]", L), ("[x for x in reversed([p, q])]", L), ("[[x for x in reversed(y)] for y in [l, m]]", LL), ("[x for x in l if n > 0]", L), ("[p for x in l]", L), ("[x for x in [p, q]]", L), ("[x for x in l + m]", L),
    ("[x for x in [l, m]]", LL), ("[x for x in [l, m] if len(x) > n]", LL), ("[x[0] for x in [l, m] if len(x) > 0]", L), ("[x[n:] for x in [l, m]]", LL),
    ("[v for v in d.values()]", L), ("[d[k] for k in d.keys()]", L), ("[[v] for v in d.values()]", LL), ("[[v, p] for k, v in d.items()]", LL), ("[v for k, v in d.items() if k > n]", L),
    ("{{n: p}}", D), ("{{1: p, 2: q}}", D), ("{{k: p for k in range(3)}}", D), ("{{len(l): x for x in l}}", D), ("{{k: v for k, v in d.items()}}", D), ("{{k: p for k, v in d.items() if k > n}}", D),
    ("{{n: p}}[n]", T), ("{{1: p, n: q}}[n]", T), ("{{n: l}}[n]", L), ("{{n: d}}[n]", D), ("{{n: {{n: p}}}}[n][n]", T), ("{{n: [p, q]}}[n][1]", T), ("[{{n: p}}][0]", D), ("[{{n: p}}, d][1]", D),
    ("[[d]][0][0]", D), ("[[d, {{n: p}}]][0][1]", D), ("[[{{n: l}}]][0][0][n]", L), ("d[n]", T), ("d.get(n, p)", T), ("{{n: p}}.get(2, q)", T), ("{{2: q}}.get(n, [p, q][0])", T), ("{{1: l}}.get(n, m)", L), ("{{1: d}}.get(n, d)", D),
    ("(p, q)[1]", T), ("(n, p)[1]", T), ("(l, p)[0]", L), ("((p, l), n)[0][1]", L), ("(p, d)[1]", D), ("p if c else q", T), ("l if c else m", L), ("[p] if c else l", L), ("(l if c else m)[0]", T), ("[l, m] if c else [m]", LL),
    ("len([p, q])", "int"), ("len([l, m, l])", "int"), ("len(l)", "int"), ("len(d)", "int"), ("len([x for x in l])", "int"), ("bool(l)", "bool"), ("not l", "bool"), ("bool(d)", "bool"), ("not [p]", "bool"), ("1 if l else 0", "int"), ("1 if d else 0", "int"),
    ("str(p)", "str"), ("str([p])", "str"), ("str([p, q])", "str"), ("str(l)", "str"), ("str([l])", "str"), ("str([[p], l])", "str"), ("str(d)", "str"), ("str({{n: p}})", "str"), ("str([d])", "str"), ("str((p, l))", "str"), ('f"{{p}}{{l}}"', "str"), ("str(W(p, l, d))", "str"),
    ("W(p, l, d).p", T), ("W(p, l, d).l", L), ("W(p, l, d).d", D), ("W(p, [p, q], {{n: q}}).l[1]", T), ("W(p, [p, q], {{n: q}}).d[n]", T), ("[W(p, l, d)][0].p", T), ("[x.p for x in [W(p, l, d), W(q, m, d)]]", L), ("[x.l for x in [W(p, l, d), W(q, m, d)]]", LL), ("W(p, l, d)", "W"), ("[W(p, l, d)]", "List[W]"),
    ("idf(p)", T), ("idf([p, q][1])", T), ("idf(idf(p))", T), ("idl([p])", L), ("idl(l)[0]", T), ("idl([x for x in m])", L), ("idd({{n: p}})[n]", T), ("idd(d)", D), ("[idf(x) for x in l]", L), ("[idl(x) for x in [l, m]]", LL), ("two(p, q)", L), ("two(p, q)[1:]", L), ("lam(p)", T),
    ("x = p\nx", T), ("x = [p]\nx += l\nx", L), ("x = l\nx = x + [q]\nx", L), ("x: List[{T}] = []\nx", L), ("x: List[{T}] = []\nx += [p]\nx", L), ("x: List[List[{T}]] = []\nx += [l]\nx", LL), ("x: Dict[int, {T}] = {{}}\nx", D), ("x: {T} = p\nx", T), ("x, y = p, q\ny", T), ("x, y = l, d\nx", L), ("(x, y), z = (p, l), d\ny", L),
    ("x = l\nfor e in m:\n    x = x + [e]\nx", L), ("x = l\nfor e in m:\n    x = [e] + x\nx", L), ("x = p\nfor e in l:\n    x = e\nx", T), ("x = [l]\nfor e in m:\n    x = x + [[e]]\nx", LL), ("x: List[{T}] = []\nfor e in l:\n    x += [e, p]\nx", L), ("x: List[List[{T}]] = []\nfor e in l:\n    x = x + [[e]]\nx", LL),
    ("x = p\nfor k, v in d.items():\n    x = v\nx", T), ("x = l\nfor v in d.values():\n    x += [v]\nx", L), ("x = 0\nfor k in d.keys():\n    x += k\nx", "int"), ("x = q\nfor e in [l, m]:\n    for f in e:\n        x = f\nx", T), ("x = p\nfor e in [W(p, l, d)]:\n    x = e.l[0] if len(e.l) > 0 else e.p\nx", T),
    ("x = l\ni = 0\nwhile i < n:\n    x = x[1:]\n    i += 1\nx", L), ("x = l\nif c:\n    x = m\nx", L), ("if c:\n    x = p\nelse:\n    x = q\nx", T), ("x = p\nif c:\n    x = q\n[x, p]", L), ("def g(y: {T}) -> List[{T}]:\n    return [y, p]\ng(q)", L), ("def g(y: List[{T}]) -> {T}:\n    return (y + l)[0]\ng([q])", T), ("def g() -> Dict[int, {T}]:\n    return {{n: p}}\ng()[n]", T),
]
# not implemented for all types: may be refused, must be right where accepted
MAYBE = [
    ("p == q", "bool"), ("p != q", "bool"), ("p == p", "bool"), ("l == m", "bool"), ("l == l", "bool"), ("l != [p, q]", "bool"), ("l == [x for x in l]", "bool"), ("[l] == [m]", "bool"), ("[[p]] == [l]", "bool"), ("p in l", "bool"), ("q in [p, q]", "bool"), ("p not in l", "bool"), ("p in d.values()", "bool"),
    ("l.index(p)", "int"), ("[p, q].index(q)", "int"), ("[l, m].index(m)", "int"), ("n in d.keys()", "bool"), ("W(p, l, d) == W(q, m, d)", "bool"), ("W(p, l, d) == W(p, l, d)", "bool"), ("W(p, l, d) in [W(q, l, d), W(p, l, d)]", "bool"), ("[p, q] == l", "bool"), ("all([x == p for x in l])", "bool"), ("any([x == p for x in l])", "bool"),
    ("max(l)", T), ("min(l)", T), ("sum(l)", T),
]


def tasks(tier, seed, n=110, per=5, levels=("O0", "O1", "O2", "O3"), thorough=12, tag=""):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"tag": tag, "i": i, "per": per, "levels": list(levels)} for i in range(0, k, per)]


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "containers" + t["tag"], i)
        g = TyGen(rng, nrec=rng.randrange(1, 3), strs=True, anything=i % 7 == 0)
        ty = g.ty(rng.choice([0, 1, 1, 2, 2, 3]))
        decl = g.source() + (
            f"@dataclass()\nclass W(PlutusData):\n    CONSTR_ID = 4\n    p: {ty}\n    l: List[{ty}]\n    d: Dict[int, {ty}]\n\n\n"
            f"def idf(x: {ty}) -> {ty}:\n    return x\n\n\ndef idl(x: List[{ty}]) -> List[{ty}]:\n    return x\n\n\n"
            f"def idd(x: Dict[int, {ty}]) -> Dict[int, {ty}]:\n    return x\n\n\ndef two(x: {ty}, y: {ty}) -> List[{ty}]:\n    return [x, y]\n\n\n"
            f"def lam(x: {ty}) -> {ty}:\n    def g() -> {ty}:\n        return x\n    return g()\n\n\n"
        )
        sig = f"p: {ty}, q: {ty}, l: List[{ty}], m: List[{ty}], d: Dict[int, {ty}], n: int, c: bool"
        strs = "str" in ty or any("str" in f[1] for r in g.recs for f in r[2])
        picks = rng.sample(OPS, 9) + rng.sample(MAYBE, 4)
        for j, (op, res) in enumerate(picks):
            if strs and "W(" in op:
                continue  # no strings in records
            if res == "str" and "Anything" in decl.split("PlutusData\n", 1)[1]:
                continue  # the text of raw data is that of the object that pycardano reads
            body = op.format(T=ty).split("\n")
            head = decl if not strs else decl.replace(f"    p: {ty}\n    l: List[{ty}]\n    d: Dict[int, {ty}]\n", "    p: int\n")
            src = head + f"def validator({sig}) -> {res.format(T=ty)}:\n" + "".join(f"    {x}\n" for x in body[:-1]) + f"    return {body[-1]}\n"
            py = PyProgram(src)
            try:
                if py.load_error is not None:
                    rep.errors.append(f"containers {i}: {py.load_error!r} {op}")
                    continue
                sets = []
                for _ in range(3):
                    p, q = value(rng, py.mod, ty), value(rng, py.mod, ty)
                    if rng.random() < 0.3:
                        q = p
                    l, m = ([rng.choice([p, q, value(rng, py.mod, ty)]) for _ in range(rng.choice([0, 1, 2, 3]))] for _ in range(2))
                    d = {k: rng.choice([p, q]) for k in rng.sample([0, 1, 2, 7, -3], rng.randrange(0, 4))}
                    sets.append(repr([p, q, l, m, d, rng.choice([0, 1, 2, 3, -1]), rng.random() < 0.5]))
            finally:
                py.close()
            rep.event("programs")
            diff_case(rep, src, sets, levels=[rng.choice(t["levels"])], must_compile=j < 9, label=f"containers seed={seed} i={i} {op!r} of {ty}", unordered=False)
