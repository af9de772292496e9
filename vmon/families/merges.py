"""Variables that get values of different types on different paths: in the branches of ifs, as targets
of loops, below declarations with broader types, in narrowed branches and in nested functions."""
from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for
from vmon.typed import rand_args

TASK_LIMIT = 200
HEAD = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData


@dataclass()
class A(PlutusData):
    CONSTR_ID = 0
    pad: bytes
    x: int


@dataclass()
class B(PlutusData):
    CONSTR_ID = 1
    x: int
    pad: bytes


@dataclass()
class E(PlutusData):
    CONSTR_ID = 4


"""
BASE = ["int", "bytes", "A", "B", "E"]
PARAMS = [
    ("c", "int"), ("n", "int"), ("bs", "bytes"), ("a", "A"), ("b", "B"), ("u", "Union[A, B, int]"), ("v", "Union[bytes, int]"),
    ("w", "Union[A, B]"), ("z", "Anything"), ("li", "List[int]"), ("lu", "List[Union[A, int, bytes]]"), ("la", "List[Anything]"),
]
SETS = {"u": {"A", "B", "int"}, "v": {"bytes", "int"}, "w": {"A", "B"}}


def tasks(tier, seed, n=40, per=2, levels=("O0", "O2", "O3"), thorough=12, tag=""):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per, "levels": list(levels), "tag": tag} for i in range(0, k, per)]


def ann(s):
    s = sorted(s)
    return "Anything" if "Any" in s else s[0] if len(s) == 1 else f"Union[{', '.join(s)}]"


class MG:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.size = 0
        self.blocked = set()
        self.dead = set()

    def fresh(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def lit(self, t):
        r = self.r
        if t == "int":
            return r.choice(["1", "n", "c + 2", "-7", "len(bs)", "a.x", "b.x", "sum(li)"])
        if t == "bytes":
            return r.choice(["b'ab'", "bs", "b''", "bs + b'q'", "a.pad", "bs[1:]"])
        if t == "A":
            return r.choice(["a", "A(bs, n)", "A(b'', 4)"])
        if t == "B":
            return r.choice(["b", "B(c, b'x')", "B(1, bs)"])
        if t == "E":
            return "E()"
        return r.choice(["z", "la[0] if len(la) > 0 else z"])

    def expr(self, env, want=None):
        """an expression and the set of its possible types; the types are within want"""
        r = self.r
        fits = [(v, s) for v, s in env.items() if (want is None or s <= want or "Any" in want)]
        if fits and r.random() < 0.45:
            return r.choice(fits)
        ts = [t for t in BASE if want is None or t in want or "Any" in want]
        if want is not None and "Any" in want and r.random() < 0.4:
            return self.lit("Any"), {"Any"}
        if not ts:
            return self.lit("Any"), {"Any"}
        if len(ts) > 1 and r.random() < 0.2:
            p, q = r.sample(ts, 2)
            return f"({self.lit(p)} if {self.cond()} else {self.lit(q)})", {p, q}
        t = r.choice(ts)
        return self.lit(t), {t}

    def cond(self):
        return self.r.choice(["c > 2", "c % 2 == 0", "n < c", "len(bs) > 1", "len(li) > 0", "a.x > c"])

    def use(self, v, s):
        r = self.r
        if "Any" in s:
            return [f"out = out + [{v}]"]
        if len(s) == 1:
            (t,) = s
            return r.choice(
                [{"int": [f"print('i', {v} + 1)"], "bytes": [f"print('b', len({v}))"], "E": [f"print('e', {v} == E())"]}.get(t, [f"print('x', {v}.x)"]),
                 [f"print({v})"], [f"out = out + [{v}]"]]
            )
        q = r.random()
        if q < 0.2:
            return [f"print({v})"]
        if q < 0.4:
            return [f"out = out + [{v}]"]
        if q < 0.55:
            return [f"{self.fun(s)}({v})"]
        if s == {"A", "B"} and q < 0.7:
            return [f"print({v}.x, {v}.pad)"]
        lines = []
        order = r.sample(sorted(s), len(s))
        for i, t in enumerate(order):
            last = i == len(order) - 1
            body = {"int": f"print('int', {v} * 2)", "bytes": f"print('bytes', {v} + b'!')", "E": "print('E')"}.get(t, f"print('{t}', {v}.x, {v}.pad)")
            lines += [("else:" if last and r.random() < 0.6 else f"{'if' if i == 0 else 'elif'} isinstance({v}, {t}):"), "    " + body]
        return lines

    def fun(self, s):
        name = self.fresh("f")
        u = MG(self.r)
        u.fun = lambda s: "print"
        body = []
        while not body or any(l.startswith("out") for l in body):
            body = u.use("p", s)
        self.funs += [f"def {name}(p: {ann(s)}) -> None:"] + ["    " + l for l in body] + ["", ""]
        return name

    def block(self, env, depth, n):
        r = self.r
        out = []
        for _ in range(n):
            self.size += 1
            k = r.random()
            free = [v for v in ("y0", "y1", "y2") if v not in self.blocked | self.dead]
            if k < 0.3 or depth <= 0:
                if not free:
                    continue
                v = r.choice(free)
                if v in env:
                    e, s = self.expr(env, env[v])
                    out.append(f"{v} = {e}")
                elif r.random() < 0.3:
                    s = set(r.sample(BASE, r.choice([1, 2, 3])))
                    if r.random() < 0.2:
                        s = {"Any"}
                    e, _ = self.expr(env, s)
                    out.append(f"{v}: {ann(s)} = {e}")
                    env[v] = s
                else:
                    e, s = self.expr(env)
                    out.append(f"{v} = {e}")
                    env[v] = set(s)
            elif k < 0.58:
                e1, e2 = dict(env), dict(env)
                keep = set(self.blocked)
                v = None
                many = [x for x, s in env.items() if len(s) > 1 and x not in self.narrow]
                if many and r.random() < 0.5:
                    v = r.choice(many)
                    t = r.choice(sorted(env[v]))
                    test, e1[v], e2[v] = f"isinstance({v}, {t})", {t}, env[v] - {t}
                    if r.random() < 0.3:
                        test, e1[v], e2[v] = f"not {test}", e2[v], e1[v]
                    self.blocked.add(v)
                    self.narrow.add(v)
                else:
                    test = self.cond()
                b1 = self.block(e1, depth - 1, r.randrange(1, 4))
                # names first bound in one branch only are not to be used afterwards
                b2 = self.block(e2, depth - 1, r.randrange(1, 4))
                for x in sorted(self.dead & set(e1) | self.dead & set(e2)):
                    e1.pop(x, None)
                    e2.pop(x, None)
                for x in sorted((set(e1) ^ set(e2))):
                    eb, bb = (e2, b2) if x in e1 else (e1, b1)
                    e, s = self.expr({q: t for q, t in eb.items() if q != x})
                    bb.append(f"{x} = {e}")
                    eb[x] = set(s)
                self.blocked = keep
                self.narrow.discard(v)
                out += [f"if {test}:"] + ["    " + l for l in b1] + ["else:"] + ["    " + l for l in b2]
                for x in e1:
                    if x == v or x in self.dead:
                        continue
                    s = e1[x] | e2[x]
                    env[x] = {"Any"} if "Any" in s else s
            elif k < 0.7:
                # a loop whose target may be declared with a broader type
                v = r.choice(free) if free and r.random() < 0.6 else self.fresh("e")
                it, s = r.choice([("li", {"int"}), ("[n, 3]", {"int"}), ("[bs, b'k']", {"bytes"}), ("[a]", {"A"}), ("[c] + li", {"int"}), ("[b, B(2, bs)]", {"B"}), ("lu", {"A", "int", "bytes"})])
                if v in env and not (s <= env[v] or "Any" in env[v]):
                    continue
                e = dict(env)
                inner = dict(env)
                inner[v] = env.get(v, s)
                keep = set(self.blocked)
                self.blocked |= {v} | ({"y0", "y1", "y2"} - set(env))
                body = self.block(inner, depth - 1, r.randrange(1, 3)) + self.use(v, inner[v])
                self.blocked = keep
                out += [f"for {v} in {it}:"] + ["    " + l for l in body]
                if v not in env and v[0] == "y":
                    self.dead.add(v)
                if v in env and r.random() < 0.7:
                    out += self.use(v, env[v])
            elif k < 0.76 and len(free) >= 2:
                p, q = r.sample(free, 2)
                (e1, s1), (e2, s2) = self.expr(env, env.get(p)), self.expr(env, env.get(q))
                out.append(f"{p}, {q} = {e1}, {e2}")
                env.setdefault(p, set(s1))
                env.setdefault(q, set(s2))
            elif k < 0.82 and free:
                w = self.fresh("k")
                inner = dict(env)
                keep = set(self.blocked)
                self.blocked |= {"y0", "y1", "y2"} - set(env)
                body = self.block(inner, depth - 1, r.randrange(1, 3))
                self.blocked = keep
                out += [f"{w} = 0", f"while {w} < 2:"] + ["    " + l for l in body] + [f"    {w} += 1"]
            else:
                cs = [(v, s) for v, s in env.items()]
                if cs:
                    out += self.use(*r.choice(cs))
        return out or ["print('p')"]

    def program(self):
        r = self.r
        self.funs = []
        self.narrow = set()
        env = {k: set(s) for k, s in SETS.items() if r.random() < 0.7}
        # parameters keep their value
        self.blocked = set()
        body = ["out: List[Anything] = []"] + self.block(env, 3, r.randrange(4, 8))
        for v, s in env.items():
            if r.random() < 0.8:
                body += self.use(v, s)
        ys = [v for v in env if v[0] == "y"]
        body.append(r.choice(["return out"] + [f"return {v}" for v in ys] + ["return out" if not ys else f"return out + [{r.choice(ys)}]"]))
        sig = f"def validator({', '.join(f'{p}: {t}' for p, t in PARAMS)}) -> Anything:"
        return HEAD + "\n".join(self.funs + [sig] + ["    " + l for l in body]) + "\n"


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "merges", t["tag"], i)
        src = MG(rng).program()
        py = PyProgram(src)
        try:
            if py.load_error is not None:
                rep.errors.append(f"merges {i}: {py.load_error!r}")
                continue
            args = []
            for _ in range(14):
                one = list(rand_args(rng, py.mod))
                one[0] = rng.randrange(-1, 6)
                args.append(repr(one))
        finally:
            py.close()
        rep.event("programs")
        diff_case(rep, src, args, levels=rng.sample(t["levels"], min(2, len(t["levels"]))), must_compile=True, label=f"merges seed={seed} {t['tag']} i={i}", shrinkable=True, trace=True, stock=1)
