"""Operations that may fail, in every place where Python may or may not evaluate them.

Indexing, division, dict lookup, list.index and variables that are bound on some paths only occur as operands of
chained comparisons, boolean operators, conditional expressions, comprehensions and assertions, in dead assignments,
expression statements, and in nested functions. Both executions must fail or succeed alike and agree on the result."""
from vmon.diff import diff_case, rng_for
from vmon.families.flags import SINGLE

TASK_LIMIT = 150


def tasks(tier, seed, n=120, per=4, levels=("O0", "O2", "O3"), thorough=12, tag="", flags=0):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per, "levels": list(levels), "tag": tag, "flags": flags} for i in range(0, k, per)]


class Pt:
    def __init__(self, rng):
        self.r = rng
        self.uid = 0

    def fresh(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def const(self):
        return str(self.r.choice([0, 0, 1, 1, 2, 3, -1, 5]))

    def nz(self, e):
        """mostly not zero"""
        return f"({e} * {e} + 1)" if self.r.random() < 0.6 else e

    def int(self, vs, d=2):
        r = self.r
        k = r.randrange(16)
        sub = lambda: self.int(vs, d - 1)
        if d <= 0 or k < 5:
            return r.choice(vs) if r.random() < 0.8 else self.const()
        if k == 5:
            return f"({sub()} {r.choice(['//', '%'])} {self.nz(sub())})"
        if k in (6, 7):
            return f"xs[{sub()}]"
        if k == 8:
            return f"d[{sub()}]"
        if k == 9:
            return f"xs.index({sub()})"
        if k == 10:
            return f"s[{sub()}]"
        if k == 11:
            return f"({sub()} if {self.bool(vs, d - 1)} else {sub()})"
        if k == 12:
            return f"({sub()} {r.choice('+-*')} {sub()})"
        if k == 13 and self.funs:
            return f"{r.choice(self.funs)}({sub()})"
        if k == 14:
            return f"p({self.fresh('')}, {sub()})"
        q = self.fresh("q")
        return f"len([{self.int(vs + [q], d - 1)} for {q} in xs if {self.bool(vs + [q], d - 1)}])"

    def bool(self, vs, d=2):
        r = self.r
        k = r.randrange(12)
        i = lambda: self.int(vs, d - 1)
        b = lambda: self.bool(vs, d - 1)
        ops = ["<", "<=", ">", ">=", "==", "!="]
        if d <= 0 or k < 2:
            return f"{self.int(vs, d)} {r.choice(ops)} {self.int(vs, d)}"
        if k < 6:
            n = r.choice([3, 3, 4])
            out = i()
            for _ in range(n - 1):
                out += f" {r.choice(ops[:5])} {i()}"
            return out
        if k < 9:
            op = r.choice([" and ", " or "])
            return op.join(f"({b()})" for _ in range(r.choice([2, 2, 3])))
        if k == 9:
            return f"not ({b()})"
        if k == 10:
            return f"{i()} {r.choice(['in', 'not in'])} xs"
        return f"({b()} if {b()} else {b()})"

    def block(self, vs, depth):
        out = []
        for _ in range(self.r.randrange(1, 3)):
            out += self.stmt(vs, depth)
        return out

    def ind(self, ls):
        return ["    " + x for x in ls]

    def stmt(self, vs, depth):
        r = self.r
        k = r.randrange(17)
        if depth > 0 and k < 4:
            inner = list(vs)
            out = [f"if {self.bool(vs)}:"] + self.ind(self.block(inner, depth - 1))
            names = [v for v in inner if v not in vs]
            if r.random() < 0.4:
                other = list(vs)
                out += ["else:"] + self.ind(self.block(other, depth - 1))
                names += [v for v in other if v not in vs]
            vs += names  # possibly unbound from here on
            if names and r.random() < 0.4:
                out += self.touch(r.choice(names))
            return out
        if depth > 0 and k == 4:
            q = self.fresh("f")
            inner = vs + [q]
            out = [f"for {q} in {r.choice(['xs', 'xs', 'xs[1:]', 'range(a)'])}:"] + self.ind(self.block(inner, depth - 1))
            names = [v for v in inner if v not in vs]
            vs += names
            if r.random() < 0.4:
                out += self.touch(r.choice(names))
            return out
        if depth > 0 and k == 5:
            n = self.fresh("w")
            inner = vs + [n]
            body = self.block(inner, depth - 1)
            out = [f"{n} = {r.randrange(3)}", f"while {n} > 0 and ({self.bool(vs)}):"] + self.ind([f"{n} -= 1"] + body)
            names = [v for v in inner if v not in vs]
            vs += names
            if r.random() < 0.4:
                out += self.touch(r.choice(names))
            return out
        if k == 6 and depth > 1:
            g = self.fresh("g")
            saved, self.funs = self.funs, list(self.funs)
            body = self.block(vs + ["y"], 0)
            e = self.int(vs + ["y"])
            self.funs = saved
            out = [f"def {g}(y: int) -> int:"] + self.ind(["r = y"] + body + [f"return {e}"])
            if r.random() < 0.8:
                self.funs.append(g)
            return out
        if k == 7:
            return [f"assert {self.bool(vs)}"]
        if k == 8:
            return [self.int(vs)]  # the value is not used
        if k == 9:
            return [r.choice(vs)]
        if k == 10:
            return [f"{self.fresh('dead')} = {r.choice(vs)}"]
        if k == 11:
            return [f"{self.fresh('dead')}: int = {self.int(vs)}"]
        if k in (12, 13):
            n = self.fresh("n")
            e = self.int(vs)
            vs.append(n)
            return [f"{n} = {e}"]
        if k == 14:
            return [f"r = r * 3 + (1 if {self.bool(vs)} else 2)"]
        if k == 15:
            return [f"{self.fresh('dead')} = {self.bool(vs)}"]
        return [f"r += {self.int(vs)}"]

    def touch(self, v):
        """read a variable (that may be unbound) for nothing"""
        n = self.fresh("dead")
        return self.r.choice([
            [f"{n} = {v}"], [f"{n} = {v}"], [v], [f"{n}: int = {v}"], [f"{n} = {v} + 1"], [f"{n} = [{v}]"], [f"{n} = {v}", f"{n}b = {n}"],
            [f"if a > 1:", f"    {n} = {v}"], [f"for {n}q in xs:", f"    {n} = {v}"], [f"def {n}() -> int:", f"    return {v}"],
            [f"def {n}() -> int:", f"    m = {v}", "    return 1", f"r += {n}()"],
        ])

    def program(self):
        r = self.r
        self.funs = []
        vs = ["a", "b", "r"]
        body = ["r = a"]
        for _ in range(r.randrange(1, 5)):
            body += self.stmt(vs, 2)
        if r.random() < 0.5:
            body.append(f"return {self.int(vs)} + r")
        else:
            body.append("return r")
        return (
            "from typing import Dict, List\n"
            "def p(n: int, v: int) -> int:\n    print('p', n)\n    return v\n"
            "def validator(a: int, b: int, xs: List[int], d: Dict[int, int], s: bytes) -> int:\n" + "\n".join(self.ind(body)) + "\n"
        )


def args(r):
    n = r.choice([0, 2, 3, 4, 4, 6])
    ks = r.sample([0, 1, 2, 3, -1, 5], r.choice([0, 4, 5, 6]))
    return (
        r.choice([0, 1, 1, 2, 2, 3, -1, -2]),
        r.choice([0, 1, 1, 2, 2, -1]),
        [r.choice([0, 1, 1, 2, 2, -1]) for _ in range(n)],
        {k: r.choice([0, 1, 1, 2]) for k in ks},
        bytes(r.choice([0, 1, 1, 2]) for _ in range(r.choice([0, 3, 5]))),
    )


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "partial", t["tag"], i)
        src = Pt(rng).program()
        rep.event("programs")
        levels = list(t["levels"]) + rng.sample(SINGLE, t["flags"])
        diff_case(rep, src, [args(rng) for _ in range(8)], levels=levels, must_compile=False, trace=True, label=f"partial operations seed={seed} i={i}", shrinkable=True)
