"""Random control-flow skeletons: every path traces, every decision depends on the input.

Bodies nest if/elif/else, for, while (with else), early returns on some or on all paths, asserts,
dead code, nested functions reading and shadowing outer names, and variables bound on some paths only."""
from vmon.diff import diff_case, rng_for

TASK_LIMIT = 150


def tasks(tier, seed, n=120, per=4, levels=("O0", "O2", "O3"), thorough=12, tag=""):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per, "levels": list(levels), "tag": tag} for i in range(0, k, per)]


class Sk:
    def __init__(self, rng):
        self.r = rng
        self.uid = 0
        self.budget = rng.randrange(6, 22)
        self.features = set()

    def fresh(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def cond(self, vs):
        r = self.r
        v = r.choice(vs)
        k = r.randrange(10)
        if k == 0:
            return f"{v} % 2 == 0"
        if k == 1:
            return f"{v} > {r.choice(vs)}"
        if k == 2:
            return f"{v} < {r.randrange(-1, 9)} and {r.choice(vs)} != 3"
        if k == 3:
            return f"{v} == 1 or {r.choice(vs)} > {r.randrange(4)}"
        if k == 4:
            return f"not {v} <= {r.randrange(5)}"
        if k == 5:
            return f"t({self.tag()}, {v}) > 2"
        if k == 6:
            return f"len(xs) > {r.randrange(3)}"
        if k == 7:
            return f"0 < {v} < {r.randrange(1, 6)}"
        return f"{v} > {r.randrange(-1, 6)}"

    def tag(self):
        self.uid += 1
        return self.uid

    def expr(self, vs):
        r = self.r
        v = r.choice(vs)
        k = r.randrange(8)
        if k == 0:
            return f"t({self.tag()}, {v})"
        if k == 1:
            return f"{v} + {r.choice(vs)}"
        if k == 2:
            return f"({v} if {self.cond(vs)} else {r.choice(vs)} - 1)"
        if k == 3:
            return str(r.randrange(-3, 12))
        if k == 4:
            return f"{v} * 2 - {r.choice(vs)}"
        if k == 5 and self.funs:
            return f"{r.choice(self.funs)}({v})"
        if k == 6:
            return f"len([q for q in xs if q > {v}])"
        return v

    def block(self, vs, depth, infun, must_return=False):
        """vs: names that may be read; returns lines (unindented), possibly extending vs"""
        r = self.r
        out = []
        visible = list(self.funs)  # functions defined in here are not visible outside
        for _ in range(r.randrange(1, 4)):
            if self.budget <= 0:
                break
            out += self.stmt(vs, depth, infun)
        if must_return:
            if r.random() < 0.35 and depth > 0:
                self.features.add("all_paths_return")
                c = self.cond(vs)
                a = self.block(list(vs), depth - 1, infun, True)
                b = self.block(list(vs), depth - 1, infun, True)
                out += [f"if {c}:"] + ind(a) + ["else:"] + ind(b)
            else:
                out.append(f"return {self.expr(vs)}")
            if r.random() < 0.12:
                self.features.add("dead_code")
                out += [f"print('dead', {r.choice(vs)})"]
        if not out:
            out.append("pass")
        self.funs = visible
        return out

    def stmt(self, vs, depth, infun):
        r = self.r
        self.budget -= 1
        k = r.random()
        if depth <= 0 or k < 0.38:
            c = r.randrange(8)
            if c == 0:
                n = self.fresh("n")
                e = self.expr(vs)
                vs.append(n)
                return [f"{n} = {e}"]
            if c == 1:
                return [f"print('{self.tag()}', {r.choice(vs)})"]
            if c == 2 and r.random() < 0.4:
                self.features.add("assert")
                return [f"assert {self.cond(vs)} or {r.choice(vs)} > {r.randrange(3)}, 'm{self.tag()}'"]
            if c == 3:
                n = r.choice(vs)
                if n in self.const:
                    return ["pass"]
                return [f"{n} {r.choice(['+', '-'])}= {self.expr(vs)}"]
            if c == 4:
                a, b = r.choice(vs), r.choice(vs)
                if a == b or a in self.const or b in self.const:
                    return [f"print({a})"]
                self.features.add("swap")
                return [f"{a}, {b} = {b}, {a}"]
            n = r.choice(vs)
            if n in self.const:
                return [f"print(t({self.tag()}, {n}))"]
            return [f"{n} = {self.expr(vs)}"]
        if k < 0.62:
            c = self.cond(vs)
            x = r.random()
            ret = r.random() < 0.3
            a = self.block(list(vs), depth - 1, infun, ret)
            out = [f"if {c}:"] + ind(a)
            if x < 0.25:
                out += [f"elif {self.cond(vs)}:"] + ind(self.block(list(vs), depth - 1, infun, r.random() < 0.3))
            if x < 0.6:
                # names bound in one branch only may be read later: both sides must fail alike
                ret2 = r.random() < 0.3
                if ret and ret2:
                    self.features.add("both_return")
                out += ["else:"] + ind(self.block(list(vs), depth - 1, infun, ret2))
            return out
        if k < 0.78:
            self.features.add("for")
            x = self.fresh("i")
            it = r.choice(["xs", "range(3)", "xs[1:]", "[5, 1, 2]", f"range({r.choice(vs)} % 4)", "reversed(xs)"]) if r.random() < 0.85 else "[q + 1 for q in xs]"
            inner = list(vs) + [x]
            self.const.add(x)
            ret = r.random() < 0.25
            if ret:
                self.features.add("loop_returns")
            out = [f"for {x} in {it}:"] + ind(self.block(inner, depth - 1, infun, ret))
            if r.random() < 0.15:
                self.features.add("for_else")
                out += ["else:"] + ind(self.block(list(vs), depth - 1, infun, r.random() < 0.3))
            if r.random() < 0.2:
                self.features.add("loop_target_after")
                out += [f"if len({it if it[0] in 'x[' else 'xs'}) > 0 and len(xs) > 1:"] + ind([f"print({x})"])
            return out
        if k < 0.9:
            self.features.add("while")
            w = self.fresh("w")
            self.const.add(w)
            inner = list(vs) + [w]
            ret = r.random() < 0.2
            cond = f"{w} > 0" + (f" and ({self.cond(vs)})" if r.random() < 0.3 else "")
            out = [f"{w} = {r.choice(vs)} % {r.randrange(2, 5)}", f"while {cond}:"] + ind([f"{w} -= 1"] + self.block(inner, depth - 1, infun, ret))
            if r.random() < 0.15:
                self.features.add("while_else")
                out += ["else:"] + ind(self.block(list(vs), depth - 1, infun, r.random() < 0.3))
            return out
        if infun < 2:
            self.features.add("closure")
            f = self.fresh("f")
            p = r.choice(vs) if r.random() < 0.3 else self.fresh("p")  # shadows an outer name
            saved, self.const = self.const, set(self.const) | set(vs)
            if p in self.const:
                self.const.discard(p)
            funs = list(self.funs)
            inner = [v for v in vs if v != p] + [p]
            body = self.block(inner, depth - 1, infun + 1, True)
            self.const = saved
            self.funs = funs + [f]
            vs_out = [f"def {f}({p}: int) -> int:"] + ind(body)
            return vs_out + [f"print('{f}', {f}({r.choice(vs)}))"]
        return ["pass"]

    def program(self):
        r = self.r
        self.funs, self.const = [], {"k"}
        body = self.block(["k", "a", "b"], 3, 0, True)
        pre = []
        if r.random() < 0.4:
            pre.append(f"a = {r.randrange(9)}" if r.random() < 0.5 else f"G = {r.randrange(9)}")
        return "\n".join(
            ["from typing import Dict, List, Union", "", "def t(tag: int, v: int) -> int:", "    print('t', tag, v)", "    return v", ""]
            + pre
            + ["", "def validator(k: int, a: int, b: int, xs: List[int]) -> int:"]
            + ind(body)
        ) + "\n"


def ind(lines):
    return ["    " + l for l in lines]


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "skeleton", t["tag"], i)
        g = Sk(rng)
        src = g.program()
        args = []
        for _ in range(10):
            args.append([rng.randrange(-2, 8), rng.randrange(-1, 6), rng.randrange(-1, 6), [rng.randrange(-2, 7) for _ in range(rng.choice([0, 0, 1, 2, 3]))]])
        args[0][3] = []
        rep.event("programs")
        for f in g.features:
            rep.event("feature_" + f)
        diff_case(rep, src, args, levels=t["levels"], label=f"skeleton seed={seed} {t['tag']} i={i}",
                  shrinkable=True, trace=True, stock=1)
