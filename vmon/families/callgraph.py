"""Call graphs: functions, methods and operators that call each other through long chains, defined in any
order, in nested scopes, with captured variables that are defined or assigned later, shadowed names and aliases."""
from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for

TASK_LIMIT = 200
HEAD = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData


"""
DUNDERS = [("__lt__", "<", "bool"), ("__eq__", "==", "bool"), ("__ge__", ">=", "bool"), ("__ne__", "!=", "bool"), ("__add__", "+", "int"), ("__sub__", "-", "int"), ("__contains__", "in", "bool")]


def tasks(tier, seed, n=80, per=4, levels=("O0", "O1", "O2", "O3"), thorough=12, tag=""):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per, "levels": list(levels), "tag": tag} for i in range(0, k, per)]


class Scope:
    def __init__(self, up=None):
        self.up = up
        self.funs = {}  # name -> set of names of this scope that its body uses (directly)
        self.vars = set()

    def visible(self):
        funs, vars = (self.up.visible() if self.up else ({}, {}))
        funs, vars = dict(funs), dict(vars)
        for f in self.funs:
            funs[f] = self
            vars.pop(f, None)
        for v in self.vars:
            vars[v] = self
            funs.pop(v, None)
        return funs, vars


class CG:
    def __init__(self, rng):
        self.r = rng
        self.classes = {}
        self.budget = 14

    def leaf(self, sc, use):
        r = self.r
        _, vs = sc.visible()
        cs = [v for v in vs]
        k = r.random()
        if cs and k < 0.55:
            v = r.choice(cs)
            use(v, vs[v])
            return v
        if k < 0.75:
            return str(r.randrange(0, 9))
        return r.choice(["n", "t"])

    def intx(self, sc, use):
        r = self.r
        a = self.leaf(sc, use)
        if r.random() < 0.5:
            return a
        return f"({a} {r.choice('+-*')} {self.leaf(sc, use)})"

    def call(self, sc, use, prefer=()):
        """an int expression with one call (the first argument decreases)"""
        r = self.r
        fs, _ = sc.visible()
        names = [f for f in fs]
        k = r.random()
        if self.classes and k < 0.35:
            cls = r.choice(sorted(self.classes))
            obj = f"{cls}(n - 1, {self.intx(sc, use)})"
            m = r.choice(self.classes[cls])
            use(cls, None)
            for d, op, typ in DUNDERS:
                if d == m:
                    other = f"{cls}({r.randrange(0, 2)}, {self.leaf(sc, use)})"
                    e = f"{self.intx(sc, use)} {r.choice(['in', 'not in'])} {obj}" if op == "in" else f"{obj} {op} {other}"
                    if op in ("<", "==", ">=", "!=") and r.random() < 0.4:
                        ops = [o for q, o, _ in DUNDERS if q in self.classes[cls] and o in ("<", "==", ">=", "!=")]
                        ops += ["!="] * ("==" in ops)
                        e = f"{obj} {r.choice(ops)} {other}" + "".join(f" {r.choice(ops)} {cls}({r.randrange(0, 2)}, {self.leaf(sc, use)})" for _ in range(r.randrange(1, 3)))
                    elif m == "__eq__" and "__ne__" not in self.classes[cls] and r.random() < 0.5:
                        e = e.replace("==", "!=")
                    if typ == "bool":
                        return r.choice([f"(1 if {e} else 2)", f"int({e})", f"(3 if not ({e}) else 4)", f"({self.leaf(sc, use)} if n > 0 and {e} else 5)"])
                    return f"({e})"
            if m == "__neg__":
                return f"(-{obj})"
            return f"{obj}.{m}({self.intx(sc, use)})"
        if not names:
            return self.intx(sc, use)
        f = r.choice(list(prefer) or names) if r.random() < 0.5 else r.choice(names)
        use(f, fs[f])
        a = self.intx(sc, use)
        if r.random() < 0.1:
            return f"sum([{f}(n - 1, x) for x in [{a}, 3]])"
        if r.random() < 0.1 and f[0] != "h":
            return f"{f}(n=n - 1, t={a})"
        return f"{f}(n - 1, {a})"

    def body(self, sc, depth, use, fuel="n", ret="int"):
        """lines of a function body; sc is the scope of the body"""
        r = self.r
        out = []
        if r.random() < 0.5:
            self.size = getattr(self, "size", 0) + 1
            out.append(f"print('{self.size}')")
        inner_names = []
        if depth > 0 and r.random() < (0.55 if depth > 1 else 0.35) and self.budget > 0:
            lines, inner_names = self.group(sc, depth - 1, r.randrange(1, 4), r.randrange(0, 3), use)
            out += lines
        leaf = self.intx(sc, use)
        cond = f"{fuel} <= 0" + ("" if r.random() < 0.8 else f" or t == {r.randrange(4)}")
        fin = lambda e: e if ret == "int" else f"{e} {r.choice(['<', '==', '>='])} {self.leaf(sc, use)}"
        out += [f"if {cond}:", f"    return {fin(leaf)}"]
        k = r.random()
        c1 = self.call(sc, use, inner_names)
        if k < 0.3:
            out.append(f"return {fin(c1 + ' + ' + self.intx(sc, use))}")
        elif k < 0.5:
            out.append(f"return {fin(c1 + r.choice([' + ', ' - ']) + self.call(sc, use, inner_names))}")
        elif k < 0.7:
            out += [f"if {self.leaf(sc, use)} > {r.randrange(5)}:", f"    return {fin(c1)}", f"return {fin(self.call(sc, use, inner_names))}"]
        elif k < 0.85:
            out += [f"r = {c1}", f"for x in [{self.leaf(sc, use)}, 2]:", f"    r += {self.call(sc, use, inner_names) if r.random() < 0.5 else 'x'}", f"return {fin('r')}"]
        else:
            out += [f"assert {c1} != {r.randrange(-3, 9)}, 'no'", f"return {fin(self.call(sc, use, inner_names))}"]
        return out

    def group(self, sc, depth, nf, nv, use):
        """definitions of functions and variables of a scope in random order"""
        r = self.r
        pool = ["f", "g", "k"] if depth < 2 else ["f"]
        names = []
        while len(names) < nf:
            c = f"{r.choice(pool)}{r.randrange(6)}"
            if c not in names:
                names.append(c)
        for f in names:
            sc.funs[f] = set()
        vs = []
        while len(vs) < nv:
            c = f"p{r.randrange(5)}"
            if c not in vs:
                vs.append(c)
        # variables are assigned from outer ones only
        items = []
        outer = Scope(sc.up) if sc.up else Scope()
        for v in vs:
            items.append(("var", v, [f"{v} = {self.safe(outer, use, vs + names)}"]))
            if r.random() < 0.35:
                items.append(("var", v, [f"{v} = {self.safe(outer, use, vs + names)}"]))
        sc.vars |= set(vs)
        for f in names:
            self.budget -= 1
            inner = Scope(sc)

            def fuse(n, at, f=f):
                if at is sc:
                    sc.funs[f].add(n)
                else:
                    use(n, at)

            ls = self.body(inner, depth, fuse)
            items.append(("fun", f, [f"def {f}(n: int, t: int) -> int:"] + ["    " + l for l in ls]))
        r.shuffle(items)
        if r.random() < 0.25:
            # an alias, after its target
            i = r.choice([i for i, it in enumerate(items) if it[0] == "fun"])
            h = f"h{r.randrange(3)}"
            sc.funs[h] = {items[i][1]}
            items.insert(r.randrange(i + 1, len(items) + 1), ("fun", h, [f"{h} = {items[i][1]}"]))
            names.append(h)
        lines = []
        defined = set()
        for i, (kind, name, ls) in enumerate(items):
            if sc.up is not None and name[0] != "h" and r.random() < 0.3 and (kind == "var" or self.closure(sc, name) <= defined | {name}) and not any(name in self.closure(sc, f) for f in defined if f in sc.funs):
                ls = [r.choice(["if n < 9:", "for q in [n]:"])] + ["    " + l for l in ls]
            lines += ls
            defined.add(name)
            # calls before the rest is defined
            ready = [f for f in names if self.closure(sc, f) <= defined]
            if sc.up is not None and ready and i + 1 < len(items) and r.random() < 0.3:
                lines.append(f"print(str({r.choice(ready)}({r.randrange(0, 2)}, t)))")
        return lines, names

    def safe(self, outer, use, exclude):
        r = self.r
        _, vs = outer.visible()
        cs = [v for v in vs if v not in exclude]
        if outer.up is None:
            return str(r.randrange(-3, 9))
        a = r.choice(cs) if cs and r.random() < 0.5 else "t"
        if a != "t":
            use(a, vs[a])
        return f"{a} + {r.randrange(9)}"

    def closure(self, sc, f):
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [y for y in sc.funs.get(x, ())]
        return seen

    def program(self):
        r = self.r
        top = Scope()
        ncls = r.choice([0, 1, 1, 2])
        for i in range(ncls):
            ms = r.sample([d for d, _, _ in DUNDERS], r.randrange(0, 3)) + r.sample(["m", "w"], r.randrange(0, 3))
            if r.random() < 0.2:
                ms.append("__neg__")
            self.classes[f"K{i}"] = ms or ["m"]
        use = lambda n, at: None
        lines, names = None, None
        # the definitions of the module in any order
        nv = r.randrange(0, 4)
        nf = r.randrange(2, 7)
        marks = []
        sc = top
        chunks = self.module(sc, nf, nv, use)
        for c in sorted(self.classes):
            ls = ["@dataclass()", f"class {c}(PlutusData):", f"    CONSTR_ID = {c[1:]}", "    n: int", "    t: int"]
            for m in self.classes[c]:
                inner = Scope(sc)
                ret = dict((d, t) for d, _, t in DUNDERS).get(m, "int")
                if m == "__neg__":
                    sig = "self"
                elif m == "__contains__":
                    sig = "self, o: int"
                elif m.startswith("__"):
                    sig = f"self, o: '{c}'"
                else:
                    sig = "self, o: int"
                body = ["n = self.n", "t = self.t" if m == "__neg__" else "t = self.t + o" if "int" in sig else "t = self.t - o.t"]
                body += self.body(inner, 1 if r.random() < 0.3 else 0, use, ret=ret)
                ls += [f"    def {m}({sig}) -> {ret}:"] + ["        " + l for l in body]
            chunks.append(ls)
        val = self.body(Scope(sc), 2, use)
        chunks.append(["def validator(n: int, t: int) -> int:"] + ["    " + l for l in val])
        # classes stay in front of the functions (their names occur in annotations only)
        cls = [c for c in chunks if c[0].startswith("@")]
        rest = [c for c in chunks if not c[0].startswith("@")]
        r.shuffle(rest)
        for c in cls:
            rest.insert(r.randrange(0, 2) if r.random() < 0.7 else r.randrange(0, len(rest) + 1), c)
        # several assignments of a variable keep their order by construction (values are constants)
        return HEAD + "\n\n".join("\n".join(c) for c in rest) + "\n"

    def module(self, sc, nf, nv, use):
        r = self.r
        names = [f"{r.choice('fg')}{i}" for i in range(nf)]
        for f in names:
            sc.funs[f] = set()
        vs = [f"p{i}" for i in range(nv)]
        chunks = []
        for v in vs:
            chunks.append([f"{v} = {r.randrange(-3, 9)}"])
        sc.vars |= set(vs)
        for f in names:
            self.budget -= 1
            ls = self.body(Scope(sc), 2, use)
            chunks.append([f"def {f}(n: int, t: int) -> int:"] + ["    " + l for l in ls])
        return chunks


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "callgraph", t["tag"], i)
        src = CG(rng).program()
        py = PyProgram(src)
        load = py.load_error
        py.close()
        if load is not None:
            rep.errors.append(f"callgraph {i}: {load!r}")
            continue
        args = [repr([n, rng.randrange(-2, 6)]) for n in (0, 1, 2, 3)]
        rep.event("programs")
        diff_case(rep, src, args, levels=rng.sample(t["levels"], min(2, len(t["levels"]))), must_compile=True, label=f"callgraph seed={seed} {t['tag']} i={i}", shrinkable=True, trace=True, stock=1)
