"""Random record declarations that share field names at different positions, unions of them, and
functions that access, narrow, compare, rebuild and pass on the union values."""
from vmon.core import PyProgram
from vmon.diff import diff_case, rng_for
from vmon.typed import rand_typed

TASK_LIMIT = 200
POOL = {"x": "int", "y": "int", "z": "bytes", "w": "List[int]", "flag": "bool", "inner": "In", "d": "Dict[int, bytes]"}
IDS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 100, 126, 127, 128, 129, 500]


def tasks(tier, seed, n=80, per=2, levels=("O0", "O2", "O3"), thorough=12, tag="", feats=None, flags=0):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per, "levels": list(levels), "tag": tag, "feats": feats, "flags": flags} for i in range(0, k, per)]


class RG:
    def __init__(self, rng, feats=None):
        self.r = rng
        r = rng
        n = r.choice([2, 3, 4, 4, 5, 6])
        ids = r.sample(IDS, n + 1)
        self.recs = {}
        self.methods = {}
        # the name of the method may also be the name of something outside of the class
        self.get = r.choice(["get", "get", "get", "len", "sum", "str", "g", "h1", "validator", "validator", "k", "fetch_0"])
        names = [f"{c}{r.randrange(10)}" for c in "ABCDEF"[:n]]
        common = r.sample(sorted(POOL), r.choice([1, 2, 2, 3]))
        for nm, cid in zip(names, ids):
            fs = list(common) + r.sample([p for p in POOL if p not in common], r.choice([0, 1, 2, 3]))
            r.shuffle(fs)
            self.recs[nm] = (cid, fs)
            if r.random() < 0.5:
                self.methods[nm] = True
        self.inner_id = ids[-1]
        k = r.randrange(2, n + 1)
        self.union = r.sample(names, k)
        self.extra = r.choice([None, None, "int", "bytes"]) if k < 6 else None
        self.names = names
        self.feats = feats
        # another name for a record, and a name for the union
        self.alias = r.choice(names) if r.random() < 0.3 else None
        self.ualias = r.random() < 0.25

    def decl(self):
        out = [
            "from dataclasses import dataclass", "from typing import Dict, List, Union",
            "from pycardano import Datum as Anything, PlutusData", "", "",
            "@dataclass()", "class In(PlutusData):", f"    CONSTR_ID = {self.inner_id}", "    n: int", "    m: bytes", "",
        ]
        for nm, (cid, fs) in self.recs.items():
            out += ["", "@dataclass()", f"class {nm}(PlutusData):", f"    CONSTR_ID = {cid}"] + [f"    {f}: {POOL[f]}" for f in fs]
            if nm in self.methods:
                f = self.r.choice([f for f in fs])
                out += ["", f"    def {self.get}(self, k: int) -> int:", f"        return k + {self.val(f, 'self.' + f)}"]
                if self.r.random() < 0.5:
                    out += ["", f"    def __add__(self, other: int) -> int:", f"        return other * 2 + self.{self.get}(other)"]
        if self.alias:
            out += ["", f"{self.alias}x = {self.alias}"]
        if self.ualias:
            out += ["", f"Un = {self.U(named=False)}"]
        out += ["", "def g(tag: int, v: int) -> int:", "    print('g', tag)", "    return v", ""]
        return out

    def val(self, f, e):
        """an int computed from field f of expression e"""
        t = POOL[f]
        if t == "int":
            return e
        if t == "bytes":
            return f"len({e})"
        if t == "bool":
            return f"(3 if {e} else 4)"
        if t == "In":
            return f"{e}.n"
        if t.startswith("List"):
            return f"sum({e})"
        return f"len({e})"

    def common(self, names):
        fs = [f for f in POOL if all(f in self.recs[n][1] for n in names)]
        return fs

    def use(self, names, v):
        """an expression of some type using v known to be one of names (records only)"""
        r = self.r
        k = r.randrange(9)
        fs = self.common(names)
        if len(names) == 1 and r.random() < 0.35 and names[0] in self.methods:
            return r.choice([f"{v}.{self.get}({r.randrange(5)})", f"{v}.{self.get}(k)"])
        if k == 0:
            return f"{v}.CONSTR_ID"
        if k == 1:
            return f"{v}.to_cbor()" if self.cborable(names) else v
        if k == 2:
            return f"str({v}).encode()"
        if k == 3 and len(names) == 1:
            return self.build(names[0], v)
        if k == 4:
            return f"[{v}]"
        if k == 5:
            return v
        if not fs:
            return v
        if k == 6:
            return " + ".join(self.val(f, f"{v}.{f}") for f in fs)
        f = r.choice(fs)
        return f"{v}.{f}"

    def cborable(self, names):
        # booleans are encoded differently by pycardano; long byte strings and dicts too
        return not any(f in self.recs[n][1] for n in names for f in ("flag", "d", "z", "inner"))

    def build(self, nm, v=None):
        r = self.r
        out = []
        for f in self.recs[nm][1]:
            if v and r.random() < 0.6:
                out.append((f, f"{v}.{f}"))
            else:
                out.append((f, self.lit(POOL[f])))
        if r.random() < 0.3:
            return f"{nm}({', '.join(f'{f}={e}' for f, e in out)})"
        return f"{nm}({', '.join(e for _, e in out)})"

    def lit(self, t):
        r = self.r
        if t == "int":
            return r.choice(["k", "k + 1", "7", "-1"])
        if t == "bytes":
            return r.choice(["b''", "b'ab'", "b'\\x00\\xff'"])
        if t == "bool":
            return r.choice(["True", "False", "k > 2"])
        if t == "In":
            return f"In({r.choice(['k', '3'])}, b'q')"
        if t.startswith("List"):
            return r.choice(["[k]", "[1, k, 2]", "[4]"])
        return r.choice(["{1: b'a'}", "{k: b'k'}"])

    def U(self, names=None, extra=True, named=True):
        if self.ualias and named and names is None and extra:
            return "Un"
        names = names or self.union
        parts = list(names) + ([self.extra] if extra and self.extra else [])
        return parts[0] if len(parts) == 1 else f"Union[{', '.join(parts)}]"

    def isin(self, v, c):
        if c == self.alias and self.r.random() < 0.5:
            c += "x"
        return f"isinstance({v}, {c})"

    def fun(self, i):
        """one function h{i}(v, w, vs, k) -> Anything"""
        r = self.r
        names = list(self.union)
        parts = names + ([self.extra] if self.extra else [])
        lines = []
        kind = r.choice(["chain", "chain", "not", "or", "and", "ifexp", "loop", "assign", "eq", "direct", "nested", "pass", "early", "boolval", "listops", "after", "after", "asserts"])
        u = self.U()
        sig = f"def h{i}(v: {u}, w: {u}, vs: List[{u}], k: int) -> Anything:"

        def u_of(rest, v="v"):
            if rest == ["int"]:
                return r.choice([f"{v} + 1", v, f"str({v}).encode()"])
            if rest == ["bytes"]:
                return r.choice([f"len({v})", v, f"{v} + b'x'"])
            recs = [x for x in rest if x in self.recs]
            if len(recs) == len(rest):
                return self.use(recs, v)
            return r.choice([v, f"[{v}]", f"str({v}).encode()", v])

        if kind == "chain":
            order = r.sample(parts, len(parts))
            stop = r.randrange(1, len(order) + 1) if len(order) > 1 else 1
            rest = list(order)
            for j, c in enumerate(order[:stop]):
                if len(rest) == 1 and r.random() < 0.7:
                    break
                rest = [x for x in rest if x != c]
                lines += [f"{'if' if j == 0 else 'elif'} {self.isin('v', c)}:", f"    return {u_of([c])}"]
                if not rest:
                    break
            if rest and lines:
                if r.random() < 0.5:
                    lines += ["else:", f"    return {u_of(rest)}"]
                else:
                    lines += [f"return {u_of(rest)}"]
            elif rest:
                lines += [f"return {u_of(rest)}"]
            else:
                lines += ["return -1"]
        elif kind == "not":
            c = r.choice(parts)
            rest = [x for x in parts if x != c]
            lines = [f"if not {self.isin('v', c)}:", f"    return {u_of(rest)}", f"return {u_of([c])}"]
        elif kind == "early":
            c = r.choice(parts)
            rest = [x for x in parts if x != c]
            lines = [f"if {self.isin('v', c)}:", f"    print('early', {r.choice(['k', 'v'])})", f"    return {u_of([c])}", f"a = {u_of(rest)}", "print(k)", "return a"]
        elif kind in ("or", "nested") and len(parts) >= 3:
            cs = r.sample(parts, r.randrange(2, len(parts)))
            rest = [x for x in parts if x not in cs]
            if kind == "or":
                lines = [f"if {' or '.join(self.isin('v', c) for c in cs)}:", f"    return {u_of(cs)}", "else:", f"    return {u_of(rest)}"]
            else:
                lines = [f"if {' or '.join(self.isin('v', c) for c in cs)}:", f"    if {self.isin('v', cs[0])}:", f"        return {u_of([cs[0]])}", f"    else:",
                         f"        return {u_of(cs[1:])}", f"return {u_of(rest)}"]
        elif kind == "and":
            c = r.choice(parts)
            lines = [f"if {self.isin('v', c)} and {r.choice(['k > 2', 'g(1, k) == 1', 'len(vs) > 0'])}:", f"    return {u_of([c])}", "else:", f"    return {u_of(parts)}"]
        elif kind == "ifexp":
            c = r.choice(parts)
            rest = [x for x in parts if x != c]
            a = self.use([c], "v") if c in self.recs else "v"
            lines = [f"if {self.isin('v', c)}:", "    pass", f"q = [{'v'}]", f"return q if k > 1 else [w]"]
            if c in self.recs:
                fs = [f for f in self.recs[c][1] if POOL[f] == "int"]
                if fs:
                    lines = [f"return v.{fs[0]} if {self.isin('v', c)} else k"]
        elif kind == "loop":
            c = r.choice(parts)
            rest = [x for x in parts if x != c]
            fin = (lambda n, v: self.val(f, f"{v}.{f}") if (f := (r.choice(self.common(n)) if self.common(n) else None)) else "1")
            one = fin([c], "e") if c in self.recs else ("e" if c == "int" else "len(e)")
            recs = [x for x in rest if x in self.recs]
            two = fin(recs, "e") if recs and len(recs) == len(rest) else "2"
            lines = ["acc = 0", "for e in vs:", f"    if {self.isin('e', c)}:", f"        acc += {one}", "    else:", f"        acc += {two} * 3", "return acc"]
        elif kind == "assign":
            c = r.choice(names)
            b = r.choice(names)
            lines = [f"a: {u} = v", f"if {self.isin('v', c)}:", f"    a = {self.build(b)}", "    print(v)", r.choice([f"if {self.isin('a', b)}:", f"if not {self.isin('a', b)}:"]),
                     "    print('is', a)", f"return {r.choice(['a', '[a, w]', '{k: a}', 'a == w', 'a == v'])}"]
        elif kind == "eq":
            lines = [r.choice(["return v == w", "return [v == w, v != w, v in vs]", "return [w in [v], v not in vs]", "return v in [w] + vs", "return [x == v for x in vs]"])]
        elif kind == "direct":
            fs = self.common(names) if not self.extra else []
            lines = [f"return {self.use(names, 'v')}"] if not self.extra else ["return [v, w]"]
            if fs and r.random() < 0.7:
                lines = [f"print({', '.join('v.' + f for f in fs)})", f"return {' * 10 + '.join(self.val(f, 'v.' + f) for f in fs)}"]
        elif kind == "pass":
            c = r.choice(names)
            lines = [f"def sub(z: {self.U([c], False)}) -> int:", f"    return {self.val(self.recs[c][1][0], 'z.' + self.recs[c][1][0])}",
                     f"if {self.isin('v', c)}:", "    return sub(v)", f"if {self.isin('w', c)}:", "    return sub(w) + 1", "return 0"]
        elif kind == "boolval":
            c, b = r.choice(parts), r.choice(parts)
            lines = [f"t1 = {self.isin('v', c)}", f"t2 = {self.isin('w', b)}", "return [t1, t2, t1 and t2, t1 or t2, not t1, t1 == t2]"]
        elif kind == "after" and len(parts) >= 3:
            # several checks of the same variable in one condition, after which it is its whole union again
            cs = r.sample(parts, r.randrange(2, len(parts)))
            word, neg = r.choice([("or", ""), ("and", "not ")])
            ops = [neg + self.isin("v", c) for c in cs]
            last = r.choice(["k > 2", "g(1, k) == 1", self.isin("w", r.choice(parts)), "len(vs) > 1"])
            if r.random() < 0.3:
                ops.insert(r.randrange(len(ops)), "k > 0")
            cond = f" {word} ".join(ops + [last])
            fs = [] if self.extra else self.common(names)
            def some():
                q = r.random()
                if fs and q < 0.6:
                    f = r.choice(fs)
                    return self.val(f, f"v.{f}")
                if q < 0.8:
                    return f"(1 if {self.isin('v', r.choice(parts))} else 2)"
                return "(3 if v == w else 4)"
            form = r.randrange(5)
            if form == 0:
                lines = [f"t = {cond}", "print(t)", f"return {some()}"]
            elif form == 1:
                lines = [f"a = (10 if ({cond}) else 20) + {some()}", f"return [a, {some()}]"]
            elif form == 2:
                lines = [f"if {cond}:", "    print('then')", "else:", "    print('else')", f"return [{some()}, {some()}]"]
            elif form == 3:
                lines = ["a = 0", f"while ({cond}) and a < 2:", "    a += 1", f"return [a, {some()}]"]
            else:
                lines = [f"t = [1 for q in vs if {cond}]", f"return [len(t), {some()}]"]
        elif kind == "asserts" and len(parts) >= 3:
            cs = r.sample(parts, r.randrange(2, len(parts)))
            rest = [x for x in parts if x not in cs]
            recs = [x for x in rest if x in self.recs]
            one = u_of(rest) if len(recs) == len(rest) else "v"
            lines = ["if k > 3:"] + [f"    assert not {self.isin('v', c)}, 'no {c}'" for c in cs] + [f"    return {one}", "else:", "    print('skip')"]
            fs = [] if self.extra else self.common(names)
            lines += [f"return {self.val(fs[0], 'v.' + fs[0])}" if fs else f"return {self.isin('v', r.choice(parts))}"]
        elif kind == "listops":
            c = r.choice(names)
            lines = [f"ys = vs + [v]", r.choice(["return ys[-1]", f"return [{self.build(c)}] + ys", "return [y for y in ys if y == w]", "return len(ys)", "return ys[1:] if k > 0 else [w]", "return {k: v, 1: w}", "return vs.index(v) if v in vs else -1"])]
        if not lines:
            lines = ["return v"]
        return [sig] + ["    " + l for l in lines] + [""]

    def program(self, m=5):
        out = self.decl()
        for i in range(m):
            out += self.fun(i)
        u = self.U()
        out += [f"def validator(op: int, v: {u}, w: {u}, vs: List[{u}], k: int) -> Anything:", "    print('in', v)"]
        for i in range(m):
            out += [f"    {'if' if i == 0 else 'elif'} op == {i}:"]
            if self.r.random() < 0.5:
                c, v = self.r.choice([(self.r.choice(self.union), self.r.choice("vw")), (self.extra or self.union[0], "v")])
                out += [f"        if {self.isin(v, c)}:", f"            return h{i}({self.r.choice(['v, w', 'w, v', v + ', ' + v])}, vs, k)"]
            out += [f"        return h{i}(v, w, vs, k)"]
        out += ["    return op"]
        if self.r.random() < 0.5:
            out += ["", "", "@dataclass()", "class Late(PlutusData):", "    CONSTR_ID = 77", "    n: int", "", f"    def {self.get}(self, k: int) -> int:", "        return self.n - k", "", ""]
        return "\n".join(out) + "\n"


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "recgen", t["tag"], i)
        g = RG(rng, t["feats"])
        m = 5
        src = g.program(m)
        py = PyProgram(src)
        args = []
        try:
            if py.load_error is not None:
                rep.errors.append(f"recgen {i}: {py.load_error!r}")
                continue
            U = eval(g.U(), py.mod.__dict__)
            members = [eval(p, py.mod.__dict__) for p in g.union + ([g.extra] if g.extra else [])]
            rv = lambda tp=U: rand_typed(rng, tp, 2)
            for op in range(m):
                for mem in members + [U]:
                    v = rv(mem)
                    vs = [rv() for _ in range(rng.choice([0, 1, 2, 3]))]
                    if rng.random() < 0.4:
                        vs.append(v)
                    w = v if rng.random() < 0.3 else rv()
                    args.append(repr([op, v, w, vs, rng.randrange(-1, 6)]))
        finally:
            py.close()
        rep.event("programs")
        label = f"recgen seed={seed} {t['tag']} i={i}"
        diff_case(rep, src, args, levels=rng.sample(t["levels"], min(2, len(t["levels"]))), must_compile=True, label=label, shrinkable=True, trace=True, stock=1)
        if t.get("flags"):
            from vmon.families.flags import EXPANDED, SINGLE

            lv = rng.sample(SINGLE, t["flags"]) + rng.sample(EXPANDED, 1)
            for one in lv:
                diff_case(rep, src, args, levels=[one], must_compile=not one[1].get("expand_union_types"), label=label, shrinkable=True, trace=True)
