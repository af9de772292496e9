"""Typed random program generator for the opshin subset of Python.

Programs are well-typed by construction, always terminate, and print their state as
they run, so that their execution can be compared event for event with the
execution of the compiled script.  Types are tuples:
  ("int",) ("bool",) ("bytes",) ("str",) ("none",) ("list", T) ("dict", K, V)
  ("rec", name) ("union", (T, ...))
"""
import dataclasses
import random

INT, BOOL, BYTES, STR, NONE = ("int",), ("bool",), ("bytes",), ("str",), ("none",)

HEADER = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
"""

INTS = [0, 0, 1, 1, -1, 2, 3, 4, 5, 7, -2, -7, 10, 16, 31, 127, 128, 255, 256, -256]
BIGINTS = [2**31, 2**63 - 1, 2**64, -(2**64), 10**21, 2**128 + 1, 8190, 65536]
BYTES_POOL = [
    b"",
    b"\x00",
    b"a",
    b"ab",
    b"\xff",
    b"abc",
    b"\x00\x01\x02",
    b"hello world",
    bytes(range(28)),
    b"x" * 33,
    b'"',
    b"\\n\n",
]
STR_POOL = ["", "a", "abc", "0", "12", "-5", "hello", "x y", "\u00e9", "z" * 20, "{}", "%s"]


def tstr(t):
    k = t[0]
    if k in ("int", "bool", "bytes", "str"):
        return k
    if k == "none":
        return "None"
    if k == "list":
        return f"List[{tstr(t[1])}]"
    if k == "dict":
        return f"Dict[{tstr(t[1])}, {tstr(t[2])}]"
    if k == "rec":
        return t[1]
    if k == "union":
        return "Union[" + ", ".join(tstr(x) for x in t[1]) + "]"
    if k == "any":
        return "Anything"
    raise ValueError(t)


@dataclasses.dataclass
class Rec:
    name: str
    constr: int
    fields: list  # (name, type)
    explicit: bool = True
    methods: list = dataclasses.field(default_factory=list)  # (name, argtypes, ret)
    dunders: dict = dataclasses.field(default_factory=dict)


@dataclasses.dataclass
class Fun:
    name: str
    args: list  # types
    ret: tuple
    pure: bool = True


class Program:
    def __init__(self, source, params, ret, recs, features):
        self.source = source
        self.params = params
        self.ret = ret
        self.recs = recs
        self.features = features


DEFAULT_WEIGHTS = dict(
    helpers=(0, 2),
    recs=(0, 3),
    stmts=(2, 5),
    depth=3,
    p_print=0.35,
    p_err=0.15,  # chance of keeping operations which may raise unguarded
    unions=0.5,
    strs=0.6,
    methods=0.3,
    dunders=0.25,
    closures=0.4,
    loops=1.0,
    lits=0.5,
    maybe=0.1,
)


class Gen:
    def __init__(self, rng, **weights):
        self.r = rng
        self.w = dict(DEFAULT_WEIGHTS)
        self.w.update(weights)
        self.recs = {}
        self.unions = []
        self.funs = []
        self.features = set()
        self.uid = 0
        self.loop_depth = 0
        self.fn_depth = 0
        self.noctor = False
        self.pure_only = 0  # inside this many expression contexts that must not fail

    # -- helpers -----------------------------------------------------------
    def p(self, x):
        return self.r.random() < x

    def ch(self, xs):
        return self.r.choice(xs)

    def fresh(self, base="v"):
        self.uid += 1
        return f"{base}{self.uid}"

    def feat(self, name):
        self.features.add(name)

    # -- types -------------------------------------------------------------
    def scalar(self):
        ts = [INT, INT, BYTES, BOOL]
        if self.p(self.w["strs"]):
            ts.append(STR)
        return self.ch(ts)

    def datatype(self, depth=1):
        """types that can be fields of records"""
        opts = [INT, INT, BYTES, BYTES]
        if depth > 0:
            opts += [("list", INT), ("list", BYTES), ("dict", BYTES, INT), ("dict", INT, BYTES)]
            recs = [("rec", n) for n in self.recs if not self.noctor]
            if recs:
                opts += [self.ch(recs)] * 2
                opts.append(("list", self.ch(recs)))
            if self.unions and not self.noctor:
                opts += [self.ch(self.unions)] * 2
        return self.ch(opts)

    def anytype(self, depth=2):
        opts = [INT, INT, INT, BOOL, BYTES, BYTES]
        if self.p(self.w["strs"]):
            opts.append(STR)
        if depth > 0:
            opts += [("list", self.anytype(depth - 1))] * 2
            opts.append(("dict", self.ch([INT, BYTES, INT, STR]), self.anytype(depth - 1)))
            if self.recs and not self.noctor:
                opts += [("rec", self.ch(list(self.recs)))] * 3
            if self.unions and not self.noctor:
                opts += [self.ch(self.unions)] * 2
        return self.ch(opts)

    # -- literals ----------------------------------------------------------
    def int_val(self, big=0.1):
        if self.p(big):
            return self.ch(BIGINTS)
        return self.ch(INTS)

    def bytes_val(self):
        if self.p(0.3):
            return bytes(self.ch(list(range(0x20, 0x27)) + list(range(0x28, 0x7F))) for _ in range(self.r.randint(0, 6)))
        return self.ch(BYTES_POOL)

    def value(self, t, depth=2):
        """A python *source* literal for a constant of type t"""
        k = t[0]
        if k == "int":
            v = self.int_val()
            return str(v) if v >= 0 else f"({v})"
        if k == "bool":
            return self.ch(["True", "False"])
        if k == "bytes":
            return repr(self.bytes_val())
        if k == "str":
            return repr(self.ch(STR_POOL))
        raise ValueError(t)

    # -- environment -------------------------------------------------------
    # env: dict name -> type (definitely assigned in python, visible here)
    def vars_of(self, env, t):
        return [n for n, ty in env.items() if ty == t]

    # -- expressions -------------------------------------------------------
    def expr(self, env, t, d=None):
        if d is None:
            d = self.w["depth"]
        vs = self.vars_of(env, t)
        if vs and (d <= 0 or self.p(0.35)):
            return self.ch(vs)
        if d > 0:
            if self.p(0.08):
                self.feat("ifexp")
                return f"({self.expr(env, t, d-1)} if {self.expr(env, BOOL, d-1)} else {self.expr(env, t, d-1)})"
            cands = [f for f in self.funs if f.ret == t and f.pure]
            if cands and self.p(0.25):
                f = self.ch(cands)
                self.feat("call")
                return f"{f.name}({', '.join(self.expr(env, a, d-1) for a in f.args)})"
            if self.recs and self.p(0.2):
                # field access
                opts = []
                for n, ty in env.items():
                    if ty[0] == "rec" and ty[1] in self.recs:
                        for fn, ft in self.recs[ty[1]].fields:
                            if ft == t:
                                opts.append(f"{n}.{fn}")
                if opts:
                    self.feat("attr")
                    return self.ch(opts)
            if self.p(0.2):
                # method calls
                opts = []
                for n, ty in env.items():
                    if ty[0] == "rec" and ty[1] in self.recs:
                        for mn, ma, mr in self.recs[ty[1]].methods:
                            if mr == t:
                                opts.append((n, mn, ma))
                if opts:
                    n, mn, ma = self.ch(opts)
                    self.feat("method")
                    return f"{n}.{mn}({', '.join(self.expr(env, a, d-1) for a in ma)})"
            if self.p(0.15):
                o = self.subscript(env, t, d)
                if o:
                    return o
        return getattr(self, "e_" + t[0])(env, t, d)

    def subscript(self, env, t, d):
        opts = []
        for n, ty in env.items():
            if ty[0] == "list" and ty[1] == t:
                opts.append((n, "l", None))
            if ty[0] == "dict" and ty[2] == t:
                opts.append((n, "d", ty[1]))
        if not opts:
            return None
        n, k, kt = self.ch(opts)
        if k == "l":
            self.feat("index")
            if self.p(self.w["p_err"]):
                return f"{n}[{self.expr(env, INT, d-1)}]"
            idx = self.ch(["0", "-1", "len({n}) - 1", "{e} % len({n})"]).format(
                n=n, e="(" + self.expr(env, INT, 1) + ")"
            )
            return f"({n}[{idx}] if len({n}) > 0 else {self.expr(env, t, d-1)})"
        if self.p(self.w["p_err"]):
            self.feat("dictindex")
            return f"{n}[{self.expr(env, kt, d-1)}]"
        self.feat("dictget")
        return f"{n}.get({self.expr(env, kt, d-1)}, {self.expr(env, t, d-1)})"

    def e_int(self, env, t, d):
        if d <= 0:
            return self.value(INT)
        c = self.r.randint(0, 17)
        e = lambda: self.expr(env, INT, d - 1)
        if c <= 4:
            op = self.ch(["+", "-", "*", "+", "-"])
            self.feat("int" + op)
            return f"({e()} {op} {e()})"
        if c == 5:
            op = self.ch(["//", "%"])
            self.feat("int" + op)
            if self.p(self.w["p_err"]):
                return f"({e()} {op} {e()})"
            return f"({e()} {op} {self.ch([1, 2, 3, 7, -1, -2, -5, 256])})"
        if c == 6:
            self.feat("neg")
            return f"(-{e()})"
        if c == 7:
            self.feat("len")
            lt = self.ch([BYTES, ("list", INT), ("dict", INT, INT), ("list", BYTES)])
            return f"len({self.expr(env, lt, d-1)})"
        if c == 8:
            self.feat("abs")
            return f"abs({e()})"
        if c == 9:
            self.feat("sum")
            return f"sum({self.expr(env, ('list', INT), d-1)})"
        if c == 10:
            fn = self.ch(["max", "min"])
            self.feat(fn)
            if self.p(self.w["p_err"]):
                return f"{fn}({self.expr(env, ('list', INT), d-1)})"
            return f"{fn}({self.expr(env, ('list', INT), d-1)} + [{e()}])"
        if c == 11:
            self.feat("pow")
            base = self.expr(env, INT, 0) if self.p(0.5) else self.ch(["2", "(-3)", "10", "0"])
            return f"({base} ** {self.r.randint(0, 6)})"
        if c == 12:
            self.feat("int(bool)")
            return f"int({self.expr(env, BOOL, d-1)})"
        if c == 13:
            self.feat("int(str)")
            if self.p(0.6):
                return f"int(str({e()}))"
            s = self.ch(["0", "-0", "+7", "0012", "-45", "1_000", " 12 ", "99999999999999999999"])
            return f"int({s!r})"
        if c == 14:
            b = self.expr(env, BYTES, d - 1)
            self.feat("byteindex")
            if self.p(self.w["p_err"]):
                return f"{b}[{e()}]"
            return f"({b} + b'\\x05\\xfe')[{self.ch(['0', '1', '-1', '-2'])}]"
        if c == 15:
            ls = self.vars_of(env, ("list", INT))
            if ls:
                self.feat("list.index")
                n = self.ch(ls)
                if self.p(self.w["p_err"]):
                    return f"{n}.index({e()})"
                x = e()
                return f"({n} + [{x}]).index({x})"
        return self.value(INT) if self.p(0.5) else f"({e()} + {e()})"

    def cmpable(self):
        return self.ch([INT, INT, INT, BYTES])

    def e_bool(self, env, t, d):
        if d <= 0:
            return self.value(BOOL)
        c = self.r.randint(0, 15)
        if c <= 4:
            ct = self.cmpable()
            op = self.ch(["==", "!=", "<", "<=", ">", ">="])
            self.feat(f"cmp{op}{ct[0]}")
            return f"({self.expr(env, ct, d-1)} {op} {self.expr(env, ct, d-1)})"
        if c == 5:
            self.feat("chain")
            ops = [self.ch(["<", "<=", ">", ">=", "==", "!="]) for _ in range(self.r.randint(2, 3))]
            ct = self.cmpable()
            s = self.expr(env, ct, d - 1)
            for o in ops:
                s += f" {o} {self.expr(env, ct, d-1)}"
            return f"({s})"
        if c <= 8:
            op = self.ch(["and", "or"])
            self.feat(op)
            n = self.r.randint(2, 3)
            return "(" + f" {op} ".join(self.expr(env, BOOL, d - 1) for _ in range(n)) + ")"
        if c == 9:
            self.feat("not")
            return f"(not {self.expr(env, self.ch([BOOL, BOOL, INT, BYTES, STR, ('list', INT)]), d-1)})"
        if c == 10:
            ct = self.ch([STR, BOOL, ("list", INT), ("list", BYTES)] + [("rec", n) for n in self.recs if not self.noctor])
            op = self.ch(["==", "!="])
            if ct[0] == "list":
                op = "=="
            if ct[0] == "rec" and "__eq__" in self.recs[ct[1]].dunders:
                ct = STR
            self.feat(f"cmp{op}{ct[0]}")
            return f"({self.expr(env, ct, d-1)} {op} {self.expr(env, ct, d-1)})"
        if c == 11:
            ct = self.ch([INT, BYTES])
            op = self.ch(["in", "not in"])
            self.feat(op)
            return f"({self.expr(env, ct, d-1)} {op} {self.expr(env, ('list', ct), d-1)})"
        if c == 12:
            self.feat("bool()")
            return f"bool({self.expr(env, self.ch([INT, BYTES, STR, BOOL, ('list', INT)]), d-1)})"
        if c == 13:
            fn = self.ch(["all", "any"])
            self.feat(fn)
            v = self.fresh("q")
            return f"{fn}([{self.expr({**env, v: INT}, BOOL, d-1)} for {v} in {self.expr(env, ('list', INT), d-1)}])"
        if c == 14:
            us = [n for n, ty in env.items() if ty[0] == "union"]
            if us:
                n = self.ch(us)
                self.feat("isinstance")
                return f"isinstance({n}, {self.iname(self.ch(env[n][1]))})"
        return self.value(BOOL)

    def iname(self, t):
        return {"list": "List", "dict": "Dict"}.get(t[0]) or tstr(t)

    def e_bytes(self, env, t, d):
        if d <= 0:
            return self.value(BYTES)
        c = self.r.randint(0, 10)
        e = lambda: self.expr(env, BYTES, d - 1)
        i = lambda: self.expr(env, INT, d - 1)
        if c <= 2:
            self.feat("bytes+")
            return f"({e()} + {e()})"
        if c == 3:
            self.feat("byteslice")
            lo = i() if self.p(0.7) else ""
            hi = i() if self.p(0.7) else ""
            return f"{e()}[{lo}:{hi}]"
        if c == 4 and self.p(self.w["strs"]):
            self.feat("encode")
            return f"{self.expr(env, STR, d-1)}.encode()"
        if c == 5:
            self.feat("bytes(list)")
            if self.p(self.w["p_err"]):
                return f"bytes({self.expr(env, ('list', INT), d-1)})"
            return f"bytes([{', '.join('(%s) %% 256' % i() for _ in range(self.r.randint(1,3)))}])"
        if c == 6:
            self.feat("bytes*")
            n = self.ch(["0", "1", "2", "3", "(-1)", f"({i()}) % 4"])
            return f"({e()} * ({n}))"
        if c == 7:
            self.feat("fromhex")
            return f"b''.fromhex({self.ch(['', '00', 'ff01', 'ABcd', 'deadbeef'])!r})"
        if c == 8:
            self.feat("bytes(int)")
            return f"bytes({self.ch(['0', '1', '3', f'({i()}) % 5'])})"
        return self.value(BYTES)

    def e_str(self, env, t, d):
        if d <= 0:
            return self.value(STR)
        c = self.r.randint(0, 9)
        e = lambda: self.expr(env, STR, d - 1)
        if c <= 1:
            self.feat("str+")
            return f"({e()} + {e()})"
        if c == 2:
            st = self.ch([INT, BOOL, BYTES, STR, ("list", INT)])
            self.feat(f"str({st[0]})")
            return f"str({self.expr(env, st, d-1)})"
        if c <= 4:
            self.feat("fstring")
            vals = []
            for _ in range(self.r.randint(1, 2)):
                st = self.ch([INT, BOOL, BYTES])
                vs = self.vars_of(env, st)
                if vs:
                    vals.append("{" + self.ch(vs) + "}")
                else:
                    vals.append("lit")
            return 'f"' + self.ch(["a", "", "x="]) + " ".join(vals) + '"'
        if c == 5:
            fn = self.ch(["hex", "oct"])
            self.feat(fn)
            return f"{fn}({self.expr(env, INT, d-1)})"
        if c == 6:
            self.feat(".hex()")
            return f"{self.expr(env, BYTES, d-1)}.hex()"
        if c == 7:
            self.feat("str*")
            return f"({e()} * {self.ch(['0', '1', '2', '(-1)'])})"
        if c == 8:
            self.feat("decode")
            return f"{e()}.encode().decode()"
        return self.value(STR)

    def e_list(self, env, t, d):
        et = t[1]
        if d <= 0 or self.p(0.3):
            self.feat("listlit")
            n = self.r.randint(1, 3)
            return "[" + ", ".join(self.expr(env, et, max(d - 1, 0)) for _ in range(n)) + "]"
        c = self.r.randint(0, 6)
        if c == 0:
            self.feat("list+")
            return f"({self.expr(env, t, d-1)} + {self.expr(env, t, d-1)})"
        if c == 1:
            self.feat("listslice")
            lo = self.expr(env, INT, d - 1) if self.p(0.7) else ""
            hi = self.expr(env, INT, d - 1) if self.p(0.7) else ""
            return f"{self.expr(env, t, d-1)}[{lo}:{hi}]"
        if c in (2, 3):
            self.feat("listcomp")
            vs = [n for n, ty in env.items() if ty[0] == "list"]
            # the comprehension variable may shadow an outer one
            sh = [x for x in env if x not in self.genv and x != "self"]
            if self.p(0.25) and sh:
                v = self.ch(sh)
                self.feat("compshadow")
            else:
                v = self.fresh("c")
            if vs and self.p(0.7):
                src = self.ch(vs)
                st = env[src][1]
            else:
                st = INT
                src = f"range({self.ch(['0', '1', '3', '4'])})"
            inner = {**env, v: st}
            cond = f" if {self.expr(inner, BOOL, d-1)}" if self.p(0.4) else ""
            return f"[{self.expr(inner, et, d-1)} for {v} in {src}{cond}]"
        if c == 4 and et == INT:
            self.feat("range")
            return f"[z for z in range({self.ch(['0', '1', '2', '5', '(-2)'])})]"
        if c == 5:
            ds = [n for n, ty in env.items() if ty[0] == "dict" and ty[2] == et]
            if ds:
                self.feat("dict.values")
                n = self.ch(ds)
                v = self.fresh("w")
                return f"[{v} for {v} in {n}.values()]"
            ds = [n for n, ty in env.items() if ty[0] == "dict" and ty[1] == et]
            if ds:
                self.feat("dict.keys")
                n = self.ch(ds)
                v = self.fresh("w")
                return f"[{v} for {v} in {n}.keys()]"
        n = self.r.randint(1, 3)
        return "[" + ", ".join(self.expr(env, et, d - 1) for _ in range(n)) + "]"

    def e_dict(self, env, t, d):
        kt, vt = t[1], t[2]
        self.feat("dictlit")
        if d > 0 and self.p(0.25) and kt == INT:
            self.feat("dictcomp")
            v = self.fresh("c")
            inner = {**env, v: INT}
            cond = f" if {self.expr(inner, BOOL, d-1)}" if self.p(0.3) else ""
            return f"{{{v} + {self.ch([0, 1, -5])}: {self.expr(inner, vt, d-1)} for {v} in range({self.ch([1, 2, 3])}){cond}}}"
        n = self.r.randint(1, 3)
        keys = []
        while len(keys) < n:
            k = self.value(kt)
            if k not in keys:
                keys.append(k)
        if self.p(0.2):
            keys[0] = self.expr(env, kt, d - 1)
        return "{" + ", ".join(f"{k}: {self.expr(env, vt, max(d-1,0))}" for k in keys) + "}"

    def e_rec(self, env, t, d):
        rec = self.recs[t[1]]
        self.feat("construct")
        return f"{rec.name}({', '.join(self.expr(env, ft, max(d-1,0)) for _, ft in rec.fields)})"

    def e_union(self, env, t, d):
        m = [x for x in t[1] if x[0] not in ("list", "dict")]
        return self.expr(env, self.ch(m), max(d - 1, 0))

    def e_none(self, env, t, d):
        return "None"

    # -- statements --------------------------------------------------------
    def printable(self, t):
        k = t[0]
        if k == "list":
            return self.printable(t[1]) and t[1] != STR
        if k == "dict":
            return t[1] != STR and t[2] != STR and self.printable(t[1]) and self.printable(t[2])
        return True

    def s_print(self, env, out, ind):
        vs = [n for n, t in env.items() if self.printable(t)]
        self.feat("print")
        if vs and self.p(0.8):
            picks = [self.ch(vs) for _ in range(self.r.randint(1, min(3, len(vs))))]
            out.append(ind + f"print({self.fresh('').__repr__()}, {', '.join(picks)})")
        else:
            t = self.ch([INT, BOOL, BYTES])
            out.append(ind + f"print({self.expr(env, t, 2)})")

    def block(self, env, n, ind, ret, infn, assigned=None):
        """emit n statements; returns (lines, terminated). env is mutated with definite assignments"""
        saved_funs = list(self.funs)
        try:
            return self._block(env, n, ind, ret, infn)
        finally:
            self.funs = saved_funs

    def _block(self, env, n, ind, ret, infn):
        out = []
        for _ in range(n):
            if self.p(self.w["p_print"]):
                self.s_print(env, out, ind)
            c = self.r.random()
            if c < 0.34:
                self.s_assign(env, out, ind)
            elif c < 0.42:
                self.s_aug(env, out, ind)
            elif c < 0.60:
                term = self.s_if(env, out, ind, ret, infn)
                if term:
                    return out, True
            elif c < 0.74 and self.loop_depth < 2 and self.p(self.w["loops"]):
                self.s_loop(env, out, ind, ret, infn)
            elif c < 0.79:
                self.s_tuple(env, out, ind)
            elif c < 0.84:
                self.s_union(env, out, ind, ret, infn)
            elif c < 0.88 and infn and self.fn_depth < 2 and self.loop_depth == 0 and self.p(self.w["closures"]):
                self.s_closure(env, out, ind)
            elif c < 0.92:
                self.feat("assert")
                cond = self.expr(env, BOOL, 2)
                if not self.p(self.w["p_err"]):
                    cond = f"{cond} or {self.expr(env, INT, 1)} == {self.expr(env, INT, 1)} or True"
                out.append(ind + f"assert {cond}, {self.ch(STR_POOL)!r}")
            elif c < 0.94:
                out.append(ind + "pass")
            else:
                # expression statement
                self.feat("exprstmt")
                out.append(ind + self.expr(env, self.scalar(), 2))
        if not out:
            out.append(ind + "pass")
        return out, False

    def target(self, env, t):
        vs = self.vars_of(env, t)
        vs = [v for v in vs if v not in self.frozen]
        if vs and self.p(0.5):
            self.feat("reassign")
            return self.ch(vs)
        return self.fresh("v")

    def s_assign(self, env, out, ind, t=None):
        t = t or self.anytype()
        v = self.target(env, t)
        e = self.expr(env, t)
        if t[0] == "union":
            out.append(ind + f"{v}: {tstr(t)} = {e}")
        elif v not in env and self.p(0.3):
            self.feat("annassign")
            out.append(ind + f"{v}: {tstr(t)} = {e}")
        elif t[0] in ("list", "dict") and v not in env and self.p(0.25):
            self.feat("empty" + t[0])
            out.append(ind + f"{v}: {tstr(t)} = " + ("[]" if t[0] == "list" else "{}"))
        else:
            # container literals of unions need the annotation
            if self.has_union(t):
                out.append(ind + f"{v}: {tstr(t)} = {e}")
            else:
                out.append(ind + f"{v} = {e}")
        env[v] = t

    def has_union(self, t):
        if t[0] == "union":
            return True
        return any(self.has_union(x) for x in t[1:] if isinstance(x, tuple))

    def s_aug(self, env, out, ind):
        opts = [(n, t) for n, t in env.items() if t in (INT, BYTES, STR) and n not in self.frozen]
        if not opts:
            return self.s_assign(env, out, ind)
        n, t = self.ch(opts)
        op = self.ch(["+=", "-=", "*="]) if t == INT else "+="
        self.feat("aug" + op)
        out.append(ind + f"{n} {op} {self.expr(env, t, 2)}")

    def s_tuple(self, env, out, ind):
        self.feat("tuple")
        n = self.r.randint(2, 3)
        vs = [n_ for n_, t in env.items() if n_ not in self.frozen]
        same = {}
        for v in vs:
            same.setdefault(env[v], []).append(v)
        sw = [x for x in same.values() if len(x) >= 2]
        if sw and self.p(0.4):
            self.feat("swap")
            a, b = self.r.sample(self.ch(sw), 2)
            if not self.has_union(env[a]):
                out.append(ind + f"{a}, {b} = {b}, {a}")
                return
        ts = [self.anytype(1) for _ in range(n)]
        ts = [t if not self.has_union(t) else INT for t in ts]
        names = [self.fresh("t") for _ in range(n)]
        if self.p(0.5):
            tn = self.fresh("tup")
            out.append(ind + f"{tn} = ({', '.join(self.expr(env, t, 2) for t in ts)})")
            out.append(ind + f"{', '.join(names)} = {tn}")
        else:
            out.append(ind + f"{', '.join(names)} = {', '.join(self.expr(env, t, 2) for t in ts)}")
        for nm, t in zip(names, ts):
            env[nm] = t

    def s_if(self, env, out, ind, ret, infn):
        self.feat("if")
        cond = self.expr(env, BOOL, 2)
        if self.p(0.15):
            self.feat("truthy")
            cond = self.expr(env, self.ch([INT, BYTES, ("list", INT), STR]), 1)
        e1, e2 = dict(env), dict(env)
        # frozen: assignments of an existing variable must keep the type; both branches may assign
        b1, t1 = self.block(e1, self.r.randint(1, 2), ind + "    ", ret, infn)
        if infn and not t1 and self.p(0.12):
            self.feat("earlyreturn")
            b1.append(ind + "    return " + self.expr(e1, ret, 2) if ret != NONE else ind + "    return None")
            t1 = True
        out.append(ind + f"if {cond}:")
        out.extend(b1)
        r = self.r.random()
        t2 = False
        if r < 0.2:
            self.feat("elif")
            out.append(ind + f"elif {self.expr(env, BOOL, 2)}:")
            e3 = dict(env)
            b3, t3 = self.block(e3, 1, ind + "    ", ret, infn)
            out.extend(b3)
            self.maybe_merge(env, [e1, e3])
        if r < 0.55:
            b2, t2 = self.block(e2, self.r.randint(1, 2), ind + "    ", ret, infn)
            out.append(ind + "else:")
            out.extend(b2)
        if 0.2 <= r < 0.55 and not t1 and not t2:
            for n, t in e1.items():
                if e2.get(n) == t:
                    env[n] = t
        elif 0.2 <= r < 0.55 and t1 and not t2:
            env.update(e2)
        elif self.p(self.w["maybe"]) and not t1:
            # variables that may be unbound afterwards: reading them is a NameError in both worlds
            for n, t in e1.items():
                if n not in env:
                    env[n] = t
                    self.feat("maybe_unbound")
        return t1 and t2 and r < 0.55 and r >= 0.2

    def maybe_merge(self, env, es):
        pass

    def s_loop(self, env, out, ind, ret, infn):
        self.loop_depth += 1
        inner = dict(env)
        if self.p(0.35):
            self.feat("while")
            k = self.fresh("n")
            out.append(ind + f"{k} = {self.r.randint(0, 3)}")
            env[k] = INT
            inner[k] = INT
            self.frozen.add(k)
            cond = f"{k} > 0" + (f" and {self.expr(inner, BOOL, 1)}" if self.p(0.3) else "")
            b, term = self.block(inner, self.r.randint(1, 2), ind + "    ", ret, infn)
            out.append(ind + f"while {cond}:")
            # decrement first so that it happens whatever the body does
            out.append(ind + f"    {k} = {k} - 1")
            out.extend(b)
        else:
            self.feat("for")
            # the loop variable may be an existing variable
            kind = self.r.randint(0, 4)
            lists = [n for n, t in env.items() if t[0] == "list"]
            dicts = [n for n, t in env.items() if t[0] == "dict"]
            if kind == 0 and dicts:
                self.feat("for.items")
                dn = self.ch(dicts)
                k, v = self.fresh("k"), self.fresh("u")
                out.append(ind + f"for {k}, {v} in {dn}.items():")
                inner[k], inner[v] = env[dn][1], env[dn][2]
                names = []
            elif kind <= 2 and lists:
                ln = self.ch(lists)
                v = self.loopvar(env, env[ln][1])
                out.append(ind + f"for {v} in {ln}:")
                inner[v] = env[ln][1]
                names = [v]
            else:
                v = self.loopvar(env, INT)
                out.append(ind + f"for {v} in range({self.ch(['0', '1', '2', '3', '4'])}):")
                inner[v] = INT
                names = [v]
            b, term = self.block(inner, self.r.randint(1, 2), ind + "    ", ret, infn)
            out.extend(b)
            if self.p(self.w["maybe"]) :
                for n, t in inner.items():
                    if n not in env:
                        env[n] = t
                        self.feat("maybe_unbound")
        if self.p(0.15):
            self.feat("loopelse")
            b, term = self.block(env, 1, ind + "    ", ret, infn)
            out.append(ind + "else:")
            out.extend(b)
        self.loop_depth -= 1

    def loopvar(self, env, t):
        vs = [v for v in self.vars_of(env, t) if v not in self.frozen]
        if vs and self.p(0.3):
            self.feat("loopvar_reuse")
            return self.ch(vs)
        return self.fresh("i")

    def s_union(self, env, out, ind, ret, infn):
        us = [n for n, t in env.items() if t[0] == "union"]
        if not us:
            return self.s_assign(env, out, ind)
        n = self.ch(us)
        members = list(env[n][1])
        self.r.shuffle(members)
        self.feat("narrow")
        kw = "if"
        rest = list(members)
        style = self.r.randint(0, 2)
        for m in members[:-1]:
            cond = f"isinstance({n}, {self.iname(m)})"
            if style == 1 and m[0] == "rec":
                fs = [(f, t) for f, t in self.recs[m[1]].fields if t == INT]
                if fs:
                    self.feat("narrow_and")
                    cond += f" and {n}.{self.ch(fs)[0]} {self.ch(['>', '==', '<'])} {self.value(INT)}"
            inner = dict(env)
            inner[n] = m
            full = " and " not in cond
            self.frozen.add(n)
            b, _ = self.block(inner, self.r.randint(1, 2), ind + "    ", NONE if ret == NONE else ret, False)
            b.append(ind + f"    print('is {tstr(m)}', {n})" if self.printable(m) and m[0] not in ("list", "dict") else ind + "    pass")
            out.append(ind + f"{kw} {cond}:")
            out.extend(b)
            kw = "elif"
            if full:
                rest.remove(m)
            if self.p(0.3):
                break
        if len(rest) == 1 and self.p(0.8):
            m = rest[0]
            inner = dict(env)
            inner[n] = m
            b, _ = self.block(inner, 1, ind + "    ", ret, False)
            if m[0] == "rec":
                b.append(ind + f"    print('else {m[1]}', {n})")
                for f, t in self.recs[m[1]].fields[:2]:
                    if self.printable(t):
                        b.append(ind + f"    print({n}.{f})")
            elif m == INT:
                b.append(ind + f"    print({n} + 1)")
            elif m == BYTES:
                b.append(ind + f"    print({n} + b'!')")
            out.append(ind + "else:")
            out.extend(b)

    def s_closure(self, env, out, ind):
        self.feat("closure")
        name = self.fresh("h")
        args = [self.scalar() for _ in range(self.r.randint(0, 2))]
        ret = self.scalar()
        an = [self.fresh("p") for _ in args]
        # parameters may shadow outer variables
        if an and self.p(0.3) and env:
            an[0] = self.ch(list(env))
            self.feat("param_shadow")
        inner = dict(env)
        for a, t in zip(an, args):
            inner[a] = t
        saved_funs = list(self.funs)
        sf, self.frozen = self.frozen, set(env)  # closures only read the outer scope
        for a in an:
            self.frozen.discard(a)
        self.fn_depth += 1
        b, term = self.block(inner, self.r.randint(0, 2), ind + "    ", ret, True)
        self.fn_depth -= 1
        self.frozen = sf
        self.funs = saved_funs
        out.append(ind + f"def {name}({', '.join(f'{a}: {tstr(t)}' for a, t in zip(an, args))}) -> {tstr(ret)}:")
        out.extend(b)
        if not term:
            out.append(ind + f"    return {self.expr(inner, ret, 2)}")
        # callable from here on in this block only when visible; keep local by registering now
        self.funs.append(Fun(name, args, ret))
        self.local_funs.append(name)

    # -- top level ---------------------------------------------------------
    def make_rec(self):
        name = "R" + self.ch("ABCDEFGH") + str(len(self.recs))
        nf = self.r.randint(0, 3)
        fields = []
        for i in range(nf):
            fields.append((self.ch(["x", "y", "value", "owner", "n"]) + str(i), self.datatype()))
        used = {r.constr for r in self.recs.values()}
        constr = self.ch([c for c in [0, 1, 2, 3, 6, 7, 100, 127, 128, 500] if c not in used])
        rec = Rec(name, constr, fields)
        self.recs[name] = rec
        return rec

    def rec_source(self, rec):
        s = ["@dataclass(unsafe_hash=True)" if self.p(0.5) else "@dataclass()", f"class {rec.name}(PlutusData):"]
        s.append(f"    CONSTR_ID = {rec.constr}")
        for f, t in rec.fields:
            s.append(f"    {f}: {tstr(t)}")
        ints = [f for f, t in rec.fields if t == INT]
        if rec.fields and self.p(self.w["methods"]):
            self.feat("methoddef")
            mret = self.ch([INT, BYTES, BOOL])
            margs = [self.scalar() for _ in range(self.r.randint(0, 1))]
            an = [self.fresh("m") for _ in margs]
            env = dict(zip(an, margs))
            env["self"] = ("rec", rec.name)
            saved = self.frozen
            self.frozen = {"self"}
            self.noctor = True
            b, term = self.block(env, self.r.randint(0, 1), "        ", mret, True)
            mn = self.ch(["calc", "check", "make"]) + str(len(self.recs))
            s.append("")
            s.append(f"    def {mn}({', '.join(['self'] + [f'{a}: {tstr(t)}' for a, t in zip(an, margs)])}) -> {tstr(mret)}:")
            s.extend(b)
            if not term:
                s.append("        return " + self.expr(env, mret, 2))
            self.noctor = False
            self.frozen = saved
            rec.methods.append((mn, margs, mret))
        if ints and self.p(self.w["dunders"]):
            f = self.ch(ints)
            for dn, sig, body in [
                ("__lt__", "bool", f"self.{f} < other.{f}"),
                ("__ge__", "bool", f"self.{f} >= other.{f}"),
                ("__eq__", "bool", f"self.{f} == other.{f}"),
                ("__add__", "int", f"self.{f} + other.{f}"),
                ("__sub__", "int", f"self.{f} - other.{f}"),
            ]:
                if self.p(0.4):
                    self.feat("dunder" + dn)
                    s.append("")
                    s.append(f'    def {dn}(self, other: "{rec.name}") -> {sig}:')
                    s.append(f"        return {body}")
                    rec.dunders[dn] = sig
        return s

    def make_fun(self, idx):
        name = f"fn{idx}"
        args = [self.anytype(1) for _ in range(self.r.randint(0, 3))]
        ret = self.anytype(1)
        an = [f"a{i}" for i in range(len(args))]
        src = []
        sig = f"def {name}({', '.join(f'{a}: {tstr(t)}' for a, t in zip(an, args))}) -> {tstr(ret)}:"
        if self.p(0.25):
            # bounded recursion
            self.feat("recursion")
            an = ["k0"] + an
            sig = f"def {name}({', '.join(['k0: int'] + [f'{a}: {tstr(t)}' for a, t in zip(an[1:], args)])}) -> {tstr(ret)}:"
            env = dict(zip(an, [INT] + args))
            self.frozen = {"k0"}
            src.append(sig)
            src.append("    if k0 <= 0:")
            src.append(f"        return {self.expr(dict(env, **self.genv), ret, 2)}")
            e = {**self.genv, **env}
            self.frozen |= set(self.genv)
            b, term = self.block(e, self.r.randint(0, 2), "    ", ret, True)
            src.extend(b)
            if not term:
                rr = f"{name}(k0 - 1{''.join(', ' + self.expr(e, t, 1) for t in args)})"
                if ret == INT:
                    rr = f"{rr} + {self.expr(e, INT, 1)}"
                src.append(f"    return {rr}")
            self.funs.append(Fun(name, [("smallint",)] + args, ret))
        else:
            e = {**self.genv, **dict(zip(an, args))}
            self.frozen = set(self.genv) - set(an)
            src.append(sig)
            b, term = self.block(e, self.r.randint(1, 3), "    ", ret, True)
            src.extend(b)
            if not term:
                src.append(f"    return {self.expr(e, ret)}")
            self.funs.append(Fun(name, args, ret))
        return src

    def e_smallint(self, env, t, d):
        return str(self.r.randint(0, 4))

    def union_type(self):
        recs = [("rec", n) for n in self.recs]
        opts = []
        if len(recs) >= 2:
            opts.append(tuple(self.r.sample(recs, self.r.randint(2, len(recs)))))
        if recs:
            opts.append((self.ch(recs), self.ch([INT, BYTES])))
            opts.append((INT, self.ch(recs), BYTES))
        opts.append((INT, BYTES))
        opts.append((BYTES, INT))
        return ("union", self.ch(opts))

    def program(self):
        self.frozen = set()
        self.local_funs = []
        self.genv = {}
        chunks = []
        nrec = self.r.randint(*self.w["recs"])
        for _ in range(nrec):
            rec = self.make_rec()
            del self.recs[rec.name]
            self.recs[rec.name] = rec
            chunks.append(self.rec_source(rec))
            if self.p(self.w["unions"]):
                self.unions.append(self.union_type())
        if self.p(self.w["unions"]):
            self.unions.append(self.union_type())
        # module level constants
        for _ in range(self.r.randint(0, 2)):
            out = []
            n = self.fresh("G")
            t = self.ch([INT, BYTES, BOOL, ("list", INT), ("dict", INT, BYTES), STR])
            out.append(f"{n} = {self.expr(self.genv, t, 2)}")
            self.genv[n] = t
            chunks.append(out)
        for i in range(self.r.randint(*self.w["helpers"])):
            chunks.append(self.make_fun(i))
        nparams = self.r.randint(1, 3)
        params = [(f"arg{i}", self.paramtype()) for i in range(nparams)]
        ret = self.anytype(2)
        env = {**self.genv, **dict(params)}
        self.frozen = set(self.genv)
        body, term = self.block(env, self.r.randint(*self.w["stmts"]), "    ", ret, True)
        src = [f"def validator({', '.join(f'{n}: {tstr(t)}' for n, t in params)}) -> {tstr(ret)}:"]
        src += body
        if not term:
            # make the final state observable
            vs = [n for n, t in env.items() if self.printable(t)]
            self.r.shuffle(vs)
            if vs:
                src.append(f"    print('final', {', '.join(vs[:6])})")
            if self.has_union(ret) and ret[0] != "union":
                src.append(f"    ret: {tstr(ret)} = {self.expr(env, ret)}")
                src.append("    return ret")
            else:
                src.append(f"    return {self.expr(env, ret)}")
        chunks.append(src)
        source = HEADER + "\n\n" + "\n\n\n".join("\n".join(c) for c in chunks) + "\n"
        return Program(source, params, ret, dict(self.recs), set(self.features))

    def paramtype(self):
        return self.anytype(2)


# -- argument values ---------------------------------------------------------


class ArgGen:
    """python values for parameter types; records come from the executed module"""

    def __init__(self, rng, recs, mod):
        self.r = rng
        self.recs = recs
        self.mod = mod

    def val(self, t, d=3):
        r = self.r
        k = t[0]
        if k == "int":
            return r.choice(INTS) if r.random() < 0.85 else r.choice(BIGINTS + [r.randint(-(10**6), 10**6)])
        if k == "bool":
            return r.random() < 0.5
        if k == "bytes":
            if r.random() < 0.4:
                return bytes(r.randrange(256) for _ in range(r.randint(0, 5))).replace(b"'", b"")
            return r.choice(BYTES_POOL)
        if k == "str":
            return r.choice(STR_POOL)
        if k == "none":
            return None
        if k == "list":
            n = r.choice([0, 1, 2, 3, 4]) if d > 0 else 0
            return [self.val(t[1], d - 1) for _ in range(n)]
        if k == "dict":
            n = r.choice([0, 1, 2, 3]) if d > 0 else 0
            return {self.val(t[1], d - 1): self.val(t[2], d - 1) for _ in range(n)}
        if k == "rec":
            rec = self.recs[t[1]]
            return getattr(self.mod, rec.name)(*[self.val(ft, d - 1) for _, ft in rec.fields])
        if k == "union":
            return self.val(r.choice(t[1]), d)
        raise ValueError(t)
