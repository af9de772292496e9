"""How compile effort, script size and execution cost grow when a construct is repeated or nested.

Effort is counted, not timed: every python function entered by the compiler is one event (sys.monitoring), every step
of the machine is one event. Each construct is scaled to growing sizes; going from one size to the next may multiply
the effort by a power of the ratio of the sizes, and nothing more. A run that exceeds its allowance is stopped by
the monitor itself, so that an explosion is reported rather than waited for."""
import sys

from uplc.tools import flatten

from vmon import cek
from vmon.core import ChainProgram, CompileFailure, PyProgram, config, enc, prepare, to_uplc
from vmon.diff import rng_for

TASK_LIMIT = 240
SIZES = (2, 4, 6, 9, 13, 18)
DEGREE = 5
SLACK = 150_000
HEAD = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData


"""
TOOL = 4


class TooMuch(BaseException):
    pass


def counted(f, event, budget):
    """(events, result): run f, counting events; TooMuch as soon as there are more than budget"""
    mon = sys.monitoring
    n = 0
    limit = budget

    def on(*_):
        nonlocal n, limit
        n += 1
        if n > limit:
            limit = n + 20_000  # cleanup is not interrupted; raised again if the exception was swallowed
            raise TooMuch()

    mon.use_tool_id(TOOL, "growth")
    try:
        mon.register_callback(TOOL, event, on)
        mon.set_events(TOOL, event)
        try:
            r = f()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, event, None)
    finally:
        mon.free_tool_id(TOOL)
    if n > budget:
        raise TooMuch()
    return n, r


# --------------------------------------------------------------------------
# constructs: n -> (source, arguments)

I = "    "
FIXED = {}


def construct(args="[3]"):
    def deco(f):
        FIXED[f.__name__] = lambda n: (HEAD + f(n), args(n) if callable(args) else args)
        return f

    return deco


def wrap(e, n, *fs):
    for i in range(n):
        e = fs[i % len(fs)](e, i)
    return e


def ret(e, a="int", r="int"):
    return f"def validator(a: {a}) -> {r}:\n    return {e}\n"


def nested(n, *lines):
    """n blocks in each other, `lines` open one block"""
    return "".join(I * (i + 1) + l.format(i=i) + "\n" for i in range(n) for l in lines)


REC = "@dataclass()\nclass A(PlutusData):\n    CONSTR_ID = 0\n    x: int\n"


@construct()
def ifs(n):
    s = "def validator(a: int) -> int:\n    r = 0\n"
    for i in range(n):
        s += I * (i + 1) + f"if a > {i}:\n" + I * (i + 2) + f"r += {i}\n"
    return s + "    return r\n"


@construct()
def elifs(n):
    return "def validator(a: int) -> int:\n    r = 0\n" + "".join(f"    {'el' if i else ''}if a == {i}:\n        r = {i}\n" for i in range(n)) + "    return r\n"


@construct()
def seqifs(n):
    return "def validator(a: int) -> int:\n    r = 0\n" + "".join(f"    if a == {i}:\n        r += {i}\n" for i in range(n)) + "    return r\n"


@construct("[-1]")
def retifs(n):
    return "def validator(a: int) -> int:\n    r = 0\n" + "".join(f"    if a == {i}:\n        return {i}\n    r += a\n" for i in range(n)) + "    return r\n"


@construct("[-1]")
def retnest(n):
    s = "def validator(a: int) -> int:\n    r = 0\n"
    for i in range(n):
        s += I * (i + 1) + f"if a > {i}:\n" + I * (i + 2) + f"if a == {i}:\n" + I * (i + 3) + f"return {i}\n"
    return s + "    return r\n"


@construct()
def ifexp(n):
    return ret(wrap("a", n, lambda e, i: f"({e} if a > {i} else a)"))


@construct()
def ifexptest(n):
    return ret("1 if %s else 0" % wrap("a > 0", n, lambda e, i: f"((a > {i}) if {e} else (a < {i}))"))


@construct()
def elseifs(n):
    return "def validator(a: int) -> int:\n    r = 0\n" + nested(n, "if a == {i}:", "    r += {i}", "else:") + I * (n + 1) + "r = 1\n    return r\n"


@construct()
def retbody(n):
    s = "def validator(a: int) -> int:\n    r = 0\n" + nested(n, "if a > {i}:") + I * (n + 1) + "r += 1\n"
    for i in reversed(range(n)):
        s += I * (i + 1) + "else:\n" + I * (i + 2) + f"return {i}\n" + I * (i + 1) + f"r += {i}\n"
    return s + "    return r\n"


@construct()
def calls(n):
    return "def f(x: int) -> int:\n    return x + 1\n" + ret(wrap("a", n, lambda e, i: f"f({e})"))


@construct()
def nestf(n):
    s = "def validator(a: int) -> int:\n" + nested(n, "def f{i}(x: int) -> int:") + I * (n + 1) + "return x + a\n"
    return s + "".join(I * (i + 1) + f"return f{i}(a)\n" for i in reversed(range(n)))


@construct()
def condfun(n):
    s = "def validator(a: int) -> int:\n" + nested(n, "def f{i}(x: int) -> int:", "    if x > {i}:", "        return x") + I * (n + 1) + "return x + a\n"
    return s + "".join(I * (i + 1) + f"return f{i}(a)\n" for i in reversed(range(n)))


@construct()
def chainf(n):
    s = "def f0(x: int) -> int:\n    return x + 1\n"
    for i in range(1, n):
        s += f"def f{i}(x: int) -> int:\n    return f{i-1}(x) if x > {i} else f{max(i-2, 0)}(x)\n"
    return s + ret(f"f{n-1}(a)")


@construct("[0]")
def muts(n):
    s = "".join(f"def f{i}(x: int) -> int:\n    return x if x < 1 else f{(i+1)%n}(x - 1) + f{(i+2)%n}(x - 1)\n" for i in range(n))
    return s + ret("f0(a)")


@construct()
def fundefs(n):
    return "".join(f"def f{i}(x: int) -> int:\n    return x + {i}\n" for i in range(n)) + ret(" + ".join(f"f{i}(a)" for i in range(n)))


@construct()
def localdefs(n):
    s = "def validator(a: int) -> int:\n" + "".join(f"    def f{i}(x: int) -> int:\n        return {f'f{i-1}(x)' if i else 'x'} + a\n" for i in range(n))
    return s + f"    return f{n-1}(a)\n"


@construct("[A(3)]")
def methods(n):
    return REC + "".join(f"    def m{i}(self) -> int:\n        return self.x + {f'self.m{i-1}()' if i else '0'}\n" for i in range(n)) + f"def validator(a: A) -> int:\n    return a.m{n-1}()\n"


@construct("[A(3)]")
def meth(n):
    return REC + "    def m(self) -> 'A':\n        return A(self.x + 1)\n" + f"def validator(a: A) -> int:\n    return a{'.m()'*n}.x\n"


@construct("[A(3)]")
def addop(n):
    return REC + "    def __add__(self, o: 'A') -> 'A':\n        return A(self.x + o.x)\n    def __neg__(self) -> 'A':\n        return A(-self.x)\n" + f"def validator(a: A) -> int:\n    b = {' + '.join(['-a']*(n+1))}\n    return b.x\n"


@construct("[A(3)]")
def raddop(n):
    return REC + "    def __radd__(self, o: int) -> 'A':\n        return A(self.x + o)\n" + f"def validator(a: A) -> int:\n    b = {wrap('a', n, lambda e, i: f'(1 + {e})')}\n    return b.x\n"


@construct()
def cmpop(n):
    e = wrap("a", n, lambda e, i: f"B({e}, a).y" if i % 2 else f"B(a, {e}).y")
    return "@dataclass()\nclass B(PlutusData):\n    CONSTR_ID = 0\n    x: int\n    y: int\n    def __eq__(self, o: 'B') -> bool:\n        return self.x == o.x\n" + ret(f"B({e}, 1) == B(1, {e})", r="bool")


@construct()
def boolops(n):
    return ret(wrap("a > 0", n, lambda e, i: f"({e} and a > {i} or a < {i})"), r="bool")


@construct()
def boolflat(n):
    return ret(" and ".join(f"a < {i + 9}" for i in range(n)), r="bool")


@construct()
def cmpch(n):
    return ret(" <= ".join(["a"] * (n + 1)), r="bool")


@construct("[True]")
def nots(n):
    return ret("not " * n + "a", "bool", "bool")


@construct("[True]")
def eqn(n):
    return ret(wrap("a", n, lambda e, i: f"({e} == a)"), "bool", "bool")


@construct("[[1]]")
def fors(n):
    return "def validator(a: List[int]) -> int:\n    r = 0\n" + nested(n, "for x{i} in a:") + I * (n + 1) + "r += 1\n    return r\n"


@construct("[[1]]")
def forelse(n):
    return "def validator(a: List[int]) -> int:\n    r = 0\n" + nested(n, "for x{i} in a:", "    r += 1", "else:") + I * (n + 1) + "r += 1\n    return r\n"


@construct("[[1]]")
def forret(n):
    return "def validator(a: List[int]) -> int:\n    r = 0\n" + nested(n, "for x{i} in a:") + I * (n + 1) + "return r\n    return r\n"


@construct("[[1]]")
def forif(n):
    s = "def validator(a: List[int]) -> int:\n    r = 0\n"
    for i in range(n):
        s += I * (i + 1) + (f"for x{i} in a:\n" if i % 2 == 0 else f"if r > {-i}:\n")
    return s + I * (n + 1) + "r += 1\n    return r\n"


@construct("[2]")
def innerloop(n):
    return "def validator(a: int) -> int:\n    r = 0\n" + "".join(f"    for i{i} in range(a):\n        r += i{i}\n" for i in range(n)) + "    return r\n"


@construct("[1]")
def whiles(n):
    return "def validator(a: int) -> int:\n    r = 0\n" + nested(n, "while r < {i}:", "    r += 1") + "    return r\n"


@construct()
def comps(n):
    return ret(f"len({wrap('[a]', n, lambda e, i: f'[x{i} for x{i} in {e}]')})")


@construct()
def compn(n):
    return ret(f"len({wrap('a', n, lambda e, i: f'[{e} for x{i} in [1]]')})")


@construct()
def compif(n):
    return ret("len(%s)" % wrap("[1]", n, lambda e, i: f"[x{i} for x{i} in {e} if x{i} > a and x{i} < {i} or x{i} == a]"))


@construct()
def dictcomps(n):
    return ret(wrap("a", n, lambda e, i: "len({k: %s for k in [1]})" % e))


@construct()
def lists(n):
    return ret(f"len({wrap('a', n, lambda e, i: f'[{e}, {e}]' if i < 2 else f'[{e}]')})")


@construct()
def dicts(n):
    return ret(f"len({wrap('a', n, lambda e, i: '{a: %s}' % e)})")


@construct()
def dictget(n):
    return ret(wrap("a", n, lambda e, i: "{a: %s}[a]" % e))


@construct()
def subs(n):
    return ret(wrap("a", n, lambda e, i: f"[{e}][0]"))


@construct("[b'abcdefghijklmnopqrstuvwxyz']")
def slices(n):
    return ret("a" + "[1:]" * n, "bytes", "bytes")


@construct("['abc']")
def encs(n):
    return ret("a" + ".encode().decode()" * n, "str", "str")


@construct()
def strs(n):
    return ret(wrap("str(a)", n, lambda e, i: f"('x' + {e})"), r="str")


@construct()
def fparts(n):
    return ret('f"' + "{a}x" * n + '"', r="str")


@construct()
def plus(n):
    return ret(" + ".join(["a"] * (n + 1)))


@construct()
def minusr(n):
    return ret(wrap("a", n, lambda e, i: f"(a - {e})"))


@construct()
def uminus(n):
    return ret("-" * n + "a")


@construct()
def lets(n):
    return "def validator(a: int) -> int:\n    x0 = a\n" + "".join(f"    x{i+1} = x{i} + x{i}\n" for i in range(n)) + f"    return x{n}\n"


@construct()
def letlists(n):
    return "def validator(a: int) -> int:\n    x0 = [a]\n" + "".join(f"    x{i+1} = [len(x{i}), x{i}[0]]\n" for i in range(n)) + f"    return x{n}[0]\n"


@construct()
def globalvars(n):
    return "x0 = 1\n" + "".join(f"x{i+1} = x{i} + x{i}\n" for i in range(n)) + ret(f"a + x{n}")


@construct()
def tuples(n):
    return "def validator(a: int) -> int:\n" + "".join(f"    a, b{i} = a + 1, a\n" for i in range(n)) + "    return a\n"


@construct()
def tupnest(n):
    return f"def validator(a: int) -> int:\n    t = {wrap('a', n, lambda e, i: f'({e}, a)')}\n    return t[1]\n"


@construct()
def untup(n):
    e, v = wrap("x", n, lambda e, i: f"({e}, y{i})"), wrap("a", n, lambda e, i: f"({e}, a)")
    return f"def validator(a: int) -> int:\n    {e} = {v}\n    return x\n"


@construct("[99]")
def asserts(n):
    return "def validator(a: int) -> int:\n" + "".join(f"    assert a > {i}, 'x{i}'\n" for i in range(n)) + "    return a\n"


@construct("[A0(1, 2)]")
def unions(n):
    s = "".join(f"@dataclass()\nclass A{i}(PlutusData):\n    CONSTR_ID = {i}\n    x{i}: int\n    y: int\n" for i in range(n))
    s += f"U = Union[{', '.join(f'A{i}' for i in range(n))}]\ndef validator(u: U) -> int:\n    r = u.y\n"
    return s + "".join(f"    {'el' if i else ''}if isinstance(u, A{i}):\n        r += u.x{i}\n" for i in range(n)) + "    return r\n"


@construct("[A0(1, 2)]")
def unionuses(n):
    s = "".join(f"@dataclass()\nclass A{i}(PlutusData):\n    CONSTR_ID = {i}\n    x{i}: int\n    y: int\n" for i in range(2))
    return s + "def validator(u: Union[A0, A1]) -> int:\n    r = 0\n" + "".join(f"    r += u.x0 if isinstance(u, A0) else u.x1\n" for i in range(n)) + "    return r\n"


@construct("[A0(1, 2), 3]")
def unionnots(n):
    s = "".join(f"@dataclass()\nclass A{i}(PlutusData):\n    CONSTR_ID = {i}\n    x{i}: int\n    y: int\n" for i in range(2))
    c = wrap("isinstance(u, A0)", n, lambda e, i: f"(b > {i} and {e})" if i % 2 else f"(not not {e})")
    return s + f"def validator(u: Union[A0, A1], b: int) -> int:\n    if {c}:\n        return u.x0\n    return 0\n"


@construct(lambda n: "[" + wrap("A0(1)", n - 1, lambda e, i: f"A{i+1}({e}, 2)") + "]")
def recstr(n, body="str(a)", r="str"):
    s = "@dataclass()\nclass A0(PlutusData):\n    CONSTR_ID = 0\n    x: int\n"
    for i in range(1, n):
        s += f"@dataclass()\nclass A{i}(PlutusData):\n    CONSTR_ID = {i}\n    l: A{i-1}\n    r: int\n"
    return s + f"def validator(a: A{n-1}) -> {r}:\n    return {body}\n"


recarg = lambda n: "[" + wrap("A0(1)", n - 1, lambda e, i: f"A{i+1}({e}, 2)") + "]"


@construct(recarg)
def receq(n):
    return recstr(n, "a == a", "bool")


@construct(recarg)
def recin(n):
    return recstr(n, "a in [a]", "bool")


@construct(recarg)
def recget(n):
    return recstr(n, "a" + ".l" * (n - 1) + ".x", "int")


@construct(recarg)
def reccheck(n):
    return "from opshin.std.integrity import check_integrity\n" + recstr(n, "", "None").replace("return ", "check_integrity(a)")


listarg = lambda n: "[" + "[" * n + "1" + "]" * n + "]"


@construct(listarg)
def listeq(n):
    return ret("a == a", "List[" * n + "int" + "]" * n, "bool")


@construct(listarg)
def listid(n):
    t = "List[" * n + "int" + "]" * n
    return ret("a + a", t, t)


@construct(lambda n: "[" + wrap("1", n, lambda e, i: "{1: %s}" % e) + "]")
def dictid(n):
    t = "Dict[int, " * n + "int" + "]" * n
    return ret("a", t, t)


@construct()
def consts(n):
    return "".join(f"C{i} = {[i, i + 1]!r}\n" for i in range(n)) + ret("a" + "".join(f" + C{i}[0]" for i in range(n)))


# --------------------------------------------------------------------------
# random compositions: templates with one hole, cycled

EXPRS = [
    "({e} + a)", "(a - {e})", "({e} * b + {i})", "f({e})", "f(f({e}))", "g({e}, a)", "g(a, {e})", "[{e}, a][0]", "[a, {e}][1]", "[{e}][-1]",
    "({e} if a > {i} else b)", "(b if a > {i} else {e})", "(b if {e} > a else {i})", "max([{e}, a])", "min([a, {e}])", "abs({e})",
    "len([{e}])", "sum([q{i} for q{i} in [{e}]])", "[q{i} + {e} for q{i} in l][0]", "[{e} for q{i} in l if q{i} > 0][0]",
    "[q{i} for q{i} in l if q{i} < {e}][0]", "{{a: {e}}}[a]", "{{{e}: b}}.get(a, b)", "{{a: {e}}}.get(a, b)", "int(str({e}))", "len(str({e}).encode())",
    "P({e}, a).x", "P(a, {e}).y", "P({e}, a).m()", "P({e}, a).k({i})", "P(a, b).k({e})", "(P({e}, b) + P(a, b)).x", "(P(a, b) + P(b, {e})).y",
    "(-P({e}, b)).x", "-{e}", "(+{e})", "int(not {e} > a)", "int(a > 0 and {e} > {i})", "int({e} == a or b < 1)",
    "int(a > 0 or {e} > {i} and b < a)", "int({e} in [a, b])", "int(a in [a, {e}])", "int(0 < {e} < a)", "int(P({e}, a) == P(a, b))",
    "int(P({e}, a) in [P(a, b)])", "l[l.index(l[0]) + 0 * {e}]", "int(b'a' * 2 == b'a' * ({e} % 3))", "({e} // 2)", "({e} ** 2 % 1009)",
    "({e} if isinstance(u, P) else b)", "(u.x + {e} if isinstance(u, P) and u.x > 0 else b)", "len([c for c in range({e} % 3)])", "int(all([{e} > a, True]))", "int(any([False, {e} > a]))", "int(isinstance(u, P) and {e} > 0)",
    "len('ab'.encode() + bytes([{e} % 256]))", "int('a' + str({e}) == 'b')", "len(l[:{e} % 2])", "(a, {e})[1]",
]
# a block: lines, one of them BODY; {i} is the depth
BLOCKS = [
    ["if a > {i}:", "    BODY"],
    ["if a > {i}:", "    r += {i}", "else:", "    BODY"],
    ["if a > {i}:", "    BODY", "else:", "    r += {i}"],
    ["if a == {i}:", "    return r", "BODY"],
    ["if a > {i}:", "    BODY", "    return r + {i}", "r += 1"],
    ["if a == {i}:", "    r += 1", "elif b == {i}:", "    BODY", "else:", "    r += 2"],
    ["for v{i} in l:", "    BODY", "r += 1"],
    ["for v{i} in l:", "    r += v{i}", "    BODY"],
    ["for v{i} in l:", "    if v{i} == {i}:", "        r += 1", "    BODY"],
    ["w{i} = 1", "while w{i} > 0:", "    w{i} -= 1", "    BODY"],
    ["r += {i}", "BODY", "r -= 1"],
    ["x{i} = r + {i}", "BODY", "r += x{i}"],
    ["x{i}, y{i} = r, a", "BODY", "r += y{i}"],
    ["assert a > -{i} - 9, 'm'", "BODY"],
    ["u{i}: Union[P, Q] = u", "if isinstance(u{i}, P):", "    r += u{i}.x", "    BODY"],
    ["u{i}: Union[P, Q] = u", "if isinstance(u{i}, P):", "    BODY", "    r += u{i}.x", "else:", "    r += u{i}.z"],
    ["u{i}: Union[P, Q] = u", "if isinstance(u{i}, Q):", "    r += u{i}.z", "else:", "    BODY", "    r += u{i}.x"],
    ["u{i}: Union[P, Q] = u", "if isinstance(u{i}, P) and u{i}.x > {i}:", "    BODY"],
    ["u{i}: Union[P, Q] = u", "if isinstance(u{i}, P) or b > {i}:", "    BODY"],
    ["u{i}: Union[P, Q] = u", "if not isinstance(u{i}, Q):", "    r += u{i}.x", "    BODY"],
    ["d{i} = {{1: r}}", "BODY", "r += d{i}[1]"],
    ["p{i} = P(r, a)", "BODY", "r += p{i}.x"],
    ["p{i}: Union[P, Q] = P(r, a)", "BODY", "if isinstance(p{i}, P):", "    r += p{i}.x"],
    ["def h{i}(s: int) -> int:", "    r = s", "    BODY", "    return r", "r += h{i}(r)"],
    ["def h{i}(s: int, l: List[int]) -> int:", "    r = s + a", "    BODY", "    return r", "r += h{i}(b, [1])"],
    ["def h{i}(s: int) -> int:", "    return s + r", "BODY", "r += h{i}(a)"],
    ["s{i} = [r + q for q in l]", "BODY", "r += s{i}[0]"],
    ["BODY", "r = r + a"],
    ["pass", "BODY"],
]
PROGRAM = '''@dataclass()
class P(PlutusData):
    CONSTR_ID = 1
    x: int
    y: int
    def m(self) -> int:
        return self.x + 1
    def k(self, n: int) -> int:
        return self.x + n
    def __add__(self, o: "P") -> "P":
        return P(self.x + o.x, self.y)
    def __neg__(self) -> "P":
        return P(-self.x, self.y)


@dataclass()
class Q(PlutusData):
    CONSTR_ID = 2
    z: int


def f(x: int) -> int:
    return x + 1


def g(x: int, y: int) -> int:
    return x - y


def validator(a: int, b: int, l: List[int], u: Union[P, Q]) -> int:
    r = 0
%s
    return r
'''


def block_lines(tmpl, i, body):
    out = []
    for l in tmpl:
        if l.strip() == "BODY":
            ind = l[: len(l) - 4]
            out += [ind + b for b in body]
        else:
            out.append(l.format(i=i))
    return out


def composed(rng):
    es = rng.sample(EXPRS, rng.randrange(1, 4))
    bs = [rng.choice(BLOCKS) for _ in range(rng.randrange(1, 4))]
    mode = rng.choice(["e", "e", "b", "b", "be"])
    args = repr([rng.choice([0, 3, 30]), rng.randrange(0, 4), [rng.randrange(1, 4)]])[:-1] + rng.choice([", P(1, 2)]", ", Q(3)]"])

    def make(n):
        e = "a"
        for i in range(n if "e" in mode else 1):
            e = es[i % len(es)].format(e=e, i=i)
        body = [f"r += {e}"]
        for i in range(n if "b" in mode else 0):
            body = block_lines(bs[i % len(bs)], i, body)
        return HEAD + PROGRAM % "\n".join(I + l for l in body), args

    return make, mode, (es if "e" in mode else [], bs if "b" in mode else [])


def tasks(tier, seed, n=240, levels=("O0", "O3")):
    k = n * (12 if tier == "thorough" else 1)
    return [{"fixed": c, "level": l} for c in FIXED for l in levels] + [{"i": i} for i in range(k)]


def run(t, rep, tier, seed):
    if "fixed" in t:
        make, label, level = FIXED[t["fixed"]], t["fixed"], t["level"]
    else:
        rng = rng_for(seed, "growth", t["i"])
        make, mode, parts = composed(rng)
        level = rng.choice(["O0", "O1", "O2", "O3", "O3"])
        label = f"composed seed={seed} i={t['i']}"
    sizes = SIZES + ((24,) if tier == "thorough" else ())
    prev = None
    PS, INS = sys.monitoring.events.PY_START, sys.monitoring.events.INSTRUCTION
    for n in sizes:
        src, args = make(n)
        ratio = n / prev["n"] if prev else None
        budget = prev["compile"] * ratio**DEGREE + SLACK if prev else 50_000_000
        rep.event("programs")
        try:
            compile, cp = counted(lambda: ChainProgram(src, config(level)), PS, budget)
        except TooMuch:
            rep.violation(
                "the effort to compile explodes", label=f"growth {label} {level}", src=src, level=level,
                error=f"size {n}: more than {budget:.0f} calls, after {prev and prev['compile']} for size {prev and prev['n']}",
            )
            return
        except CompileFailure as e:
            if e.kind == "RecursionError":
                rep.event("too_deep")
            elif prev is None:
                if "fixed" in t:
                    rep.errors.append(f"{label}: {e}"[:600])
                rep.event("refused")
            else:
                rep.violation("a larger program of the same form is refused", label=f"growth {label} {level}", src=src, level=level, error=str(e)[:500])
            return
        cur = {"n": n, "compile": compile, "size": len(flatten(cp.code))}
        rep.event("compiled")
        rep.sig(label, level, n)
        if prev:
            rep.expect(
                cur["size"] <= prev["size"] * ratio**3 + 300, "the size of the program explodes", label=f"growth {label} {level}", src=src, level=level,
                error=f"size {n}: {cur['size']} bytes, after {prev['size']} for size {prev['n']}",
            )
        # execution: machine steps, where python's own work does not explode
        py = PyProgram(src)
        try:
            vals = eval(args, py.mod.__dict__)
            canon = [to_uplc(enc(v)) for v in vals]
            try:
                pysteps, _ = counted(lambda: py.run(vals), INS, 3_000_000)
                if prev and pysteps > prev["py"] * ratio**3 + 3000:
                    rep.event("python_explodes")
                    cur["py"] = cur["steps"] = None
            except TooMuch:
                cur["py"] = None
        finally:
            py.close()
        if cur.get("py", 0) is not None and (not prev or prev["py"] is not None):
            cur["py"] = pysteps
            allowed = int(prev["steps"] * ratio**DEGREE + 20_000) if prev else 1_500_000
            try:
                r = cek.run(prepare(cp.code), canon, allowed)
                cur["steps"] = r[3]
                rep.event("executed")
                rep.event("evaluations")
            except cek.OutOfSteps:
                rep.violation(
                    "the cost of execution explodes", label=f"growth {label} {level}", src=src, level=level,
                    error=f"size {n}: more than {allowed} steps, after {prev and prev['steps']} for size {prev and prev['n']}",
                )
                return
        else:
            cur["py"] = None
        prev = cur
    rep.event("scaled")
    rep.sample(construct=label, level=level, last=prev)
