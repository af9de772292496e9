"""Every supported operator, builtin and method on hostile values.

Expressions are grouped by signature and result type into selector-dispatch programs:
parameter k chooses the expression, so that one compilation is observed hundreds of times.
A second mode replaces the parameters by literals (constant folding, literal parsing)."""
import itertools

from vmon.diff import diff_case, rng_for
from vmon.values import CODEPOINTS, POOLS, rand_of

TASK_LIMIT = 200

HEAD = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
"""

# signature -> result type -> expressions
T = {}


def add(sig, ret, exprs):
    T.setdefault((sig, ret), []).extend(e.strip() for e in exprs.strip().split("\n") if e.strip())


I2 = (("a", "int"), ("b", "int"))
add(I2, "int", """
a + b
a - b
a * b
a // b
a % b
-a
+a
--a
a - -b
a + b * a - b // a
(a + b) * (a - b)
a // b * b + a % b
-a // b
a // -b
-a % b
a % -b
a * a * b
abs(a)
abs(a - b)
max([a, b])
min([a, b])
max([a, b, a + b, -a])
min([a, b, a - b, 0])
sum([a, b, a])
a if a > b else b
a if not a else b
int(a)
int(a == b)
int(a < b) + int(b < a)
int(str(a)) + b
int(bool(a))
int("12") + a
len([a, b, a])
[a, b, 3][b % 3]
[a, b][-1] + [a, b][-2]
{a: b}[a]
{a: 1, b: 2}[a]
{1: a, 2: b, 1: a + b}[1]
len({a: 1, b: 2})
{a: b}.get(b, 7)
a - b - 1
(a % 7 + b % 5) // 2
[a, b].index(b)
[b, a, b].index(a)
""")
add(I2, "bool", """
a == b
a != b
a < b
a <= b
a > b
a >= b
a == a
a < b < 10
a <= b <= a
0 < a < b
a == b == 1
a != b != 1
not a
not not a
bool(a)
bool(a - b)
a == b or a < b
a > 0 and b > 0
not (a > 0 and b > 0)
a > 0 or b > 0 or a == b
a > 0 and b > 0 or a < b
a in [b, 1, 2]
a not in [b, 1, 2]
a in {b: 1, 2: 3}.keys()
str(a) == str(b)
hex(a) == hex(b)
[a, b] == [b, a]
[a] == [b]
[a, b] != [b, a]
all([a > 0, b > 0])
any([a > 0, b > 0])
b == 0 or a // b == 0
b != 0 and a % b == 0
isinstance(a, int)
a == True
True == (a > 0)
(a > 0) != (b > 0)
(a > 0) == (b > 0)
""")
add(I2, "str", """
str(a)
str(a) + str(b)
hex(a)
oct(a)
hex(a) + oct(b)
f"{a}"
f"{a}-{b}"
f"a{a + b}b{a * b}"
str(a > b)
str([a, b])
str({a: b})
f"{[a, b]}"
f"{a == b}"
str(-a) + "x" * 3
"%" + str(a)
""")
add(I2, "bytes", """
str(a).encode()
hex(a).encode()
bytes([a, b])
bytes([a])
bytes([a % 256, b % 256])
""")
add(I2, "List[int]", """
[a, b]
[a, b] + [b, a]
[a, b, a + b][1:]
[a, b, 3, 4][1:3]
[x + a for x in [a, b, 1]]
[x for x in [a, b, 1] if x > a]
[x * b for x in [1, 2, 3] if x != a]
list_id([a, b])
[a if x == 1 else b for x in [0, 1]]
[x // b for x in [a, 1]]
""")
add(I2, "Dict[int, int]", """
{a: b}
{a: b, b: a}
{a: 1, b: 2, a: 3}
{a: b, 1: 2, 0: a}
{x: x + a for x in [a, b, 1]}
{x % 2: x for x in [a, b, 1, 2]}
{x: a for x in [a, b] if x > 0}
{1: a, 2: b, 1: 7}
""")
add((("a", "int"), ("n", "small")), "int", """
a ** n
pow(a, n)
2 ** n
(-a) ** n
-a ** n
a ** n % 1000
(a * 2) ** (n % 3)
[a, n, 3][n]
[1, 2, 3][n]
[a, 5][-n]
sum([x * a for x in range(n)])
len(range(n))
max(range(n))
min(range(n))
sum(range(n))
range(n)[a]
len([a] + [x for x in range(n)])
sum([a for x in range(n)])
n - (a > 0)
n + True
""")
add((("a", "int"), ("n", "small")), "List[int]", """
range(n)
[x for x in range(n)]
[x * x for x in range(n) if x % 2 == 0]
reversed(range(n))
range(n)[1:]
range(n)[n:]
range(n)[:n]
range(n)[:-n]
[1, 2, 3, 4, 5][n:]
[1, 2, 3, 4, 5][:n]
[1, 2, 3, 4, 5][n:a]
[1, 2, 3, 4, 5][a:n]
[1, 2, 3, 4, 5][1:n]
[1, 2, 3, 4, 5][n:-1]
[1, 2, 3, 4, 5][-3:n]
[1, 2, 3, 4, 5][:]
[x + y for x, y in {1: a, n: 2}.items()]
""")
B2 = (("s", "bytes"), ("t", "bytes"))
add(B2, "bytes", """
s + t
t + s
s
s * 2
s * 0
2 * s
s * len(t)
s + b""
s + b"\\x00" + t
s[1:]
s[:1]
s[:-1]
s[-2:]
s[1:3]
s[1:-1]
s[-3:-1]
s[3:1]
s[:]
s[len(t):]
s[:len(t)]
s[-len(t):]
s[100:]
s[:100]
s[-100:]
s[:-100]
s[-100:100]
(s + t)[1:4]
s.decode().encode()
s if s > t else t
b"a" if s == t else s
bytes([1, 2]) + s
bytes([x for x in [1, 2, 3]]) + s
s.ljust(5, b"x")
s.rjust(5, b"x")
s.ljust(0, b"y")
s.ljust(len(t), b"q")
s.rjust(len(t), b"q")
s.rjust(-1, b"q")
""")
add(B2, "int", """
len(s)
len(s + t)
s[0]
s[1]
s[-1]
s[-2]
s[len(s) - 1]
s[len(t)]
s[len(t) - len(s)]
s[-len(s)]
len(s[1:])
len(s) - len(t)
int(s.decode())
int(s == t) + int(s < t)
[s, t].index(t)
{s: 1, t: 2}[s]
len({s: 1, t: 2})
sum([len(x) for x in [s, t]])
""")
add(B2, "bool", """
s == t
s != t
s < t
s <= t
s > t
s >= t
s < t < b"b"
s in [t, b"a"]
s not in [t, b"a"]
not s
bool(s)
s and True if False else not s
len(s) > len(t)
s == b""
b"" == t
s + t == t + s
s[:1] == t[:1]
s.hex() == t.hex()
s.decode() == t.decode()
isinstance(s, bytes)
""")
add(B2, "str", """
s.hex()
(s + t).hex()
s.decode()
s.decode() + t.decode()
s[:2].hex()
f"{s.hex()}:{len(t)}"
""")
S2 = (("u", "str"), ("v", "str"))
add(S2, "str", """
u + v
u
u * 2
u * 0
u + "x" + v
f"{u}{v}"
f"{u}-{v}"
f"<{u}>"
str(u)
u if u == v else v
u.encode().decode()
u.encode().hex()
""")
add(S2, "bytes", """
u.encode()
(u + v).encode()
u.encode() + v.encode()
u.encode()[1:]
""")
add(S2, "int", """
len(u.encode())
int(u)
int(u) + int(v)
int("\\f" + u + "\\v")
int(u + "1" + v)
int("1" + u)
{u: 1, v: 2}[u]
len({u: 1, v: 2})
[u, v].index(v)
""")
add(S2, "bool", """
u == v
u != v
not u
bool(u)
u == ""
u + v == v + u
isinstance(u, str)
""")
add((("p", "bool"), ("q", "bool")), "bool", """
p and q
p or q
not p
not (p and q)
not p or q
p == q
p != q
p if q else not p
p and not q or q and not p
bool(p)
p < q
p > q
all([p, q])
any([p, q])
p == (not q)
""")
add((("p", "bool"), ("q", "bool")), "int", """
int(p)
int(p) + int(q)
1 if p else 0
(1 if p else 2) if q else (3 if p else 4)
1 + q
5 - p
sum([1 for x in [p, q] if x])
""")
add((("p", "bool"), ("q", "bool")), "str", """
str(p)
f"{p}{q}"
str([p, q])
str(p and q)
""")
L2 = (("l", "List[int]"), ("m", "List[int]"))
add(L2, "int", """
len(l)
len(l + m)
sum(l)
sum(l) - sum(m)
max(l)
min(l)
max(l + m)
l[0]
l[-1]
l[1]
l[-2]
l[2]
l[len(l) - 1]
l[len(m)]
l[-len(m)]
l[len(m) - 3]
l.index(1)
l.index(m[0])
m.index(l[-1])
sum([x * x for x in l])
sum([x for x in l if x > 0])
len([x for x in l if x in m])
sum([x * y for x, y in {1: 2, 3: 4}.items()])
len(l[1:])
sum(l[1:-1])
sum(l[:len(m)])
l[0] if l else -1
l[m[0]]
""")
add(L2, "bool", """
l == m
l != m
l == l
not l
bool(l)
1 in l
0 not in l
m[0] in l
l + m == m + l
l[1:] == m
all([x > 0 for x in l])
any([x in m for x in l])
len(l) == len(m)
[l] == [m]
""")
add(L2, "List[int]", """
l + m
l
m + l + m
l + [1]
[1] + l
l[1:]
l[:1]
l[:-1]
l[-2:]
l[1:3]
l[1:-1]
l[-3:-1]
l[3:1]
l[:]
l[len(m):]
l[:len(m)]
l[-len(m):]
l[100:]
l[:100]
l[-100:]
l[-100:2]
[x + 1 for x in l]
[x for x in l if x > 0]
[x for x in l if x not in m]
[x for x in l if x > 0 if x < 10]
[len(y) for y in [l, m]]
[sum([x * y for y in m]) for x in l]
reversed(l)
l if len(l) > len(m) else m
[x for x in range(len(l))]
[l[i] for i in range(len(l))]
[l[-i] for i in range(len(l))]
""")
add(L2, "bytes", """
bytes(l)
bytes(l + m)
bytes([x % 256 for x in l])
bytes(l)[1:]
""")
add(L2, "List[List[int]]", """
[l, m]
[l] + [m]
[l[1:], m[:1]]
[[x] for x in l]
[[x * y for y in m] for x in l]
""")
add(L2, "Dict[int, int]", """
{x: x * 2 for x in l}
{x: 1 for x in l if x in m}
{len(l): len(m)}
""")
add(L2, "str", """
str(l)
str(l + m)
f"{l}"
str([l, m])
""")
LB2 = (("x", "List[bytes]"), ("s", "bytes"))
add(LB2, "int", """
len(x)
x.index(s)
sum([len(y) for y in x])
len(x[0])
len([y for y in x if y == s])
""")
add(LB2, "bool", """
s in x
s not in x
x == [s]
x != [s]
not x
x == [s, s]
all([len(y) > 0 for y in x])
any([y == s for y in x])
""")
add(LB2, "bytes", """
x[0]
x[-1]
x[1] + s
x[0][:1]
[s] [0]
x[0] if len(x) > 0 else s
""")
add(LB2, "List[bytes]", """
x
x + [s]
[s] + x
x[1:]
[y + s for y in x]
[y for y in x if y != s]
[y[:1] for y in x]
[s for y in x]
reversed(x)
""")
add(LB2, "Dict[bytes, int]", """
{y: len(y) for y in x}
{s: 1}
{y + s: 0 for y in x if len(y) > 0}
""")
LS2 = (("x", "List[str]"), ("u", "str"))
add(LS2, "int", """
len(x)
x.index(u)
""")
add(LS2, "bool", """
x == [u]
not x
""")
add(LS2, "str", """
x[0]
x[-1] + u
f"{x[0]}{u}"
""")
add(LS2, "List[str]", """
x
x + [u]
[y + u for y in x]
x[1:]
x[:-1]
""")
add((("x", "List[bool]"), ("p", "bool")), "bool", """
all(x)
any(x)
x[0]
x[-1]
x == [p]
all(x + [p])
any([not y for y in x])
""")
add((("x", "List[bool]"), ("p", "bool")), "int", """
len(x)
len([y for y in x if y])
len([y for y in x if y == p])
""")
add((("x", "List[bool]"), ("p", "bool")), "List[bool]", """
x
x + [p]
[not y for y in x]
[y and p for y in x]
""")
D2 = (("d", "Dict[int, int]"), ("k", "small"))
add(D2, "int", """
d[k]
d[1]
d.get(k, 99)
d.get(k + 1, d.get(k, -5))
len(d)
sum(d.values())
sum(d.keys())
max(d.values())
sum([x * y for x, y in d.items()])
sum([d[x] for x in d.keys()])
len(d.keys())
len(d.items())
len({x: 1 for x in d.values()})
""")
add(D2, "bool", """
k in d.keys()
k in d.values()
not d
bool(d)
""")
add(D2, "Dict[int, int]", """
d
{k: 1}
{x: y + k for x, y in d.items()}
{y: x for x, y in d.items()}
{x: d[x] for x in d.keys() if x > k}
{x: y for x, y in d.items() if y != k}
""")
add(D2, "List[int]", """
[x for x in d.keys()]
[x for x in d.values()]
[x + y for x, y in d.items()]
[d.get(x, -1) for x in range(4)]
[y for x, y in d.items() if x == k]
""")
add(D2, "str", """
str(d)
f"{d}"
""")
DB2 = (("d", "Dict[bytes, int]"), ("s", "bytes"))
add(DB2, "int", """
d[s]
d.get(s, -1)
len(d)
sum(d.values())
sum([len(x) * y for x, y in d.items()])
""")
add(DB2, "bool", """
not d
""")
add(DB2, "Dict[bytes, int]", """
d
{x + s: y for x, y in d.items()}
{s: d.get(s, 7)}
""")
DS2 = (("d", "Dict[str, int]"), ("u", "str"))
add(DS2, "int", """
d[u]
d.get(u, -1)
len(d)
""")
add(DS2, "bool", """
not d
""")
add(DS2, "Dict[str, int]", """
d
{x + u: y for x, y in d.items()}
""")
N2 = (("x", "List[List[int]]"), ("l", "List[int]"))
add(N2, "int", """
len(x)
sum([len(y) for y in x])
sum([sum(y) for y in x])
x[0][0]
x[-1][-1]
len(x[0])
x.index(l)
""")
add(N2, "bool", """
x == [l]
x != [l, l]
not x
""")
add(N2, "List[List[int]]", """
x
x + [l]
[y + l for y in x]
x[1:]
[[z + 1 for z in y] for y in x]
[y[1:] for y in x]
[y for y in x if len(y) > 0]
""")
add(N2, "List[int]", """
x[0]
x[0] + l
[len(y) for y in x]
""")
DL2 = (("d", "Dict[int, List[int]]"), ("k", "small"))
add(DL2, "int", """
len(d[k])
sum(d[k])
d[k][0]
sum([len(y) for y in d.values()])
sum([x + len(y) for x, y in d.items()])
""")
add(DL2, "List[int]", """
d[k]
d.get(k, [5])
""")
add(DL2, "Dict[int, List[int]]", """
d
{x: y + [k] for x, y in d.items()}
{k: [k]}
""")
add((("x", "List[Dict[int, int]]"), ("k", "small")), "int", """
len(x)
x[0][k]
sum([y.get(k, 3) for y in x])
sum([len(y) for y in x])
""")
add((("x", "List[Dict[int, int]]"), ("k", "small")), "bool", """
not x
""")
NEST = (("s", "bytes"), ("n", "small"))
add(NEST, "bytes", """
s * n
n * s
s[n:]
s[:n]
s[n:n + 2]
s[n:-1]
s[-n:]
s[:-n]
bytes(n)
bytes(n) + s
s.ljust(n, b"z")
s.rjust(n, b"z")
s[0:n]
s[-n:n]
s[n - 1:n]
""")
add(NEST, "int", """
s[n]
s[-n]
len(s * n)
s[n] + s[n - 1]
len(bytes(n))
""")
add(NEST, "bool", """
s[n:] == b""
s * n == b""
""")
add((("u", "str"), ("n", "small")), "str", """
u * n
n * u
u + str(n)
f"{u}{n}"
f"{u * n}"
""")
add((("u", "str"), ("n", "small")), "int", """
int(u * n)
""")
add((("n", "int"), ("u", "str")), "str", """
chr(n)
chr(n) + u
chr(n % 128)
""")
DATES = (("a", "int"), ("s", "bytes"))
add(DATES, "int", """
len({a: s})
len({s: a})
{s: a}[s]
a + len(s)
s[a]
""")
add(DATES, "str", """
f"{a}{s.hex()}"
str({a: s})
str([s])
""")
add(DATES, "bytes", """
{a: s}[a]
{1: s, a: b"x"}[1]
{1: s}.get(a, b"none")
s[a:]
s[:a]
s[a:a + 3]
""")

# not in the supported subset at present: rejected, or else they must behave as in Python
MAYBE = [
    ((('a', 'int'), ('b', 'int')), 'List[int]', '[a] + []'),
    ((('a', 'int'), ('b', 'int')), 'bool', 'a in {b: 1, 2: 3}'),
    ((('a', 'int'), ('b', 'int')), 'bool', '{a: 1} == {b: 1}'),
    ((('a', 'int'), ('b', 'int')), 'bool', 'a < True'),
    ((('a', 'int'), ('b', 'int')), 'bool', '(a > b) < 1'),
    ((('a', 'int'), ('b', 'int')), 'bool', '(a > b) > 0'),
    ((('a', 'int'), ('b', 'int')), 'int', 'len(str(a))'),
    ((('a', 'int'), ('b', 'int')), 'int', 'len(hex(a))'),
    ((('a', 'int'), ('n', 'small')), 'int', '(a > 0) * n + n'),
    ((('a', 'int'), ('n', 'small')), 'int', 'n * (a > 0)'),
    ((('a', 'int'), ('n', 'small')), 'int', '(a > 0) + n'),
    ((('d', 'Dict[bytes, int]'), ('s', 'bytes')), 'bool', 's in d'),
    ((('d', 'Dict[bytes, int]'), ('s', 'bytes')), 'bool', 's not in d'),
    ((('d', 'Dict[bytes, int]'), ('s', 'bytes')), 'bool', 'd == {s: 1}'),
    ((('d', 'Dict[int, List[int]]'), ('k', 'small')), 'List[int]', '[z for y in d.values() for z in y]'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'List[int]', '[x for x in d]'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'bool', 'k in d'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'bool', 'k not in d'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'bool', 'd == {1: 2}'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'bool', 'd != {1: 2}'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'bool', 'd == d'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'bool', 'd == {}'),
    ((('d', 'Dict[int, int]'), ('k', 'small')), 'int', 'd[k] if k in d else 0'),
    ((('d', 'Dict[str, int]'), ('u', 'str')), 'bool', 'u in d'),
    ((('d', 'Dict[str, int]'), ('u', 'str')), 'bool', 'd == {u: 1}'),
    ((('d', 'Dict[str, int]'), ('u', 'str')), 'int', 'sum([len(x) for x in d.keys()])'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'Dict[int, int]', '{x: y for x in l for y in m}'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'List[List[int]]', '[[x, y] for x in l for y in m]'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'List[int]', '[x * y for x in l for y in m]'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'List[int]', '[x for y in [l, m] for x in y]'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'bool', 'l == []'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'bool', '[] == m'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'bool', 'l in [m]'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'bool', 'l in [m, [1]]'),
    ((('l', 'List[int]'), ('m', 'List[int]')), 'int', 'len([1 for x in l for y in m if x == y])'),
    ((('p', 'bool'), ('q', 'bool')), 'bool', 'p in [q]'),
    ((('p', 'bool'), ('q', 'bool')), 'int', 'p + 1'),
    ((('p', 'bool'), ('q', 'bool')), 'int', 'p * 5'),
    ((('p', 'bool'), ('q', 'bool')), 'int', '5 * q'),
    ((('s', 'bytes'), ('n', 'small')), 'bool', 'n in s'),
    ((('s', 'bytes'), ('n', 'small')), 'bool', 'n not in s'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bool', 's in {t: 1}'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bool', '97 in s'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bool', '0 in s'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bool', 'len(t) in s'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bool', '255 not in s'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bytes', 'bytes.fromhex("00ff") + s'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bytes', 's.ljust(3)'),
    ((('s', 'bytes'), ('t', 'bytes')), 'bytes', 's.rjust(12)'),
    ((('s', 'bytes'), ('t', 'bytes')), 'int', 'len(s.hex())'),
    ((('s', 'bytes'), ('t', 'bytes')), 'int', 'len(s.decode())'),
    ((('u', 'str'), ('n', 'small')), 'int', 'len(u * n)'),
    ((('u', 'str'), ('v', 'str')), 'bool', 'u in [v, "a"]'),
    ((('u', 'str'), ('v', 'str')), 'bool', 'u not in [v, "a"]'),
    ((('u', 'str'), ('v', 'str')), 'bool', 'u in {v: 1}'),
    ((('u', 'str'), ('v', 'str')), 'bytes', 'bytes.fromhex(u)'),
    ((('u', 'str'), ('v', 'str')), 'int', 'len(u)'),
    ((('u', 'str'), ('v', 'str')), 'int', 'len(u + v)'),
    ((('x', 'List[Dict[int, int]]'), ('k', 'small')), 'bool', '{k: 1} in x'),
    ((('x', 'List[Dict[int, int]]'), ('k', 'small')), 'bool', 'x == [{1: 2}]'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'List[int]', '[z for y in x for z in y]'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'List[int]', '[z for y in x + [l] for z in y if z > 1]'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'bool', 'l in x'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'bool', 'l not in x'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'bool', '[] in x'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'bool', 'x == []'),
    ((('x', 'List[List[int]]'), ('l', 'List[int]')), 'int', 'len([z for y in x for z in y])'),
    ((('x', 'List[bool]'), ('p', 'bool')), 'bool', 'p in x'),
    ((('x', 'List[str]'), ('u', 'str')), 'bool', 'u in x'),
    ((('x', 'List[str]'), ('u', 'str')), 'bool', 'u not in x'),
    ((('x', 'List[str]'), ('u', 'str')), 'int', 'sum([len(y) for y in x])'),
]


def program(sig, ret, exprs, subst=None):
    params = ", ".join(f"{n}: {'int' if t == 'small' else t}" for n, t in sig)
    lines = [HEAD]
    if any("list_id(" in e for e in exprs):
        lines.append("def list_id(z: List[int]) -> List[int]:\n    return z\n")
    lines.append(f"def validator(k_: int, {params}) -> {ret}:")
    for i, e in enumerate(exprs):
        lines.append(f"    {'if' if i == 0 else 'elif'} k_ == {i}:\n        return {e}")
    lines.append("    else:\n        assert False, 'no such case'")
    return "\n".join(lines) + "\n"


def groups():
    return sorted(T.items(), key=repr)


CHUNK = 14


def usable(e, env):
    """keep the workload within what both machines can do: no giant powers or repetitions"""
    if ("**" in e or "pow(" in e) and max([abs(v) for v in env.values() if isinstance(v, int)] + [0]) > 10**6 and env.get("n", 0) > 12:
        return False
    return True


def tasks(tier, seed, levels=("O2",), combos=20, literal=True, maybe=False, thorough=8, only_ret=None):
    out = []
    for g, ((sig, ret), exprs) in enumerate(groups()):
        if only_ret and ret != only_ret:
            continue
        for c in range(0, len(exprs), CHUNK):
            out.append({"mode": "args", "g": g, "c": c, "levels": list(levels), "combos": combos * (thorough if tier == "thorough" else 1)})
            if literal:
                for rep in range(thorough if tier == "thorough" else 1):
                    out.append({"mode": "literal", "g": g, "c": c, "levels": list(levels), "rep": rep})
    if maybe:
        for i in range(0, len(MAYBE), 8):
            out.append({"mode": "maybe", "i": i, "levels": list(levels)})
    return out


def run(t, rep, tier, seed):
    if t["mode"] == "maybe":
        for sig, ret, e in MAYBE[t["i"] : t["i"] + 8]:
            rng = rng_for(seed, "operators-maybe", e)
            args = [[0] + [rand_of(rng, ty) for _, ty in sig] for _ in range(12)]
            diff_case(rep, program(sig, ret, [e]), args, levels=t["levels"], must_compile=False, label=f"operators {e}")
        return
    (sig, ret), exprs = groups()[t["g"]]
    exprs = exprs[t["c"] : t["c"] + CHUNK]
    rng = rng_for(seed, "operators", t["mode"], t["g"], t["c"], t.get("rep", 0))
    if t["mode"] == "args":
        src = program(sig, ret, exprs)
        argsets = []
        full = list(itertools.product(*[POOLS[ty] for _, ty in sig]))
        for i, e in enumerate(exprs):
            chosen = full if len(full) <= t["combos"] else rng.sample(full, min(len(full), t["combos"] * 2 // 3))
            chosen = chosen + [tuple(rand_of(rng, ty) for _, ty in sig) for _ in range(t["combos"] // 3)]
            if "chr(n" in e and sig[0][0] == "n":
                chosen += [(c,) + tuple(rand_of(rng, ty) for _, ty in sig[1:]) for c in CODEPOINTS]
            for vals in chosen:
                if usable(e, dict(zip([n for n, _ in sig], vals))):
                    argsets.append([i] + list(vals))
        diff_case(rep, src, argsets, levels=t["levels"], label=f"operators {sig} -> {ret} chunk {t['c']}", stock=1)
        return
    # literals: each expression with random constants bound in the module or inline
    body, n = [], 0
    for e in exprs:
        for _ in range(3):
            vals = {name: rand_of(rng, ty) for name, ty in sig}
            if not usable(e, vals) or not literal_ok(vals):
                continue
            body.append((e, vals, rng.random() < 0.5))
            n += 1
    if not body:
        return
    lines = [HEAD]
    if any("list_id(" in e for e, _, _ in body):
        lines.append("def list_id(z: List[int]) -> List[int]:\n    return z\n")
    cases = []
    for i, (e, vals, inline) in enumerate(body):
        if inline:
            cases.append(substitute(e, vals, dict(sig)))
        else:
            for name, ty in sig:
                lines.append(f"{name}_{i}_: {'int' if ty == 'small' else ty} = {vals[name]!r}")
            cases.append(substitute(e, {n_: Name(f"{n_}_{i}_") for n_, _ in sig}, dict(sig)))
    lines.append(f"def validator(k_: int) -> {ret}:")
    for i, e in enumerate(cases):
        lines.append(f"    {'if' if i == 0 else 'elif'} k_ == {i}:\n        return {e}")
    lines.append("    else:\n        assert False, 'no such case'")
    src = "\n".join(lines) + "\n"
    diff_case(rep, src, [[i] for i in range(len(cases))], levels=t["levels"], label=f"literals {sig} -> {ret} chunk {t['c']} rep {t['rep']}", must_compile=False)


class Name:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


def literal_ok(vals):
    return all(v not in ([], {}) and v != [[]] and not (isinstance(v, (list, dict)) and _has_empty(v)) for v in vals.values())


def _has_empty(v):
    if isinstance(v, dict):
        return v == {} or any(_has_empty(x) for x in v.values())
    if isinstance(v, list):
        return v == [] or any(_has_empty(x) for x in v)
    return False


def substitute(e, vals, types):
    import ast

    class S(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in vals and isinstance(n.ctx, ast.Load):
                v = vals[n.id]
                return ast.parse(repr(v), mode="eval").body
            return n

    tree = ast.parse(e, mode="eval")
    bound = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    vals = {k: v for k, v in vals.items() if k not in bound}
    return ast.unparse(S().visit(tree))
