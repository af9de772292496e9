"""Hostile value pools shared by the families."""

INTS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 8, 9, 10, -10, 15, 16, 31, 32, 63, 64, -64, 99, 100, 127, 128, -128,
        255, 256, -255, -256, 257, 1000, -1000, 65535, 65536, 2**31, -(2**31), 2**32 - 1, 2**63 - 1, -(2**63),
        2**64, 10**18, -(10**18), 2**127, -(2**200)]
SMALL = [0, 1, -1, 2, -2, 3, -3, 4, 5, 6, 7, 8, 10, -10, 12, 33]
BYTES = [b"", b"a", b"b", b"ab", b"ba", b"abc", b"abd", b"\x00", b"\x00\x00", b"\x01", b"\xff", b"\xff\x00", b"\x7f", b"\x80",
         b"\x00\xff\x80", b"hello world", b"123", b"-12", b" 7", b"0", b"xyz" * 11, b"\xe4\xbd\xa0", b"\xc3\x28",
         b"a" * 64, bytes(range(40)), b"Z", b"\n\t\r\\", b"ABCDEF", b"00ff", b"'", b'"', b"it's", b'a"b', b"'\"", b"\\'", b"/0:9`az{@AZ[fgFG", b"\x1f\x20\x7e\x7f"]
STRS = ["", "a", "b", "ab", "ba", "abc", "0", "1", "12", "-12", "+7", "007", "-0", "1_000", "_1", "1_", "1__0", "x", "12a", " 5", "5 ", "\f3", "3\v", "\r\n4\t", "\x1c6", "7\x1f", "\x007", " ", "\f", "1 2", "- 3", "+_1", "-1_", "1_2_3", "-0_0", "-", "+", "--1", "- 1",
        "00ff", "0g", "abcd", "ABCD", "abc0", "hello world", "\u00e4\u00f6\u00fc", "\u4f60\u597d", "\U0001f600", "a\nb", "tab\t",
        "99999999999999999999999", "-99999999999999999999999", "1.5", "1e5", "0x10", "True", "/", ":", "1:", "/1", "`a", "fg", "FG", "@A", "f/", "0:", "ag", "\u007f", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff"]
CODEPOINTS = [x + d for x in (0, 0x20, 0x7E, 0x80, 0x100, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF) for d in (-1, 0, 1)] + [0xD7FF, 0xE000, 0x1F40D, 2**21, 2**32]
BOOLS = [True, False]
LI = [[], [0], [1], [2, 1], [1, 2, 3], [3, 1, 2], [1, 1], [1, 2, 1], [-1, 255], [255, 256], [0, 0, 0, 0], [7, -7, 2**70, -(2**70)],
      [5, 4, 3, 2, 1], list(range(12)), [65, 66, 67], [0, 1], [1, 0], [10**20]]
LB = [[], [b""], [b"a"], [b"a", b"b"], [b"b", b"a", b"a"], [b"\xff", b"\x00", b""], [b"ab", b"abc", b"ab"]]
LS = [[], [""], ["a"], ["a", "b"], ["b", "a", "a"], ["\u00e4", "", "xyz"]]
LBOOL = [[], [True], [False], [True, False], [True, True], [False, False], [False, True, True]]
DII = [{}, {0: 1}, {1: 2}, {1: 2, 2: 1}, {2: 1, 1: 2}, {-1: 5, 0: 5, 7: 5}, {3: 0, 2**70: -1, 7: 7}]
DBI = [{}, {b"": 0}, {b"a": 1}, {b"a": 1, b"b": 2}, {b"b": 2, b"a": 1}, {b"\xff": -1, b"": 3, b"ab": 0}]
DSI = [{}, {"": 0}, {"a": 1}, {"b": 2, "a": 1}, {"\u00e4": -1, "x": 3}]
LLI = [[], [[]], [[1]], [[1, 2], [], [3]], [[], []], [[2], [1]]]
DIL = [{}, {1: []}, {1: [2, 3], 2: []}, {0: [0]}]
LDII = [[], [{}], [{1: 2}], [{}, {1: 1, 2: 2}]]

POOLS = {
    "int": INTS,
    "small": SMALL,
    "bytes": BYTES,
    "str": STRS,
    "bool": BOOLS,
    "List[int]": LI,
    "List[bytes]": LB,
    "List[str]": LS,
    "List[bool]": LBOOL,
    "Dict[int, int]": DII,
    "Dict[bytes, int]": DBI,
    "Dict[str, int]": DSI,
    "List[List[int]]": LLI,
    "Dict[int, List[int]]": DIL,
    "List[Dict[int, int]]": LDII,
}


def rand_int(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(INTS)
    if r < 0.9:
        return rng.randint(-300, 300)
    return rng.choice([1, -1]) * rng.getrandbits(rng.choice([8, 16, 33, 64, 65, 130]))


def rand_bytes(rng):
    if rng.random() < 0.7:
        return rng.choice(BYTES)
    return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))


def rand_str(rng):
    if rng.random() < 0.7:
        return rng.choice(STRS)
    if rng.random() < 0.4:
        # almost numbers
        ws = lambda: "".join(rng.choice(" \t\n\v\f\r\x1c\x1f\x00\x08\x0e") if rng.random() < 0.15 else rng.choice(" \t\n\v\f\r") for _ in range(rng.choice([0, 0, 1, 2])))
        digits = "".join(rng.choice("0123456789" if rng.random() < 0.85 else "_/:a") for _ in range(rng.randrange(0, 9)))
        return ws() + rng.choice(["", "", "-", "+", "--", "- "]) + digits + ws()
    return "".join(rng.choice("abcXYZ0189 _-+\u00e9\u20ac\U0001f40d") for _ in range(rng.randrange(0, 12)))


def rand_of(rng, t):
    """a random value of a table type (pool value or a generated one)"""
    if t == "int":
        return rand_int(rng)
    if t == "bytes":
        return rand_bytes(rng)
    if t == "str":
        return rand_str(rng)
    pool = POOLS[t]
    if rng.random() < 0.6 or t in ("small", "bool"):
        return rng.choice(pool)
    n = rng.choice([0, 1, 2, 3, 5, 9])
    if t == "List[int]":
        return [rand_int(rng) for _ in range(n)]
    if t == "List[bytes]":
        return [rand_bytes(rng) for _ in range(n)]
    if t == "List[str]":
        return [rand_str(rng) for _ in range(n)]
    if t == "List[bool]":
        return [rng.random() < 0.5 for _ in range(n)]
    if t == "Dict[int, int]":
        return {rand_int(rng): rand_int(rng) for _ in range(n)}
    if t == "Dict[bytes, int]":
        return {rand_bytes(rng): rand_int(rng) for _ in range(n)}
    return rng.choice(pool)
