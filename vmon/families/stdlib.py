"""The standard library: wrapped builtins, hash functions, BLS curves, integer and fraction arithmetic, bitmaps and
intervals, each observed compiled and in Python, and against an independent oracle."""
import fractions
import hashlib
import math

from vmon.core import ChainProgram, CompileFailure, NotEncodable, PyProgram, TimeLimit, agree, config, enc, limit
from vmon.diff import confirm, rng_for
from vmon.values import BYTES, SMALL, STRS, rand_bytes, rand_int, rand_str

TASK_LIMIT = 150
ERR = object()  # the oracle says: fails
SKIP = object()  # the oracle has no opinion


def both(rep, src, argsets, level, oracle, label, finding=None, must_compile=True):
    """chain against Python, and Python against the oracle (on the python values)"""
    py = PyProgram(src)
    try:
        if py.load_error is not None:
            rep.errors.append(f"{label}: {py.load_error!r}")
            return
        try:
            cp = ChainProgram(src, config(level))
        except CompileFailure as e:
            rep.violation("a program using the standard library was rejected", label=label, level_=level, error=str(e)[:500], source_=src)
            return
        rep.event("compiled")
        for args in argsets:
            if isinstance(args, str):
                args = eval(args, dict(py.mod.__dict__))
            want = oracle(*args)
            if want is SKIP:
                continue
            try:
                with limit(25):
                    canon = [enc(a) for a in args]
                    po = py.run(list(args))
                    co = cp.run(canon)
                want = want if want is ERR else enc(want)
            except (NotEncodable, TimeLimit):
                rep.event("inconclusive")
                continue
            rep.event("outcome_" + po.status)
            rep.sig(src, level, canon)
            if not agree(po, co) and not confirm(cp, canon, po, False, False):
                rep.errors.append(f"{label}: own machine disagrees with stock on {args!r}")
                continue
            a = rep.expect(agree(po, co), "the compiled library function and Python disagree", finding=finding, label=label, level_=level, args=repr(args)[:400], python=po.brief()[:300], chain=co.brief()[:300], source_=src)
            b = rep.expect((co.status != "ok") if want is ERR else (co.status == "ok" and co.value == want), "a library function computes something else than documented", label=label, level_=level, args=repr(args)[:400], want="failure" if want is ERR else repr(want)[:300], chain=co.brief()[:300], source_=src)
            if not (a and b):
                break
        rep.sample(program=src[-300:], level=level)
    finally:
        py.close()


def attempt(f):
    def g(*a):
        try:
            return f(*a)
        except Exception:
            return ERR

    return g


def need(c):
    if not c:
        raise ValueError


def bits(op, fill):
    def f(pad, a, b):
        n = max(len(a), len(b)) if pad else min(len(a), len(b))
        x = (a + bytes([fill]) * n)[:n]
        y = (b + bytes([fill]) * n)[:n]
        return bytes(op(p, q) for p, q in zip(x, y))

    return f


def shift(a, n):
    w = 8 * len(a)
    v = int.from_bytes(a, "big")
    if abs(n) >= w:
        return bytes(len(a))
    v = (v << n) & ((1 << w) - 1) if n >= 0 else v >> -n
    return v.to_bytes(len(a), "big")


def rotate(a, n):
    w = 8 * len(a)
    if not w:
        return a
    n %= w
    v = int.from_bytes(a, "big")
    return (((v << n) | (v >> (w - n))) & ((1 << w) - 1)).to_bytes(len(a), "big")


def write_bits(a, idx, v):
    x = int.from_bytes(a, "big")
    for i in idx:
        need(0 <= i < 8 * len(a))
        x = x | (1 << i) if v else x & ~(1 << i)
    return x.to_bytes(len(a), "big")


def read_bit(a, i):
    need(0 <= i < 8 * len(a))
    return bool(int.from_bytes(a, "big") >> i & 1)


def to_bytes(big, w, v):
    need(v >= 0 and 0 <= w <= 8192)
    n = (v.bit_length() + 7) // 8
    need(w == 0 or n <= w)
    need(n <= 8192)
    return v.to_bytes(w or n, "big" if big else "little")


def slice_(x, y, z):
    x, y = max(x, 0), max(y, 0)
    return z[x : x + y]


def index(b, i):
    need(0 <= i < len(b))
    return b[i]


def cons(x, b):
    need(0 <= x < 256)
    return bytes([x]) + b


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def replicate(n, b):
    need(0 <= n <= 8192 and 0 <= b < 256)
    return bytes([b]) * n


def first_bit(a):
    x = int.from_bytes(a, "big")
    return (x & -x).bit_length() - 1


def blake(n):
    return lambda x: hashlib.blake2b(x, digest_size=n).digest()


I, B, S, BO, IDX, A, LA, LI, BIT = "int", "bytes", "str", "bool", "idx", "Anything", "List[Anything]", "List[int]", "bitidx"
BUILTINS = [
    ("add_integer", [I, I], "int", lambda a, b: a + b),
    ("subtract_integer", [I, I], "int", lambda a, b: a - b),
    ("multiply_integer", [I, I], "int", lambda a, b: a * b),
    ("divide_integer", [I, I], "int", lambda a, b: a // b),
    ("mod_integer", [I, I], "int", lambda a, b: a % b),
    ("quotient_integer", [I, I], "int", tdiv),
    ("remainder_integer", [I, I], "int", lambda a, b: a - b * tdiv(a, b)),
    ("equals_integer", [I, I], "bool", lambda a, b: a == b),
    ("less_than_integer", [I, I], "bool", lambda a, b: a < b),
    ("less_than_equals_integer", [I, I], "bool", lambda a, b: a <= b),
    ("append_byte_string", [B, B], "bytes", lambda a, b: a + b),
    ("cons_byte_string", ["byte", B], "bytes", cons),
    ("slice_byte_string", [IDX, IDX, B], "bytes", slice_),
    ("length_of_byte_string", [B], "int", len),
    ("index_byte_string", [B, IDX], "int", index),
    ("equals_byte_string", [B, B], "bool", lambda a, b: a == b),
    ("less_than_byte_string", [B, B], "bool", lambda a, b: a < b),
    ("less_than_equals_byte_string", [B, B], "bool", lambda a, b: a <= b),
    ("sha2_256", [B], "bytes", lambda a: hashlib.sha256(a).digest()),
    ("sha3_256", [B], "bytes", lambda a: hashlib.sha3_256(a).digest()),
    ("blake2b_256", [B], "bytes", blake(32)),
    ("blake2b_224", [B], "bytes", blake(28)),
    ("append_string", [S, S], "str", lambda a, b: a + b),
    ("equals_string", [S, S], "bool", lambda a, b: a == b),
    ("encode_utf8", [S], "bytes", lambda a: a.encode()),
    ("decode_utf8", [B], "str", lambda a: a.decode()),
    ("integer_to_byte_string", [BO, "width", "nat"], "bytes", to_bytes),
    ("byte_string_to_integer", [BO, B], "int", lambda big, a: int.from_bytes(a, "big" if big else "little")),
    ("and_byte_string", [BO, B, B], "bytes", bits(lambda p, q: p & q, 255)),
    ("or_byte_string", [BO, B, B], "bytes", bits(lambda p, q: p | q, 0)),
    ("xor_byte_string", [BO, B, B], "bytes", bits(lambda p, q: p ^ q, 0)),
    ("complement_byte_string", [B], "bytes", lambda a: bytes(255 - x for x in a)),
    ("read_bit", [B, BIT], "bool", read_bit),
    ("write_bits", [B, "bitidxs", BO], "bytes", write_bits),
    ("replicate_byte", ["width", "byte"], "bytes", replicate),
    ("shift_byte_string", [B, "shift"], "bytes", shift),
    ("rotate_byte_string", [B, "shift"], "bytes", rotate),
    ("count_set_bits", [B], "int", lambda a: int.from_bytes(a, "big").bit_count()),
    ("find_first_set_bit", [B], "int", first_bit),
    ("constr_data", ["nat", LA], "Anything", None),
    ("equals_data", [A, A], "bool", lambda a, b: enc(a) == enc(b)),
    ("serialise_data", [A], "bytes", None),
]
ANN = {"idx": "int", "byte": "int", "width": "int", "nat": "int", "bitidx": "int", "bitidxs": "List[int]", "shift": "int"}


def operand(rng, k, prev):
    from vmon.typed import rand_typed
    from pycardano import Datum
    import typing

    b = next((x for x in prev if isinstance(x, bytes)), b"abc")
    if k == I:
        return rand_int(rng) if rng.random() < 0.8 or not prev else prev[0]
    if k == B:
        return prev[-1] if prev and isinstance(prev[-1], bytes) and rng.random() < 0.2 else (rng.choice(BYTES) if rng.random() < 0.6 else rand_bytes(rng))
    if k == S:
        return prev[-1] if prev and rng.random() < 0.3 else rand_str(rng)
    if k == BO:
        return rng.random() < 0.5
    if k == IDX:
        return rng.choice([0, 1, 2, 3, -1, len(b) - 1, len(b), len(b) + 1, 7, 64, -5, 2**64])
    if k == "byte":
        return rng.choice([0, 1, 65, 127, 128, 254, 255, 256, -1, 300, -255, 513])
    if k == "width":
        return rng.choice([0, 1, 2, 3, 8, 31, 32, 33, 100, -1, 8191, 8192, 8193])
    if k == "nat":
        return rng.choice([0, 1, 6, 7, 127, 128, 255, 256, 65535, 65536, 2**63, 2**64 - 1]) if rng.random() < 0.6 else abs(rand_int(rng))
    if k == BIT:
        return rng.choice([0, 1, 7, 8, 9, 8 * len(b) - 1, 8 * len(b), -1, 15])
    if k == "bitidxs":
        return [operand(rng, BIT, prev) if rng.random() < 0.15 else rng.randrange(0, 8 * len(b) or 1) for _ in range(rng.choice([0, 1, 2, 5]))]
    if k == "shift":
        return rng.choice([0, 1, -1, 4, 7, 8, -8, 9, 8 * len(b), -8 * len(b), 8 * len(b) - 1, 1000, -1000, 13, -13])
    if k == A:
        return prev[-1] if prev and rng.random() < 0.4 else rand_typed(rng, Datum, 3)
    if k == LA:
        return [rand_typed(rng, Datum, 2) for _ in range(rng.choice([0, 1, 3]))]
    raise KeyError(k)



HEAD = "from opshin.std.builtins import *\n"


def builtin_case(j, rng, rep, label):
    name, kinds, ret, oracle = BUILTINS[j]
    if name == "constr_data":
        def oracle(i, fs):
            return _Raw(("C", i, tuple(enc(f) for f in fs)))
    if name == "serialise_data":
        oracle = None
    params = [f"a{q}" for q in range(len(kinds))]
    sig = ", ".join(f"{p}: {ANN.get(k, k)}" for p, k in zip(params, kinds))
    sets = []
    for _ in range(40):
        v = []
        for k in kinds:
            v.append(operand(rng, k, v))
        sets.append(v)
    forms = [f"    return {name}({', '.join(params)})\n", f"    r = {name}({', '.join(params)})\n    return r\n"]
    src = HEAD + f"def validator({sig}) -> {ret}:\n" + rng.choice(forms)
    o = attempt(oracle) if oracle else None
    if o is None:
        def o(a):
            return _Cbor(enc(a))
    _both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), o, label + " " + name)
    # through a renamed import and as literals (constant folding)
    if ret != "Anything":
        for v in sets[:2]:
            if any(k in (A, LA) for k in kinds) or any(isinstance(x, str) and not x.isascii() for x in v):
                continue
            src = HEAD + f"def validator(_: int) -> {ret}:\n    return {name}({', '.join(map(repr, v))})\n"
            if "[]" in src:
                continue
            if o(*v) is ERR:
                continue  # rejected while folding, or fails: both are fine
            _both(rep, src, [[0]], rng.choice(["O2", "O3", "O3"]), lambda _: o(*v), label + " " + name + " literal")


class _Raw:
    def __init__(self, c):
        self.c = c


class _Cbor:
    def __init__(self, c):
        self.c = c


def _both(rep, src, sets, level, oracle, label):
    """oracles of data builtins are given in canonical form"""

    def o(*a):
        w = oracle(*a)
        if isinstance(w, _Raw):
            import cbor2
            import pycardano
            import uplc.ast as ua

            from vmon.core import to_uplc

            return pycardano.RawCBOR(ua.plutus_cbor_dumps(to_uplc(w.c)))
        if isinstance(w, _Cbor):
            return Decodes(w.c)
        return w

    both(rep, src, sets, level, lambda *a: o(*a) if not isinstance(o(*a), Decodes) else SERIAL(o(*a).c), label)


class Decodes:
    def __init__(self, c):
        self.c = c


def SERIAL(c):
    """the encoding by the uplc package, which decodes to the same data"""
    import uplc.ast as ua

    from vmon.core import dec_uplc, to_uplc

    b = ua.plutus_cbor_dumps(to_uplc(c))
    assert dec_uplc(ua.data_from_cbor(b)) == c
    return b


# -- hashlib, bls -----------------------------------------------------------------------------


def hash_case(rng, rep, label):
    for fn, lib, finding in (("sha256", hashlib.sha256, None), ("sha3_256", hashlib.sha3_256, None), ("blake2b", None, "blake2b-digest-size")):
        sets = [[rng.choice(BYTES) if rng.random() < 0.7 else rand_bytes(rng) * 4] for _ in range(12)] + [[bytes(200)]]
        oracle = (lambda a: lib(a).digest()) if lib else blake(32)
        for imp, call in (
            (f"from hashlib import {fn}\n", f"{fn}(a).digest()"),
            (f"from opshin.std.hashlib import *\n", f"{fn}(a).digest()"),
            (f"from hashlib import {fn} as hf\n", f"hf(a).digest()"),
            (f"from hashlib import sha256, sha3_256, blake2b\ndef h(x: bytes) -> bytes:\n    return {fn}(x + b'').digest()\n", "h(a)"),
        ):
            src = imp + f"def validator(a: bytes) -> bytes:\n    return {call}\n"
            both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), oracle, f"{label} {fn}", finding=finding)
        v = rng.choice(BYTES)
        src = f"from hashlib import {fn}\ndef validator(a: int) -> bytes:\n    return {fn}({v!r}).digest()\n"
        both(rep, src, [[0]], rng.choice(["O0", "O2", "O3"]), lambda _: oracle(v), f"{label} {fn} literal", finding=finding)


def bls_expr(rng, g, depth):
    """(source, python value of pyblst) of a random element of group g over points p, q and scalars m, n"""
    P = f"bls12_381_g{g}_"
    r = rng.random()
    if depth <= 0 or r < 0.2:
        v = rng.choice(["p", "q"])
        return v, lambda env: env[v]
    a, fa = bls_expr(rng, g, depth - 1)
    if r < 0.5:
        b, fb = bls_expr(rng, g, depth - 1)
        f = lambda env: fa(env) + fb(env)
        return (f"{P}add({a}, {b})" if rng.random() < 0.5 else f"({a} + {b})"), f
    if r < 0.65:
        return (f"{P}neg({a})" if rng.random() < 0.5 else f"(-{a})"), lambda env: -fa(env)
    s = rng.choice(["m", "n", "3", "0", "(m + n)"])
    fs = lambda env: eval(s, {}, env)
    k = rng.randrange(3)
    src = f"{P}scalar_mul({s}, {a})" if k == 0 else f"({a} * {s})" if k == 1 else f"({s} * {a})"
    return src, lambda env: fa(env).scalar_mul(fs(env))


def bls_case(rng, rep, label):
    import pyblst

    for g, cls, size in ((1, pyblst.BlstP1Element, 48), (2, pyblst.BlstP2Element, 96)):
        P = f"bls12_381_g{g}_"
        src_e, f = bls_expr(rng, g, rng.choice([2, 3]))
        other, f2 = bls_expr(rng, g, 2)
        tests = [
            (f"{P}compress({src_e})", "bytes", lambda env, f=f: f(env).compress()),
            (rng.choice([f"{P}equal({src_e}, {other})", f"({src_e} == {other})"]), "bool", lambda env, f=f, f2=f2: f(env) == f2(env)),
        ]
        for e, ret, oracle in tests:
            src = HEAD + "from opshin.std.bls12_381 import BLS12381G1Element, BLS12381G2Element\n" * (rng.random() < 0.3) + f"def validator(pa: bytes, qa: bytes, m: int, n: int) -> {ret}:\n    p = {P}hash_to_group(pa, b'dst')\n    q = {P}uncompress(qa)\n    return {e}\n"
            sets = []
            for _ in range(3):
                qa = cls.hash_to_group(rand_bytes(rng), b"x").compress()
                if rng.random() < 0.25:
                    qa = rng.choice([qa[:-1], b"", qa[::-1], bytes([qa[0] ^ 0x20]) + qa[1:], bytes(size)])
                sets.append([rand_bytes(rng), qa, rng.choice(SMALL), rng.choice(SMALL + [2**255])])

            def o(pa, qa, m, n):
                return attempt(lambda: oracle({"p": cls.hash_to_group(pa, b"dst"), "q": cls.uncompress(qa), "m": m, "n": n}))()

            both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), o, f"{label} bls g{g}")
    # pairing: e(a*P, b*Q) = e(P, ab*Q)
    mul = rng.choice(["bls12_381_mul_ml_result(x, y)", "x * y"])
    src = HEAD + f"""def validator(a: int, b: int, c: int) -> bool:
    p = bls12_381_g1_hash_to_group(b'p', b'')
    q = bls12_381_g2_hash_to_group(b'q', b'')
    x = bls12_381_miller_loop(bls12_381_g1_scalar_mul(a, p), bls12_381_g2_scalar_mul(b, q))
    y = bls12_381_miller_loop(p, bls12_381_g2_scalar_mul(c, q))
    z = {mul}
    return bls12_381_final_verify(z, bls12_381_miller_loop(bls12_381_g1_scalar_mul(a * b + c, p), q))
"""
    both(rep, src, [[rng.randrange(1, 50), rng.randrange(1, 50), rng.randrange(1, 50)] for _ in range(2)], rng.choice(["O0", "O1", "O2", "O3"]), lambda a, b, c: True, f"{label} bls pairing")


# -- arithmetic ----------------------------------------------------------------------------------

FH = "from opshin.std.fractions import *\n"


def frac_expr(rng, depth):
    """(source, type, exact evaluation) over fractions x, y and the int k"""
    r = rng.random()
    if depth <= 0 or r < 0.15:
        v = rng.choice(["x", "y", "x", "y", "Fraction(k, 7)", "Fraction(-3, -4)", "Fraction(6, -4)"])
        if v in "xy":
            return v, lambda e: e[v]
        return v, (lambda e: fractions.Fraction(e["k"], 7)) if "k" in v else (lambda e: fractions.Fraction(*eval(v[8:])))
    a, fa = frac_expr(rng, depth - 1)
    if r < 0.25:
        return f"(-{a})", lambda e: -fa(e)
    if r < 0.35:
        return rng.choice([f"({a}).norm()", f"norm_fraction({a})"]), fa
    if r < 0.45:
        n = rng.choice([0, 1, 2, 3, -1, -2])

        def pw(e):
            return fa(e) ** n

        return f"({a} ** {n})" if n >= 0 else f"({a} ** ({n}))", pw
    op = rng.choice("+-*/")

    def apply(p, q):
        return p + q if op == "+" else p - q if op == "-" else p * q if op == "*" else p / q

    if r < 0.75:
        b, fb = frac_expr(rng, depth - 1)
        return f"({a} {op} {b})", lambda e: apply(fa(e), fb(e))
    s = rng.choice(["k", "3", "(k + 1)", "(-2)"])
    fs = lambda e: fractions.Fraction(eval(s, {}, e))
    if rng.random() < 0.5:
        return f"({a} {op} {s})", lambda e: apply(fa(e), fs(e))
    return f"({s} {op} {a})", lambda e: apply(fs(e), fa(e))


CMP = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}


def fraction_case(rng, rep, label):
    parts, fs = [], []
    for _ in range(3):
        a, fa = frac_expr(rng, rng.choice([1, 2, 3]))
        k = rng.randrange(5)
        if k == 0:
            parts.append(f"    n = ({a}).norm()\n    out += [n.numerator, n.denominator]\n")
            fs.append(lambda e, fa=fa: [fa(e).numerator, fa(e).denominator])
        elif k == 1:
            m = rng.choice(["({}).ceil()", "ceil_fraction({})", "({}).floor()", "floor_fraction({})"])
            parts.append(f"    out += [{m.format(a)}]\n")
            fs.append(lambda e, fa=fa, m=m: [math.ceil(fa(e)) if "ceil" in m else math.floor(fa(e))])
        elif k == 2:
            op = rng.choice(list(CMP))
            if rng.random() < 0.6:
                b, fb = frac_expr(rng, 1)
            else:
                b, fb = "k", lambda e: e["k"]
            parts.append(f"    out += [1 if {a} {op} {b} else 0]\n")
            fs.append(lambda e, fa=fa, fb=fb, op=op: [int(CMP[op](fa(e), fb(e)))])
        elif k == 3:
            if rng.random() < 0.5:
                b, fb = frac_expr(rng, 1)
                parts.append(f"    out += [{a} // {b}]\n")
                fs.append(lambda e, fa=fa, fb=fb: [fa(e) // fb(e)])
            else:
                s = rng.choice(["k", "5"])
                flip = rng.random() < 0.5
                parts.append(f"    out += [{s} // {a}]\n" if flip else f"    out += [{a} // {s}]\n")
                fs.append(lambda e, fa=fa, s=s, flip=flip: [eval(s, {}, e) // fa(e) if flip else fa(e) // eval(s, {}, e)])
        else:
            # the value, not the representation
            parts.append(f"    f = {a}\n    out += [f.numerator * 1000003 // f.denominator]\n")
            fs.append(lambda e, fa=fa: [math.floor(fa(e) * 1000003)])
    src = FH + "def validator(x: Fraction, y: Fraction, k: int) -> List[int]:\n    out: List[int] = []\n" + "".join(parts) + "    return out\n"

    def o(x, y, k):
        try:
            e = {"x": fractions.Fraction(x.numerator, x.denominator), "y": fractions.Fraction(y.numerator, y.denominator), "k": k}
            return [v for f in fs for v in f(e)]
        except (ZeroDivisionError, OverflowError):
            return SKIP  # the library lets denominators become zero

    num = lambda: rng.choice([0, 1, -1, 2, 3, -4, 6, 10, -15, 100, 2**70, -(2**40) * 3])
    den = lambda: rng.choice([1, 2, 3, 4, -1, -2, -6, 7, 12, 100, -(2**40), 2**70 + 1])
    sets = [f"(Fraction({num()}, {den()}), Fraction({num()}, {den()}), {rng.choice([0, 1, 2, 3, -1, -5, 7, 10**12])})" for _ in range(14)]
    both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), o, f"{label} fraction")


def math_case(rng, rep, label):
    E = [
        ("gcd(a, b)", lambda a, b, c: math.gcd(a, b)),
        ("gcd(gcd(a, b), len(c))", lambda a, b, c: math.gcd(a, b, len(c))),
        ("ceil(a, b)", lambda a, b, c: -((-a) // b)),
        ("floor(a, b)", lambda a, b, c: a // b),
        ("sign(a) * sign(b)", lambda a, b, c: (-1 if a < 0 else 1) * (-1 if b < 0 else 1)),
        ("unsigned_int_from_bytes_big(c)", lambda a, b, c: int.from_bytes(c, "big")),
        ("unsigned_int_from_bytes_big(bytes_big_from_unsigned_int(a))", lambda a, b, c: a if a >= 0 else ERR),
        ("len(bytes_big_from_unsigned_int(b))", lambda a, b, c: (b.bit_length() + 7) // 8 if b >= 0 else ERR),
        ("unsigned_int_from_bytes_big(and_bytestring(c, bytes_big_from_unsigned_int(a)))", lambda a, b, c: int.from_bytes(bits(lambda p, q: p & q, 255)(True, c, a.to_bytes((a.bit_length() + 7) // 8, "big")), "big") if a >= 0 else ERR),
    ]
    for e, f in rng.sample(E, 4):
        src = "from opshin.std.math import *\n" + f"def validator(a: int, b: int, c: bytes) -> int:\n    return {e}\n"
        sets = [[rand_int(rng), rng.choice([rand_int(rng), rng.choice(SMALL)]), rand_bytes(rng)] for _ in range(25)]
        both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), attempt(f), f"{label} math {e}")


def bitmap_case(rng, rep, label):
    """a random sequence of bitmap operations against a list of booleans"""
    ops = []
    for _ in range(rng.randrange(2, 6)):
        ops.append(rng.choice(["set", "reset", "flip", "set1"]))
    body = ""
    for j, o in enumerate(ops):
        body += {"set": f"    b = set_bitmap(b, [i, {j}])\n", "reset": f"    b = reset_bitmap(b, [{j}, k])\n", "flip": "    b = flip_bitmap(b, i)\n", "set1": "    b = set_bitmap(b, [k])\n"}[o]
        if rng.random() < 0.4:
            body += f"    out += [1 if test_bitmap(b, k) else 0]\n"
            ops[j] += "+"
    src = "from opshin.std.bitmap import *\ndef validator(n: int, i: int, k: int) -> List[int]:\n    out: List[int] = []\n    b = init_bitmap(n)\n" + body + "    out += [1 if test_bitmap(b, i) else 0, size_bitmap(b), 1 if any_bitmap(b) else 0, 1 if all_bitmap(b) else 0, 1 if none_bitmap(b) else 0]\n    return out\n"

    def o(n, i, k):
        w = (n + 7) // 8
        need(0 <= w <= 8192)
        m = [False] * (8 * w)
        out = []

        def put(x, v):
            need(0 <= x < len(m))
            m[x] = v

        for j, op in enumerate(ops):
            if op.startswith("set1"):
                put(k, True)
            elif op.startswith("set"):
                put(i, True)
                put(j, True)
            elif op.startswith("reset"):
                put(j, False)
                put(k, False)
            else:
                need(0 <= i < len(m))
                put(i, not m[i])
            if op.endswith("+"):
                need(0 <= k < len(m))
                out.append(int(m[k]))
        need(0 <= i < len(m))
        return out + [int(m[i]), len(m), int(any(m)), int(all(m)), int(not any(m))]

    sets = []
    for _ in range(12):
        n = rng.choice([0, 1, 7, 8, 9, 15, 16, 40, 100, -1, -8])
        sets.append([n, rng.choice([0, 1, 7, 8, n - 1, n, n + 1, -1]), rng.choice([0, 3, 5, 8, n - 1, n, 64])])
    both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), attempt(o), f"{label} bitmap")


def interval_case(rng, rep, label):
    src = "from opshin.ledger.interval import *\ndef validator(a: POSIXTimeRange, b: POSIXTimeRange) -> bool:\n    return contains(a, b)\n"
    INF = 10**30

    def rng_src():
        k = rng.randrange(5)
        t = lambda: rng.choice([0, 1, 5, 6, 7, -3, 100])
        if k == 0:
            return f"make_range({t()}, {t()})"
        if k == 1:
            return f"make_from({t()})"
        if k == 2:
            return f"make_to({t()})"
        lo = rng.choice(["NegInfPOSIXTime()", f"FinitePOSIXTime({t()})", f"FinitePOSIXTime({t()})"])
        up = rng.choice(["PosInfPOSIXTime()", f"FinitePOSIXTime({t()})", f"FinitePOSIXTime({t()})"])
        c = lambda inf: "TrueData()" if inf or rng.random() < 0.5 else "FalseData()"
        return f"POSIXTimeRange(LowerBoundPOSIXTime({lo}, {c('Inf' in lo)}), UpperBoundPOSIXTime({up}, {c('Inf' in up)}))"

    def bounds(r):
        l, u = r.lower_bound, r.upper_bound
        lim = lambda x: {"NegInfPOSIXTime": -INF, "PosInfPOSIXTime": INF}.get(type(x).__name__, getattr(x, "time", None))
        # open bounds of a continuous line: half a step inside
        return 2 * lim(l.limit) + (0 if l.closed.CONSTR_ID else 1), 2 * lim(u.limit) - (0 if u.closed.CONSTR_ID else 1)

    def o(a, b):
        (la, ua), (lb, ub) = bounds(a), bounds(b)
        if lb > ub:
            return SKIP  # empty
        return la <= lb and ub <= ua

    sets = [f"({rng_src()}, {rng_src()})" for _ in range(40)]
    both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), o, f"{label} interval")


GRID_OPS = [(f"{a} {op} {b}", op, a, b) for op in ("+", "-", "*", "/", "//") for a, b in (("x", "y"), ("x", "k"), ("k", "x"))]
GRID_CMP = [(f"{a} {op} {b}", op, a, b) for op in CMP for a, b in (("x", "y"), ("x", "k"), ("k", "x"))]


def grid_case(rng, rep, label):
    """every fraction operation on fractions and integers of every sign, and the integer functions on small integers"""
    import operator

    OP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv}
    body = "".join(f"    out += [{e}]\n" if op == "//" else f"    f = ({e}).norm()\n    out += [f.numerator, f.denominator, ({e}).floor(), ({e}).ceil()]\n" for e, op, _, _ in GRID_OPS)
    # (an integer on the left is not supported for comparisons)
    cmps = [c for c in GRID_CMP if c[2] == "x"]
    body += "".join(f"    out += [1 if {e} else 0]\n" for e, _, _, _ in cmps)
    src = FH + "def validator(x: Fraction, y: Fraction, k: int) -> List[int]:\n    out: List[int] = []\n" + body + "    return out\n"

    def o(x, y, k):
        e = {"x": fractions.Fraction(x.numerator, x.denominator), "y": fractions.Fraction(y.numerator, y.denominator), "k": fractions.Fraction(k)}
        out = []
        for _, op, a, b in GRID_OPS:
            v = OP[op](e[a], e[b])
            out += [v] if op == "//" else [v.numerator, v.denominator, math.floor(v), math.ceil(v)]
        return out + [int(CMP[op](e[a], e[b])) for _, op, a, b in cmps]

    nz = lambda: rng.choice([1, -1, 2, -2, 3, -3, 4, -6, 7, -9, 10])
    sets = []
    for _ in range(30):
        x, y, k = (nz(), nz()), (nz(), nz()), nz()
        if rng.random() < 0.4:
            y = rng.choice([x, (-x[0], -x[1]), (2 * x[0], 2 * x[1]), (-x[0], x[1])])
        if rng.random() < 0.3:
            x = (k * x[1], x[1])
        sets.append(f"(Fraction{x}, Fraction{y}, {k})")
    both(rep, src, sets, rng.choice(["O0", "O1", "O2", "O3"]), attempt(o), f"{label} grid")
    src = "from opshin.std.math import *\nfrom typing import Dict, List, Union\ndef validator(a: int) -> List[int]:\n    out: List[int] = []\n    for b in [-8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8]:\n        out += [gcd(a, b), gcd(3 * a, b), gcd(b, 2 * a)]\n        if b != 0:\n            out += [ceil(a, b), floor(a, b), sign(b)]\n    return out\n"

    def m(a):
        out = []
        for b in range(-8, 9):
            out += [math.gcd(a, b), math.gcd(3 * a, b), math.gcd(b, 2 * a)]
            if b:
                out += [-(-a // b), a // b, -1 if b < 0 else 1]
        return out

    both(rep, src, [[a] for a in range(-7, 8)], rng.choice(["O0", "O1", "O2", "O3"]), attempt(m), f"{label} math grid")


ARITH = {"grid": grid_case, "fraction": fraction_case, "math": math_case, "bitmap": bitmap_case, "interval": interval_case}


def tasks(tier, seed, mode, n=1, thorough=10):
    k = n * (thorough if tier == "thorough" else 1)
    if mode == "builtins":
        out = [{"mode": "builtin", "j": j, "i": i} for i in range(k) for j in range(0, len(BUILTINS), 3)]
        return out + [{"mode": m, "i": i} for m in ("hash", "bls", "bls") for i in range(k)]
    out = []
    for i in range(k):
        out += [{"mode": "fraction", "i": 6 * i + q} for q in range(12)]
        out += [{"mode": m, "i": i} for m in ("grid", "math", "math2", "bitmap", "bitmap2", "interval", "interval2")]
    return out


def run(t, rep, tier, seed):
    mode = t["mode"]
    rng = rng_for(seed, "stdlib", mode, t["i"])
    label = f"stdlib seed={seed} i={t['i']}"
    with rep.crashes(label):
        if mode == "builtin":
            for j in range(t["j"], min(t["j"] + 3, len(BUILTINS))):
                rep.event("builtins")
                builtin_case(j, rng_for(seed, "builtin", j, t["i"]), rep, label)
        elif mode == "hash":
            hash_case(rng, rep, label)
        elif mode == "bls":
            bls_case(rng, rep, label)
        else:
            rep.event(mode.rstrip("2"))
            for _ in range(2 if mode == "fraction" else 1):
                ARITH[mode.rstrip("2")](rng, rep, label)
