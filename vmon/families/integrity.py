"""check_integrity: passes exactly for data that belongs to the type, wherever and however it is called."""
import typing

from vmon.core import ChainProgram, CompileFailure, NotEncodable, PyProgram, TimeLimit, config, enc, limit, run_uplc, to_uplc
from vmon.diff import rng_for
from vmon.families.artifacts import conforms as conforms_
from vmon.families.artifacts import mutate
from vmon.tygen import TyGen
from vmon.typed import is_datum
from vmon.values import BYTES, SMALL, rand_bytes, rand_int, rand_str

TASK_LIMIT = 150
LEVELS = ["O0", "O1", "O2", "O3", "default"]


def tasks(tier, seed, n=51, per=3, thorough=12):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per} for i in range(0, k, per)]


class Unspecified(Exception):
    pass


def utf8(b):
    try:
        b.decode()
    except UnicodeDecodeError:
        return False
    return True


def conforms(tp, c):
    """conforms_, for types that contain bools"""
    if tp is bool:
        if c[0] == "I" and c[1] not in (0, 1):
            raise Unspecified  # read as True, but never written
        return c[0] == "I"
    if tp is str:
        return c[0] == "B" and utf8(bytes.fromhex(c[1]))
    org, args = typing.get_origin(tp), typing.get_args(tp)
    if is_datum(tp) or tp in (int, bytes):
        return conforms_(tp, c)
    if org is list:
        return c[0] == "L" and all(conforms(args[0], x) for x in c[1])
    if org is dict:
        return c[0] == "M" and all(conforms(args[0], k) and conforms(args[1], v) for k, v in c[1])
    if org is typing.Union:
        return any(conforms(a, c) for a in args)
    import dataclasses

    hints = typing.get_type_hints(tp)
    fs = dataclasses.fields(tp)
    return c[0] == "C" and c[1] == tp.CONSTR_ID and len(c[2]) == len(fs) and all(conforms(hints[f.name], x) for f, x in zip(fs, c[2]))


def data(rng, tp, depth=4):
    """random data of the type, built directly: keys of maps need not be hashable"""
    import dataclasses

    org, args = typing.get_origin(tp), typing.get_args(tp)
    n = 0 if depth <= 0 else rng.choice([0, 1, 1, 2, 3])
    if tp is bool:
        return ("I", rng.randrange(2))
    if tp is int:
        return ("I", rng.choice(SMALL) if rng.random() < 0.6 else rand_int(rng))
    if tp is bytes:
        return ("B", rand_bytes(rng)[:60].hex())
    if tp is str:
        return ("B", rand_str(rng)[:15].encode().hex())
    if is_datum(tp):
        k = rng.randrange(5 if depth > 0 else 2)
        if k < 2:
            return data(rng, [int, bytes][k])
        if k == 2:
            return ("L", tuple(data(rng, tp, depth - 2) for _ in range(n)))
        if k == 3:
            return ("M", tuple(dict((data(rng, tp, depth - 3), data(rng, tp, depth - 2)) for _ in range(n)).items()))
        return ("C", rng.choice([0, 1, 6, 7, 127, 128, 1000]), tuple(data(rng, tp, depth - 2) for _ in range(n)))
    if org is list:
        return ("L", tuple(data(rng, args[0], depth - 1) for _ in range(n)))
    if org is dict:
        # (the machine's maps cannot hold equal keys)
        return ("M", tuple(dict((data(rng, args[0], depth - 1), data(rng, args[1], depth - 1)) for _ in range(n)).items()))
    if org is typing.Union:
        return data(rng, rng.choice(args), depth - 1)
    hints = typing.get_type_hints(tp)
    return ("C", tp.CONSTR_ID, tuple(data(rng, hints[f.name], depth - 1) for f in dataclasses.fields(tp)))


IMP = "from opshin.std.integrity import check_integrity\n"
ALIAS = "from opshin.std.integrity import check_integrity as {0}\n"


def variants(rng, ann, rec):
    """(name, declarations, validator, expectation(oracle of ann, data of ann) -> (arguments, should pass, result))"""
    plain = lambda ok: lambda c: ([c], ok(c), ("I", 1))
    V = []
    V.append(("plain", IMP, f"def validator(x: {ann}) -> int:\n    check_integrity(x)\n    return 1\n", plain))
    al = rng.choice(["chk", "integrity", "validate_", "f"])
    V.append(("alias", ALIAS.format(al), f"def validator(x: {ann}) -> int:\n    {al}(x)\n    return 1\n", plain))
    V.append(("helper", IMP, f"def h(y: {ann}, k: int) -> int:\n    check_integrity(y)\n    return k\n\ndef validator(x: {ann}) -> int:\n    return h(x, 1)\n", plain))
    V.append(("unused helper result", IMP, f"def h(y: {ann}) -> None:\n    check_integrity(y)\n\ndef validator(x: {ann}) -> int:\n    h(x)\n    return 1\n", plain))
    V.append(("assigned", IMP, f"def validator(x: {ann}) -> int:\n    y = x\n    r = check_integrity(y)\n    if r == None:\n        return 1\n    return 2\n", plain))
    V.append(("closure", IMP, f"def validator(x: {ann}) -> int:\n    def inner(k: int) -> int:\n        check_integrity(x)\n        return k\n    return inner(1)\n", plain))
    V.append(("twice", IMP, f"def validator(x: {ann}) -> int:\n    check_integrity(x)\n    check_integrity(x)\n    return 1\n", plain))
    V.append(("returned", IMP, f"def validator(x: {ann}) -> {ann}:\n    check_integrity(x)\n    return x\n", lambda ok: lambda c: ([c], ok(c), c)))
    V.append(("list", IMP, f"def validator(x: List[{ann}]) -> int:\n    n = 0\n    for e in x:\n        check_integrity(e)\n        n += 1\n    return n\n", lambda ok: lambda c: ([("L", (c, c))], ok(c), ("I", 2))))
    V.append(("comprehension", IMP, f"def h(y: {ann}) -> int:\n    check_integrity(y)\n    return 1\n\ndef validator(x: List[{ann}]) -> int:\n    return sum([h(e) for e in x])\n", lambda ok: lambda c: ([("L", (c, c))], ok(c), ("I", 2))))
    V.append(("field", IMP + f"@dataclass()\nclass Outer(PlutusData):\n    CONSTR_ID = 77\n    k: int\n    f: {ann}\n    z: bytes\n", "def validator(o: Outer) -> int:\n    check_integrity(o.f)\n    return o.k\n", lambda ok: lambda c: ([("C", 77, (("I", 5), c, ("B", "00")))], ok(c), ("I", 5))))
    V.append(("nested in record", IMP + f"@dataclass()\nclass Outer(PlutusData):\n    CONSTR_ID = 77\n    k: int\n    f: {ann}\n    z: bytes\n", "def validator(o: Outer) -> int:\n    check_integrity(o)\n    return o.k\n", lambda ok: lambda c: ([("C", 77, (("I", 5), c, ("B", "00")))], ok(c), ("I", 5))))
    if rec:
        V.append(("narrowed", IMP + "@dataclass()\nclass Other(PlutusData):\n    CONSTR_ID = 78\n    k: int\n", f"def validator(x: Union[{ann}, Other]) -> int:\n    if isinstance(x, {ann}):\n        check_integrity(x)\n        return 1\n    else:\n        return x.k\n", plain))
        V.append(("narrowed before", IMP + "@dataclass()\nclass Other(PlutusData):\n    CONSTR_ID = 78\n    k: int\n", f"def validator(x: Union[{ann}, Other]) -> int:\n    check_integrity(x)\n    if isinstance(x, {ann}):\n        return 1\n    else:\n        return x.k\n", plain))
    V.append(("conditional", IMP, f"def validator(x: {ann}, c: int) -> int:\n    if c > 3:\n        check_integrity(x)\n    return 1\n", lambda ok: lambda c: ([c, ("I", 3 + len(repr(c)) % 2)], len(repr(c)) % 2 == 0 or ok(c), ("I", 1))))
    V.append(("conditional expression", IMP, f"def validator(x: {ann}, c: int) -> int:\n    check_integrity(x) if c > 3 else None\n    return 1\n", lambda ok: lambda c: ([c, ("I", 3 + len(repr(c)) % 2)], len(repr(c)) % 2 == 0 or ok(c), ("I", 1))))
    V.append(("with other", IMP + "@dataclass()\nclass Other(PlutusData):\n    CONSTR_ID = 78\n    k: int\n", f"def validator(x: {ann}, o: Other) -> int:\n    check_integrity(o)\n    check_integrity(x)\n    return o.k\n", lambda ok: lambda c: ([c, ("C", 78, (("I", 4),) + ((("I", 1),) if len(repr(c)) % 3 == 0 else ()))], ok(c) and len(repr(c)) % 3 != 0, ("I", 4))))
    return V


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "integrity", i)
        with rep.crashes(f"integrity seed={seed} i={i}"):
            case(i, rng, rep, seed)


def case(i, rng, rep, seed):
    g = TyGen(rng, nrec=rng.choice([1, 2, 3, 4]), strs=False, bools=rng.random() < 0.5, anything=rng.random() < 0.5)
    union = rng.random() < 0.4
    ann = None
    for _ in range(40):
        ann = g.union() if union else g.recs[-1][0]
        if ann.startswith("Union[") or ann.startswith("R"):
            break
    else:
        ann = g.recs[-1][0]
    rec = not ann.startswith("Union[")
    for name, decl, val, exp in rng.sample(variants(rng, ann, rec), 5):
        src = g.source() + decl + "\n" + val
        level = rng.choice(LEVELS)
        label = f"integrity seed={seed} i={i} {name}"
        py = PyProgram(src)
        try:
            if py.load_error is not None:
                rep.errors.append(f"{label}: {py.load_error!r}")
                return
            tp = eval(ann, py.mod.__dict__)
            try:
                cp = ChainProgram(src, config(level))
            except CompileFailure as e:
                rep.violation("a program using check_integrity was rejected", label=label, level_=level, error=str(e)[:500], source_=src)
                continue
            rep.event("compiled")
            rep.event("variant_" + name.replace(" ", "_"))
            expect = exp(lambda c: conforms(tp, c))
            for _ in range(10):
                c = data(rng, tp)
                if rng.random() < 0.6:
                    for _ in range(rng.choice([1, 1, 2])):
                        c = mutate(rng, c)
                if name == "narrowed" and not (c[0] == "C" and c[1] == tp.CONSTR_ID):
                    continue  # not of the declared union: isinstance may answer anything
                try:
                    args, ok, res = expect(c)
                except Unspecified:
                    rep.event("unspecified")
                    continue
                if name == "narrowed before" and c[0] == "C" and c[1] == 78:
                    continue
                try:
                    with limit(20):
                        o = cp.run(args)
                except (NotEncodable, TimeLimit):
                    rep.event("inconclusive")
                    continue
                rep.event("conforming" if ok else "nonconforming")
                rep.sig(src, level, args)
                good = (o.status == "ok" and o.value == res) if ok else o.status != "ok"
                if not good:
                    try:
                        with limit(60):
                            o2 = run_uplc(cp.code, [to_uplc(a) for a in args], reference=True)
                        good = (o2.status == "ok" and o2.value == res) if ok else o2.status != "ok"
                    except (NotEncodable, TimeLimit):
                        pass
                rep.expect(good, "check_integrity " + ("failed for conforming data" if ok else "accepted data that is not of the type"), label=label, level_=level, args=repr(args)[:400], chain=o.brief()[:300], source_=src)
            rep.sample(program=src[-300:], annotation=ann)
        finally:
            py.close()
