"""Sources of programs for checks that need programs but no reference run."""
import os

from vmon.core import REPO, PyProgram
from vmon.gen import ArgGen, Gen

EXAMPLES = ["complex_datum", "showcase", "dict_datum", "list_datum", "fib_rec", "dict_comprehensions", "mult_while",
            "smart_contracts/gift", "smart_contracts/bitwise", "smart_contracts/nft_minting_policy",
            "smart_contracts/simple_script", "smart_contracts/wrapped_token", "smart_contracts/vesting",
            "smart_contracts/parameterized", "smart_contracts/lp_minting_policy", "smart_contracts/marketplace",
            "smart_contracts/micropayments", "smart_contracts/pool_validator", "smart_contracts/liquidity_pool"]


def example_path(name):
    return os.path.join(REPO, "examples", name + ".py")


def program(kind, rng):
    """(source, function name, argument tuples as source text)"""
    if kind == "random":
        p = Gen(rng).program()
        py = PyProgram(p.source)
        try:
            if py.load_error is not None:
                return p.source, "validator", []
            args = []
            for _ in range(4):
                ag = ArgGen(rng, p.recs, py.mod)
                args.append(repr([ag.val(ty) for _, ty in p.params]))
        finally:
            py.close()
        return p.source, "validator", args
    if kind == "skeleton":
        from vmon.families.skeleton import Sk

        src = Sk(rng).program()
        args = [repr([rng.randrange(-2, 8), rng.randrange(-1, 6), rng.randrange(-1, 6), [rng.randrange(-2, 7) for _ in range(rng.choice([0, 1, 2]))]]) for _ in range(4)]
        return src, "validator", args
    if kind == "records":
        from vmon.families.recgen import RG
        from vmon.typed import rand_typed

        g = RG(rng)
        src = g.program(4)
        py = PyProgram(src)
        try:
            U = eval(g.U(), py.mod.__dict__)
            args = [repr([op, rand_typed(rng, U, 2), rand_typed(rng, U, 2), [rand_typed(rng, U, 2)], rng.randrange(4)]) for op in range(4)]
        finally:
            py.close()
        return src, "validator", args
    with open(example_path(kind)) as f:
        return f.read(), "validator", []


IMPORTS = {
    "integrity": ("from opshin.std.integrity import check_integrity{as_}\n", "check_integrity", "    {n}(r)\n"),
    "sha": ("from hashlib import sha256{as_}\n", "sha256", "    k += len({n}(b'a').digest())\n"),
    "sha3": ("from hashlib import sha3_256{as_}\n", "sha3_256", "    k += {n}(r.b).digest()[a % 32]\n"),
    "list": ("from typing import List{as_}\n", "List", "    l{u}: {n}[int] = [a]\n    k += l{u}[0]\n"),
    "dict": ("from typing import Dict{as_}\n", "Dict", "    d{u}: {n}[int, bytes] = {{}}\n    k += len(d{u})\n"),
    "builtins": ("from opshin.std.builtins import *\n", None, "    k += add_integer(a, 3)\n"),
    "math": ("from opshin.std.math import *\n", None, "    k += gcd(a, 12)\n"),
    "bitmap": ("from opshin.std.bitmap import *\n", None, "    k += size_byte_bits(b'abc') if False else 1\n"),
}


def import_program(rng):
    """small programs that use imported names, under other names, or without importing them; or that fail
    in some pass of the compiler: what one leaves behind must not change the next"""
    r = rng
    head, body, defs = ["from dataclasses import dataclass\n", "from pycardano import Datum as Anything, PlutusData\n"], [], []
    keys = r.sample(sorted(IMPORTS), r.choice([1, 2, 3]))
    for u, k in enumerate(keys):
        imp, name, use = IMPORTS[k]
        mode = r.choice(["plain", "plain", "alias", "missing", "own"])
        n = name
        if name is None:
            if mode != "missing":
                head.append(imp)
            body.append(use)
            continue
        if mode == "alias":
            n = r.choice(["zz", "sha256", "check_integrity", "List", "q1"])
            head.append(imp.format(as_=" as " + n))
        elif mode != "missing":
            head.append(imp.format(as_=""))
        if mode == "own" and k in ("integrity", "sha"):
            defs.append(f"def {n}(x: {'R' if k == 'integrity' else 'bytes'}) -> int:\n    return 1\n")
            use = f"    k += {n}({'r' if k == 'integrity' else 'r.b'})\n"
        body.append(use.format(n=n, u=u))
    cid = r.choice([0, 1, 2])
    src = "".join(head) + f"@dataclass()\nclass R(PlutusData):\n    CONSTR_ID = {cid}\n    a: int\n    b: bytes\n" + "".join(defs)
    # names that other programs assign in all, some or none of their branches
    names = r.sample(["t", "u", "v", "w"], 3)
    br = f"    if a > {r.randrange(9)}:\n        {names[0]} = a\n        {names[1]} = 1\n    else:\n        {names[0]} = 2\n"
    tail = f"    k += {names[0]}\n"
    if r.random() < 0.5:
        tail += f"    if a > 99:\n        k += {names[1]}\n"
    if r.random() < 0.3:
        tail += r.choice([f"    k += {names[2]}\n", "    k += b'x'\n", "    k += r.missing\n", "    for i in range(2):\n        k = 'a'\n", "    k += (lambda x: x)(1)\n", "    return b''\n"])
    src += f"def helper{r.randrange(3)}(a: int, r: R) -> int:\n    k = 0\n{br}{tail}    return k\n" if r.random() < 0.4 else ""
    src += "def validator(a: int, r: R) -> int:\n    k = r.a\n" + "".join(body) + br + tail + "    return k\n"
    return src
