"""Parameter application, dumped and loaded artifacts, addresses and hashes, blueprint schemas."""
import hashlib
import json
import os
import shutil
import tempfile
import types
import typing
from pathlib import Path

import cbor2
import uplc
import uplc.ast as ua

from vmon.core import REPO, NotEncodable, PyProgram, agree, config, dec_uplc, enc, run_uplc, to_uplc
from vmon.diff import rng_for
from vmon.tygen import TyGen, value
from vmon.typed import is_datum, rand_typed

import pycardano
from opshin import builder

TASK_LIMIT = 150


def tasks(tier, seed, mode, n, per=2, thorough=12):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"mode": mode, "i": i, "per": per} for i in range(0, k, per)]


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "artifacts", t["mode"], i)
        label = f"{t['mode']} seed={seed} i={i}"
        with rep.crashes(label):
            {"apply": apply_case, "dump": dump_case, "schema": schema_case}[t["mode"]](rng, rep, label)


# -- independent reimplementation of hashes and addresses ------------------------------------

CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech32(hrp, data):
    bits = "".join(f"{b:08b}" for b in data)
    bits += "0" * (-len(bits) % 5)
    vals = [int(bits[i : i + 5], 2) for i in range(0, len(bits), 5)]

    def polymod(values):
        gen = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]
        chk = 1
        for v in values:
            top = chk >> 25
            chk = (chk & 0x1FFFFFF) << 5 ^ v
            for i in range(5):
                chk ^= gen[i] if (top >> i) & 1 else 0
        return chk

    exp = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
    pm = polymod(exp + vals + [0] * 6) ^ 1
    return hrp + "1" + "".join(CH[v] for v in vals + [(pm >> 5 * (5 - i)) & 31 for i in range(6)])


def script_hash(cbor):
    return hashlib.blake2b(b"\x03" + cbor, digest_size=28).digest()


def check_identity(rep, pc, cbor, label):
    """hash, policy id and addresses that belong to the script bytes"""
    h = script_hash(cbor)
    rep.expect(bytes(pc.cbor) == cbor and pc.cbor_hex == cbor.hex(), "cbor of the contract is not the script", label=label)
    rep.expect(pc.policy_id == h.hex(), "policy id is not the hash of the script", label=label, got=pc.policy_id, want=h.hex())
    rep.expect(pc.mainnet_addr.encode() == bech32("addr", b"\x71" + h), "mainnet address", label=label, got=pc.mainnet_addr.encode())
    rep.expect(pc.testnet_addr.encode() == bech32("addr_test", b"\x70" + h), "testnet address", label=label, got=pc.testnet_addr.encode())


# -- parameters --------------------------------------------------------------------------------


def pythonic(ann, mod):
    """values of this annotation can be passed as python values (pycardano encodes bool/str differently)"""
    tp = eval(ann, mod.__dict__)
    seen = set()

    def ok(tp):
        if tp in (bool, str):
            return False
        if isinstance(tp, type) and issubclass(tp, pycardano.PlutusData):
            if tp in seen:
                return True
            seen.add(tp)
            return all(ok(x) for x in typing.get_type_hints(tp).values())
        return all(ok(x) for x in typing.get_args(tp)) if not is_datum(tp) else True

    return ok(tp)


def apply_case(rng, rep, label):
    g = TyGen(rng, nrec=rng.randrange(1, 4), strs=False, bools=rng.random() < 0.3)
    n = rng.randrange(1, 5)
    params = [(f"p{j}", g.ty(rng.choice([0, 1, 2]))) for j in range(n)]
    params.append(("x", g.ty(1)))
    # the result shows which argument arrived where
    ret = "List[Anything]"
    body = []
    for m, a in params:
        body.append(f"    d_{m}: Anything = {m}")
    src = (
        g.source()
        + f"def validator({', '.join(f'{m}: {a}' for m, a in params)}) -> Anything:\n    print('called')\n"
        + "\n".join(body)
        + f"\n    r: {ret} = [{', '.join('d_' + m for m, _ in params)}]\n    return r\n"
    )
    py = PyProgram(src)
    d = tempfile.mkdtemp(prefix="vmon_art_")
    try:
        if py.load_error is not None:
            rep.errors.append(f"{label}: {py.load_error!r}")
            return
        path = os.path.join(d, rng.choice(["contract.py", "my contract.py", "c.opshin.py"]))
        with open(path, "w") as f:
            f.write(src)
        cfg = config(rng.choice(["O0", "O1", "O2", "O3", "default"]), wrap=True)
        rep.event("programs")
        base = builder.build(path, config=cfg)
        ptypes = [(m, eval(a, py.mod.__dict__)) for m, a in params[:-1]]
        pc = builder.PlutusContract(base, None, ("x", eval(params[-1][1], py.mod.__dict__)), list(ptypes), (builder.Purpose.spending,), "1.2.3", "t", "some text", "MIT")
        for _ in range(2):
            vals = [value(rng, py.mod, a) for _, a in params]
            if rng.random() < 0.3:  # equal values in different places
                vals = [vals[0] if a == params[0][1] else v for v, (_, a) in zip(vals, params)]
            try:
                data = [to_uplc(enc(v)) for v in vals]
                want = py.run(list(vals))
                passed = []
                for v, dt, (_, a) in zip(vals, data, params):
                    use_py = pythonic(a, py.mod) and rng.random() < 0.6
                    if use_py:
                        try:
                            builder.datum_to_cbor(v)
                        except Exception:
                            use_py = False
                    passed.append(v if use_py else dt)
            except NotEncodable:
                rep.event("inconclusive")
                continue
            ps = passed[:-1]
            rep.sig(src, repr(vals))
            rep.sample(program=src[-500:], args=repr(vals)[:200])
            oneshot = bytes(builder.build(path, *ps, config=cfg))
            allat = pc.apply_parameter(*ps)
            one = pc
            for j, v in enumerate(ps):
                one = one.apply_parameter(v)
                rep.expect(one.parameter_types == ptypes[j + 1 :], "parameter list after applying a parameter", label=label, got=repr(one.parameter_types), want=repr(ptypes[j + 1 :]))
            k = rng.randrange(n + 1)
            two = pc.apply_parameter(*ps[:k]).apply_parameter(*ps[k:])
            raw = bytes(builder.apply_parameters(base, *ps))
            variants = {"build with parameters": oneshot, "apply all": bytes(allat.cbor), "one by one": bytes(one.cbor), "two steps": bytes(two.cbor), "apply_parameters": raw}
            rep.expect(len(set(variants.values())) == 1, "ways of applying parameters give different scripts", label=label, source_=src, args=repr(vals), variants={a: hashlib.sha256(b).hexdigest()[:12] for a, b in variants.items()})
            rep.expect(bytes(pc.cbor) == bytes(base) and pc.parameter_types == ptypes, "applying parameters changed the original contract", label=label)
            for got, name in ((allat, "all"), (two, "two steps")):
                same = (got.datum_type, got.redeemer_type, got.parameter_types, tuple(got.purpose), got.version, got.title, got.description, got.license)
                rep.expect(same == (None, pc.redeemer_type, [], (builder.Purpose.spending,), "1.2.3", "t", "some text", "MIT"), "metadata lost by applying parameters", label=label, got=repr(same))
                check_identity(rep, got, bytes(got.cbor), label)
            rep.expect("parameters" not in allat.blueprint["validators"][0], "blueprint lists applied parameters", label=label)
            # behaviour of every variant with the remaining argument, against python and the unapplied script
            for name, script in list(variants.items())[:3]:
                try:
                    prog = uplc.unflatten(script)
                    co = run_uplc(prog, [data[-1]])
                except NotEncodable:
                    rep.event("inconclusive")
                    continue
                rep.event("trace_events", len(co.logs))
                rep.expect(agree(want, co), "the parameterized script behaves differently", label=label, way=name, args=repr(vals), source_=src, python=want.brief()[:300], chain=co.brief()[:300])
                rep.expect(prog.version == uplc.unflatten(base).version, "program version changed", label=label)
            full = run_uplc(uplc.unflatten(base), data)
            rep.expect(agree(want, full), "the unapplied script behaves differently", label=label, args=repr(vals), source_=src, python=want.brief()[:300], chain=full.brief()[:300])
            try:
                pc.apply_parameter(*ps, ps[0])
                rep.expect(False, "too many parameters accepted", label=label)
            except AssertionError:
                rep.expect(True, "")
    finally:
        py.close()
        shutil.rmtree(d, ignore_errors=True)


# -- dump and load ------------------------------------------------------------------------------


def random_script(rng):
    """a small program whose flat size is anywhere, in particular around CBOR length boundaries"""
    size = rng.choice([0, 1, 5, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 100, rng.randrange(225, 256), rng.randrange(225, 256), 300, 5000, rng.randrange(65480, 65540), 70000])
    val = bytes(rng.randrange(256) for _ in range(size))
    term = ua.Lambda("x", ua.Apply(ua.Lambda("y", ua.Variable(rng.choice("xy"))), rng.choice([ua.BuiltinByteString(val), ua.PlutusByteString(val), ua.PlutusList([ua.PlutusInteger(int.from_bytes(val[:40], "big"))])])))
    for j in range(rng.choice([0, 0, 1, 3])):
        term = ua.Lambda(f"q{j}", term)
    return ua.Program((1, rng.randrange(2), 0), term)


def annotations(rng):
    g = TyGen(rng, nrec=rng.choice([1, 2, 3, 4, 7]), strs=False, bools=False, anything=True)
    return g, PyProgram(g.source() + "def validator(a: int) -> int:\n    return a\n")


TEXT = ["validator", "", "My Contract", "täglich \u4f60", 'quote " and \\ backslash', "a\nb", "0", "null"]


def dump_case(rng, rep, label):
    g, py = annotations(rng)
    d = tempfile.mkdtemp(prefix="vmon_art_")
    try:
        tp = lambda depth=2: eval(g.ty(depth), py.mod.__dict__)
        prog = random_script(rng)
        script = builder._build(prog)
        P = list(builder.Purpose)
        purpose = tuple(rng.sample(P, rng.choice([1, 1, 2, 3, len(P)])))
        pc = builder.PlutusContract(
            script,
            (rng.choice(TEXT), tp()) if rng.random() < 0.5 else None,
            (rng.choice(TEXT), tp()) if rng.random() < 0.7 else None,
            [(f"p{j}", tp()) for j in range(rng.choice([0, 0, 1, 2, 3]))],
            purpose,
            rng.choice(["1.0.0", "0.0.1-beta", "2"]),
            rng.choice(TEXT),
            rng.choice(TEXT),
            rng.choice([None, "MIT", "Apache-2.0", ""]),
        )
        rep.sig(bytes(script), repr(pc.purpose), repr(pc.parameter_types))
        rep.event("programs")
        rep.sample(script_bytes=len(script), purpose=[p.value for p in purpose], parameters=len(pc.parameter_types))
        out = os.path.join(d, rng.choice(["build", "a/b/c", "x y"]))
        if rng.random() < 0.4:
            # another contract was dumped to the same place before
            builder.PlutusContract(builder._build(random_script(rng)), None, ("r", int), [("q", bytes)] * rng.choice([0, 4]), purpose, "9.9.9", rng.choice(TEXT) * 9, "d" * rng.randrange(200), "CC0").dump(out)
        pc.dump(out if rng.random() < 0.5 else Path(out))
        files = {f: open(os.path.join(out, f)).read() for f in os.listdir(out)}
        cb = bytes(script)
        h = script_hash(cb)
        rep.expect(set(files) == {"script.cbor", "script.plutus", "script.policy_id", "mainnet.addr", "testnet.addr", "blueprint.json"}, "dumped files", label=label, got=sorted(files))
        rep.expect(files["script.cbor"] == cb.hex(), "script.cbor is not the script", label=label)
        rep.expect(cbor2.loads(cb) == uplc.flatten(prog)[-len(cbor2.loads(cb)):], "script is not wrapped flat", label=label)
        rep.expect(files["script.policy_id"] == h.hex() and files["mainnet.addr"] == bech32("addr", b"\x71" + h) and files["testnet.addr"] == bech32("addr_test", b"\x70" + h), "dumped identity of the script", label=label, files={k: files[k] for k in ("script.policy_id", "mainnet.addr", "testnet.addr")})
        pj = json.loads(files["script.plutus"])
        rep.expect(pj["type"] == "PlutusScriptV3" and pj["description"] == pc.description and cbor2.loads(bytes.fromhex(pj["cborHex"])) == cb, "script.plutus", label=label, got=repr(pj)[:300])
        bp = json.loads(files["blueprint.json"])
        v = bp["validators"][0]
        rep.expect(v["compiledCode"] == cb.hex() and v["hash"] == h.hex() and len(bp["validators"]) == 1, "blueprint code", label=label)
        pre = bp["preamble"]
        rep.expect((pre["version"], pre["title"], pre["description"], pre.get("license"), pre["plutusVersion"]) == (pc.version, pc.title, pc.description, pc.license, "v3"), "blueprint preamble", label=label, got=repr(pre))
        want_params = [t for t, _ in pc.parameter_types]
        rep.expect([p["title"] for p in v.get("parameters", [])] == want_params, "blueprint parameters", label=label, got=repr(v.get("parameters"))[:300])
        rep.expect(("datum" in v) == (pc.datum_type is not None) and bool(v["redeemer"]) == (pc.redeemer_type is not None), "blueprint datum and redeemer", label=label)
        # load in every way
        loads = {"directory": out, "blueprint.json": os.path.join(out, "blueprint.json"), "script.cbor": os.path.join(out, "script.cbor"), "script.plutus": os.path.join(out, "script.plutus")}
        with open(os.path.join(d, "script.uplc"), "w") as f:
            f.write(uplc.dumps(prog))
        loads["uplc"] = os.path.join(d, "script.uplc")
        with open(os.path.join(d, "double.cbor"), "w") as f:
            f.write(cbor2.dumps(cb).hex())
        loads["double wrapped"] = os.path.join(d, "double.cbor")
        for way, p in loads.items():
            try:
                lc = builder.load(p if rng.random() < 0.5 else Path(p))
            except Exception as e:
                rep.expect(False, "dumped contract cannot be loaded", label=label, way=way, error=repr(e)[:300], script=cb.hex()[:200])
                continue
            rep.event("loaded_" + way.replace(" ", "_"))
            rep.expect(bytes(lc.cbor) == cb, "loaded script differs", label=label, way=way, got=bytes(lc.cbor).hex()[:80], want=cb.hex()[:80])
            check_identity(rep, lc, cb, label + " loaded " + way)
            if way in ("directory", "blueprint.json"):
                rep.expect((lc.version, lc.title, lc.description, lc.license) == (pc.version, pc.title, pc.description, pc.license), "loaded metadata", label=label, got=repr((lc.version, lc.title, lc.description, lc.license)))
                if pc.redeemer_type is not None:
                    rep.expect(sorted(p.value for p in lc.purpose) == sorted(p.value for p in purpose), "loaded purpose", label=label, got=repr(lc.purpose), want=repr(purpose))
                rep.expect([t for t, _ in lc.parameter_types] == want_params, "loaded parameters", label=label)
                for a, b, what in [(lc.datum_type, pc.datum_type, "datum"), (lc.redeemer_type, pc.redeemer_type, "redeemer")] + list(zip(lc.parameter_types, pc.parameter_types, ["parameter"] * 9)):
                    rep.expect((a is None) == (b is None) and (a is None or a[0] == b[0]), f"loaded {what}", label=label, got=repr(a), want=repr(b))
                    if a is not None:
                        same_type(rng, rep, a[1], b[1], label + " " + what, py.mod)
                again = os.path.join(d, "again_" + way)
                if pc.redeemer_type is not None:
                    # map purposes in the enumeration's order: the order in the file is not semantic
                    lc.purpose = purpose
                lc.dump(again)
                files2 = {f: open(os.path.join(again, f)).read() for f in os.listdir(again)}
                bad = [f for f in files if f != "blueprint.json" and files[f] != files2.get(f)]
                rep.expect(not bad, "dumping a loaded contract gives other artifacts", label=label, files=bad)
                b2 = json.loads(files2["blueprint.json"])
                if pc.redeemer_type is not None:
                    rep.expect(strip_titles(b2) == strip_titles(bp), "blueprint of a loaded contract", label=label, a=json.dumps(strip_titles(bp))[:800], b=json.dumps(strip_titles(b2))[:800])
    finally:
        py.close()
        shutil.rmtree(d, ignore_errors=True)


def strip_titles(x):
    """normal form of schemas: titles inside of schemas and the order of alternatives mean nothing
    (typing itself does not keep the order of equal unions)"""
    if isinstance(x, dict):
        return {
            k: sorted((strip_titles(a) for a in v), key=json.dumps) if k == "anyOf" else strip_titles(v)
            for k, v in x.items()
            if not (k == "title" and ("dataType" in x or "anyOf" in x))
        }
    if isinstance(x, list):
        return [strip_titles(v) for v in x]
    return x


# -- schemas ----------------------------------------------------------------------------------


def conforms(tp, c):
    """does canonical data c belong to python type tp (our own reading of the types)"""
    org, args = typing.get_origin(tp), typing.get_args(tp)
    if is_datum(tp):
        return True
    if tp is int:
        return c[0] == "I"
    if tp is bytes:
        return c[0] == "B"
    if org is list or tp is list:
        return c[0] == "L" and (not args or all(conforms(args[0], x) for x in c[1]))
    if org is dict or tp is dict:
        return c[0] == "M" and (not args or all(conforms(args[0], k) and conforms(args[1], v) for k, v in c[1]))
    if org is typing.Union:
        return any(conforms(a, c) for a in args)
    hints = typing.get_type_hints(tp)
    import dataclasses

    fs = dataclasses.fields(tp)
    return c[0] == "C" and c[1] == tp.CONSTR_ID and len(c[2]) == len(fs) and all(conforms(hints[f.name], x) for f, x in zip(fs, c[2]))


def valid(s, c):
    """validity of data against a CIP-57 schema"""
    if "anyOf" in s:
        return any(valid(x, c) for x in s["anyOf"])
    t = s.get("dataType")
    if t is None:
        return True
    if t == "integer":
        return c[0] == "I"
    if t == "bytes":
        return c[0] == "B"
    if t == "list":
        return c[0] == "L" and all(valid(s.get("items", {}), x) for x in c[1])
    if t == "map":
        return c[0] == "M" and all(valid(s.get("keys", {}), k) and valid(s.get("values", {}), v) for k, v in c[1])
    if t == "constructor":
        return c[0] == "C" and c[1] == s["index"] and len(c[2]) == len(s["fields"]) and all(valid(f, x) for f, x in zip(s["fields"], c[2]))
    raise ValueError(t)


def mutate(rng, c, depth=0):
    """data that differs from c in one place"""
    k = c[0]
    r = rng.random()
    if k == "C" and r < 0.8:
        fs = list(c[2])
        q = rng.randrange(5)
        if q == 0:
            return ("C", c[1] + rng.choice([1, 2, 7, 121]), c[2])
        if q == 1:
            return ("C", c[1], tuple(fs + [rng.choice([("I", 0), ("B", ""), ("C", 0, ())])]))
        if q == 2 and fs:
            fs.pop(rng.randrange(len(fs)))
            return ("C", c[1], tuple(fs))
        if q == 3 and len(fs) > 1:
            rng.shuffle(fs)
            return ("C", c[1], tuple(fs))
        if fs:
            i = rng.randrange(len(fs))
            fs[i] = mutate(rng, fs[i], depth + 1)
            return ("C", c[1], tuple(fs))
    if k == "L" and c[1] and r < 0.75:
        l = list(c[1])
        i = rng.randrange(len(l))
        l[i] = mutate(rng, l[i], depth + 1)
        return ("L", tuple(l))
    if k == "M" and c[1] and r < 0.75:
        l = [list(p) for p in c[1]]
        i = rng.randrange(len(l))
        j = rng.randrange(2)
        l[i][j] = mutate(rng, l[i][j], depth + 1)
        return ("M", tuple(map(tuple, l)))
    return rng.choice([x for x in (("I", 3), ("B", "61"), ("L", ()), ("M", ()), ("L", (("I", 1),)), ("M", ((("I", 1), ("I", 2)),)), ("C", 0, ()), ("C", 1, (("I", 1),)), ("L", (("B", "00"),))) if x != c])


def samples(rng, tp, k=10):
    out = []
    for _ in range(k):
        try:
            c = enc(rand_typed(rng, tp, 3))
        except (NotEncodable, TypeError):
            continue
        out.append(c)
        m = c
        for _ in range(rng.choice([1, 1, 2])):
            m = mutate(rng, m)
        out.append(m)
    return out


def same_type(rng, rep, a, b, label, mod):
    """a reconstructed type accepts exactly the data of the original type"""
    for c in samples(rng, b, 5):
        rep.expect(conforms(a, c) == conforms(b, c), "reconstructed type accepts other data", label=label, data=repr(c)[:300], original=repr(b), got=repr(a))
    rep.expect(builder.to_plutus_schema(a).get("dataType") == builder.to_plutus_schema(b).get("dataType"), "schema of a reconstructed type", label=label)


def schema_case(rng, rep, label):
    g, py = annotations(rng)
    try:
        for _ in range(4):
            ann = g.ty(rng.choice([1, 2, 3]))
            tp = eval(ann, py.mod.__dict__)
            s = builder.to_plutus_schema(tp)
            before = json.dumps(s)
            rep.event("programs")
            for c in samples(rng, tp, 8):
                rep.sig(g.source(), ann, c)
                w = conforms(tp, c)
                rep.event("conforming" if w else "nonconforming")
                rep.expect(valid(s, c) == w, "blueprint schema does not describe the type", label=label, annotation=ann, data=repr(c)[:400], belongs=w, schema=json.dumps(s)[:1200], source_=g.source())
            rep.sample(annotation=ann, schema=json.dumps(s)[:300])
            back = builder.from_plutus_schema(json.loads(before))
            same_type(rng, rep, back, tp, label + " " + ann, py.mod)
            s2 = builder.to_plutus_schema(back)
            rep.expect(strip_titles(s2) == strip_titles(s), "schema changes when converted to a type and back", label=label, a=before[:600], b=json.dumps(s2)[:600])
            # reconstructed record types encode and decode values of the type like the original
            if isinstance(tp, type) and issubclass(tp, pycardano.PlutusData):
                v = rand_typed(rng, tp, 3)
                try:
                    cb = v.to_cbor()
                    tp.from_cbor(cb)  # pycardano cannot decode everything it encodes
                    got = back.from_cbor(cb)
                    again = got.to_cbor()
                except Exception:
                    rep.event("pycardano_cannot_decode")
                    continue
                rep.event("decoded")
                rep.expect(enc(got) == enc(v) and again == cb, "reconstructed type decodes the value differently", label=label, annotation=ann, value=repr(v)[:300])
    finally:
        py.close()
