"""Parameters and datums in their textual notations: every JSON and CBOR notation of a datum is read as that datum,
as a constant and as a Python value of the annotated type; data of another type and broken text are refused."""
import dataclasses
import typing

import pycardano

from vmon.core import ChainProgram, CompileFailure, NotEncodable, PyProgram, config, dec_uplc, enc, run_uplc
from vmon.diff import rng_for
from vmon.families.artifacts import mutate
from vmon.families.integrity import Unspecified, conforms, data
from vmon.notation import from_cbor, from_obj, to_cbor, to_json
from vmon.tygen import TyGen
from vmon.typed import is_datum

TASK_LIMIT = 150


def tasks(tier, seed, n=800, per=20, thorough=20):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per} for i in range(0, k, per)]


def hashable_keys(c):
    if c[0] == "M":
        return all(k[0] in "IB" and hashable_keys(v) for k, v in c[1]) and len({k for k, _ in c[1]}) == len(c[1])
    if c[0] == "L":
        return all(map(hashable_keys, c[1]))
    if c[0] == "C":
        return all(map(hashable_keys, c[2]))
    return True


def unique_keys(c):
    """the uplc package holds maps in dicts: equal keys cannot be represented"""
    if c[0] == "M":
        return len({k for k, _ in c[1]}) == len(c[1]) and all(unique_keys(x) for kv in c[1] for x in kv)
    return all(map(unique_keys, c[1] if c[0] == "L" else c[2] if c[0] == "C" else ()))


def longest(c):
    if c[0] == "B":
        return len(c[1]) // 2
    if c[0] == "I":
        return 0
    sub = c[2] if c[0] == "C" else c[1] if c[0] == "L" else [x for kv in c[1] for x in kv]
    return max(map(longest, sub), default=0)


def fields_readable(tp, js, inside=False):
    """pycardano reads the fields of records itself and does not know all types there"""
    org, args = typing.get_origin(tp), typing.get_args(tp)
    if is_datum(tp) or tp is bool:
        return not inside
    if org is typing.Union and inside and js:
        return False
    if inside and js and any(typing.get_origin(a) in (list, dict) and has_record(a) for a in args):
        return False
    if org in (list, dict, typing.Union):
        return all(fields_readable(a, js, inside) for a in args)
    if isinstance(tp, type) and dataclasses.is_dataclass(tp):
        hints = typing.get_type_hints(tp)
        return all(fields_readable(hints[f.name], js, True) for f in dataclasses.fields(tp))
    return True


def has_record(tp):
    return (isinstance(tp, type) and dataclasses.is_dataclass(tp)) or (not is_datum(tp) and any(map(has_record, typing.get_args(tp))))


def shape(tp, c):
    """conforms as far as opshin's own reader looks: fields of records are read by pycardano"""
    org, args = typing.get_origin(tp), typing.get_args(tp)
    if is_datum(tp):
        return True
    if tp in (int, bool):
        return c[0] == "I"
    if tp is bytes:
        return c[0] == "B"
    if tp is str:
        return True  # other data than bytes is read as None (required by the tests)
    if org is list:
        return c[0] == "L" and all(shape(args[0], x) for x in c[1])
    if org is dict:
        return c[0] == "M" and all(shape(args[0], k) and shape(args[1], v) for k, v in c[1])
    if org is typing.Union:
        return any(shape(a, c) for a in args)
    return c[0] == "C"


def canon(v):
    """enc, where pycardano's wrapper for long byte strings may appear"""
    if isinstance(v, pycardano.serialization.ByteString):
        return enc(bytes(v.value))
    return enc(v)


def broken(rng, txt):
    """(what, text) that is no notation of a datum"""
    out = [("empty", ""), ("word", "hello"), ("odd hex", "0"), ("text string", "6161"), ("float", "fb3ff8000000000000"), ("null", "f6"),
           ("json null", "{null}"), ("unknown key", '{"integer": 3}'), ("array", "[1]"), ("number", "{1}"), ("empty object", "{}"),
           ("bad hex", '{"bytes": "0g"}'), ("half bytes", '{"bytes": "abc"}'), ("no fields", '{"constructor": 0}'), ("list of int", '{"list": [1]}'),
           ("list object", '{"list": {"int": 1}}'), ("map pairs", '{"map": [[{"int": 1}, {"int": 2}]]}'), ("map no value", '{"map": [{"k": {"int": 1}}]}'),
           ("int text", '{"int": "x"}'), ("int null", '{"int": null}'), ("int float", '{"int": 1.5}'), ("constructor text", '{"constructor": "a", "fields": []}'),
           ("unknown tag", "c101"), ("undefined", "f7")]
    if len(txt) > 3:
        if txt.startswith("{"):
            out.append(("truncated", txt[: rng.randrange(1, len(txt.rstrip()) - 1)]))
        else:
            out.append(("truncated", txt[:-2]))
    return out


def check_reading(rep, rng, tp, ann, c, label):
    from opshin import __main__ as cli
    from opshin import util

    if not unique_keys(c):
        rep.event("equal_keys")
        return
    ok = conforms(tp, c)
    js = rng.random() < 0.5
    txt = to_json(c, rng) if js else to_cbor(c, rng).hex()
    if not js and rng.random() < 0.2:
        txt = txt.upper()
    det = dict(label=label, type=ann, text=txt[:1500])
    rep.event(("json" if js else "cbor") + ("_conforming" if ok else "_nonconforming"))
    rep.sig(ann, c, js)
    # as a constant
    if js or hashable_keys(c):
        with rep.crashes(label, **{k: v for k, v in det.items() if k != "label"}):
            u = dec_uplc(cli.parse_uplc_param(txt))
            rep.expect(u == c, "a parameter was read as another constant", got=repr(u)[:800], want=repr(c)[:800], **det)
    if js and rng.random() < 0.3:
        import json

        with rep.crashes(label, **{k: v for k, v in det.items() if k != "label"}):
            u = dec_uplc(util.data_from_json(json.loads(txt)))
            rep.expect(u == c, "data_from_json read another constant", got=repr(u)[:800], want=repr(c)[:800], **det)
    # as a Python value
    if not hashable_keys(c):
        rep.event("unhashable_keys")
        return
    try:
        v = cli.parse_plutus_param(tp, txt)
    except Exception as e:
        v = e
    if ok:
        if not fields_readable(tp, js) or (has_record(tp) and longest(c) > (32 if js else 64)):
            rep.event("pycardano_limits")
            return
        if isinstance(v, Exception):
            rep.violation("a parameter of the annotated type was refused", error=repr(v)[:600], **det)
            return
        try:
            got = canon(v)
        except NotEncodable as e:
            got = repr(e)
        rep.expect(got == c, "a parameter was read as another value", got=repr(got)[:800], want=repr(c)[:800], **det)
        rep.event("read_back")
    elif not shape(tp, c):
        rep.event("must_refuse")
        rep.expect(isinstance(v, Exception), "a parameter of another type was accepted", got=repr(v)[:600], **det)
    else:
        rep.event("inside_record")
    for what, t in rng.sample(broken(rng, txt), 3):
        try:
            u, v = cli.parse_uplc_param(t), cli.parse_plutus_param(tp, t)
        except Exception:
            rep.event("broken_refused")
            continue
        rep.expect(False, "text that is no datum was accepted", kind=what, broken=t[:500], got=repr((u, v))[:400], **det)


def check_bools(rep, rng, label):
    """contracts take every integer but zero for true"""
    from opshin import __main__ as cli

    for n in (0, 1, 2, -1, 255, 2**70):
        for js in (True, False):
            txt = to_json(("I", n), rng) if js else to_cbor(("I", n), rng).hex()
            with rep.crashes(label, text=txt):
                rep.event("bools")
                v = cli.parse_plutus_param(bool, txt)
                rep.expect(v is (n != 0), "an integer was read as another bool than the contract sees", label=label, text=txt, got=repr(v))
                v = cli.parse_plutus_param(typing.List[bool], to_json(("L", (("I", n),)), rng))
                rep.expect(v == [n != 0], "an integer was read as another bool than the contract sees", label=label, text=txt, got=repr(v))


def check_writing(rep, rng, mod, g, label):
    """datums of records written by opshin's helpers are what the contract sees"""
    from opshin.util import datum_to_cbor, datum_to_json

    import json

    from vmon.typed import rand_typed

    for name, _, _ in g.recs:
        tp = getattr(mod, name)
        if not fields_readable(tp, True):
            continue
        v = rand_typed(rng, tp, 3)
        try:
            c = enc(v)
        except NotEncodable:
            continue
        if longest(c) > 32:
            continue
        with rep.crashes(label, value=repr(v)[:600]):
            rep.event("written")
            rep.sig("write", name, c)
            cb, jn = datum_to_cbor(v), datum_to_json(v)
            cb = bytes.fromhex(cb) if isinstance(cb, str) else cb
            rep.expect(from_cbor(cb) == c, "datum_to_cbor wrote another datum", label=label, value=repr(v)[:800], cbor=cb.hex()[:800])
            rep.expect(from_obj(json.loads(jn)) == c, "datum_to_json wrote another datum", label=label, value=repr(v)[:800], json=jn[:800])


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "conversion", i)
        simple = rng.random() < 0.5
        g = TyGen(rng, nrec=rng.randrange(1, 4), anything=not simple, bools=not simple, strs=rng.random() < 0.3)
        anns = [g.ty(rng.choice([0, 1, 2, 3])) for _ in range(3)]
        py = PyProgram(g.source() + f"def validator(x: {anns[0]}) -> {anns[0]}:\n    return x\n")
        label = f"conversion seed={seed} i={i}"
        try:
            if py.load_error is not None:
                rep.errors.append(f"{label}: {py.load_error!r}")
                continue
            for ann in anns:
                tp = eval(ann, py.mod.__dict__)
                for _ in range(6):
                    c = data(rng, tp) if rng.random() < 0.9 else data(rng, eval(rng.choice(anns), py.mod.__dict__))
                    if rng.random() < 0.4:
                        c = mutate(rng, c)
                    try:
                        check_reading(rep, rng, tp, ann, c, label)
                    except Unspecified:
                        rep.event("unspecified")
                rep.sample(type=ann, program=g.source()[-300:])
            check_writing(rep, rng, py.mod, g, label)
            if i % 20 == 0:
                check_bools(rep, rng, label)
        finally:
            py.close()
