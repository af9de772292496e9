"""Random values for python type annotations (used for curated programs and the ABI checks)."""
import dataclasses
import typing

from pycardano import PlutusData

from vmon.values import BYTES, SMALL, STRS, rand_bytes, rand_int, rand_str


def is_datum(tp):
    args = typing.get_args(tp)
    return typing.get_origin(tp) is typing.Union and dict in args and bytes in args


def rand_typed(rng, tp, depth=3, plain_str=True):
    org, args = typing.get_origin(tp), typing.get_args(tp)
    if tp is bool:
        return rng.random() < 0.5
    if tp is int:
        return rng.choice(SMALL) if rng.random() < 0.6 else rand_int(rng)
    if tp is bytes:
        return rand_bytes(rng)[:60]
    if tp is str:
        return rng.choice(["", "a", "b", "ab", "hello", "12"]) if plain_str else rand_str(rng)
    if tp is None or tp is type(None):
        return None
    n = 0 if depth <= 0 else rng.choice([0, 1, 1, 2, 2, 3, 4])
    if org in (list, typing.List):
        return [rand_typed(rng, args[0], depth - 1, plain_str) for _ in range(n)]
    if org in (dict, typing.Dict):
        out = {}
        for _ in range(n):
            k = rand_typed(rng, args[0], depth - 1, plain_str)
            try:
                hash(k)
            except TypeError:
                k = rng.choice(SMALL)
            out[k] = rand_typed(rng, args[1], depth - 1, plain_str)
        return out
    if is_datum(tp):
        k = rng.randrange(4 if depth > 0 else 2)
        if k == 0:
            return rand_int(rng)
        if k == 1:
            return rand_bytes(rng)[:60]
        if k == 2:
            return [rand_typed(rng, tp, depth - 2) for _ in range(n)]
        return {rng.choice(SMALL): rand_typed(rng, tp, depth - 2) for _ in range(n)}
    if org is typing.Union:
        a = rng.choice([x for x in args])
        if a is list:
            return [rand_int(rng) for _ in range(n)]
        if a is dict:
            return {rand_int(rng): rand_int(rng) for _ in range(n)}
        return rand_typed(rng, a, depth - 1, plain_str)
    if isinstance(tp, type) and dataclasses.is_dataclass(tp):
        hints = typing.get_type_hints(tp)
        return tp(*[rand_typed(rng, hints[f.name], depth - 1, plain_str) for f in dataclasses.fields(tp)])
    if tp is PlutusData:
        return None
    raise TypeError(f"no generator for {tp}")


def rand_args(rng, mod, fn="validator", plain_str=True):
    f = getattr(mod, fn)
    hints = typing.get_type_hints(f, mod.__dict__)
    names = f.__code__.co_varnames[: f.__code__.co_argcount]
    return [rand_typed(rng, hints[n], plain_str=plain_str) for n in names]
