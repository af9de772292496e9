"""How arguments enter a script and results leave it, over random types."""
import uplc.ast as ua

from vmon.core import ChainProgram, CompileFailure, NotEncodable, PyProgram, config, dec_uplc, enc, run_uplc, to_uplc
from vmon.diff import diff_case, rng_for
from vmon.tygen import TyGen, value

TASK_LIMIT = 150


def tasks(tier, seed, n=160, per=4, thorough=12):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"i": i, "per": per} for i in range(0, k, per)]


def builtin(v, ann, mod):
    """the builtin (not data) representation of a value of an annotation"""
    import typing

    tp = eval(ann, mod.__dict__) if isinstance(ann, str) else ann
    org, args = typing.get_origin(tp), typing.get_args(tp)
    if tp is bool:
        return ua.BuiltinBool(v)
    if tp is int:
        return ua.BuiltinInteger(v)
    if tp is bytes:
        return ua.BuiltinByteString(v)
    if tp is str:
        return ua.BuiltinString(v)
    if tp is None or tp is type(None):
        return ua.BuiltinUnit()
    if org is list:
        return ua.BuiltinList([builtin(x, args[0], mod) for x in v], sample(args[0], mod))
    if org is dict:
        return ua.BuiltinList([ua.BuiltinPair(to_uplc(enc(k)), to_uplc(enc(x))) for k, x in v.items()], ua.BuiltinPair(DATA, DATA))
    return to_uplc(enc(v))


DATA = ua.PlutusInteger(0)


def sample(tp, mod):
    import typing

    org, args = typing.get_origin(tp), typing.get_args(tp)
    if tp is bool:
        return ua.BuiltinBool(False)
    if tp is int:
        return ua.BuiltinInteger(0)
    if tp is bytes:
        return ua.BuiltinByteString(b"")
    if tp is str:
        return ua.BuiltinString("")
    if org is list:
        return ua.BuiltinList([], sample(args[0], mod))
    if org is dict:
        return ua.BuiltinList([], ua.BuiltinPair(DATA, DATA))
    return DATA


def flat(c):
    """builtin result -> content, so that it can be compared with the Python value"""
    k = c[0]
    if k == "bI":
        return ("I", c[1])
    if k == "bB":
        return ("B", c[1])
    if k == "bS":
        return ("B", c[1].encode().hex())
    if k == "bT":
        return ("I", int(c[1]))
    if k == "bU":
        return ("C", 0, ())
    if k == "bL":
        if c[1] and c[1][0][0] == "bP":
            return ("M", tuple((flat(p[1]), flat(p[2])) for p in c[1]))
        return ("L", tuple(flat(x) for x in c[1]))
    return c


def top_kind(ann):
    if ann in ("int", "bytes", "str", "bool", "None"):
        return {"int": "bI", "bytes": "bB", "str": "bS", "bool": "bT", "None": "bU"}[ann]
    if ann.startswith("List") or ann.startswith("Dict"):
        return "bL"
    return None


def mirror(rng, g, ann, expr, depth=0):
    """an expression that takes a value apart and puts it together again"""
    if ann in ("int",):
        return f"({expr} + 0)"
    if ann == "bytes":
        return f'({expr} + b"")'
    if ann == "str":
        return f'({expr} + "")'
    for name, _, fields in g.recs:
        if ann == name and fields and depth < 3:
            return f"{name}({', '.join(mirror(rng, g, t, f'{expr}.{f}', depth + 1) for f, t in fields)})"
    if ann.startswith("List[") and depth < 3:
        v = f"e{depth}"
        return f"[{mirror(rng, g, ann[5:-1], v, depth + 1)} for {v} in {expr}]"
    if ann.startswith("Dict[") and depth < 3:
        k, t = ann[5:-1].split(", ", 1)
        return "{k%d: %s for k%d, v%d in %s.items()}" % (depth, mirror(rng, g, t, f"v{depth}", depth + 1), depth, depth, expr)
    return expr


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "abi", i)
        g = TyGen(rng, nrec=rng.randrange(1, 4), strs=True, anything=True)
        params = [(f"p{j}", g.ty(rng.choice([0, 1, 2, 2]))) for j in range(rng.randrange(1, 5))]
        k = rng.randrange(len(params))
        ret = params[k][1]
        sig = ", ".join(f"{n}: {a}" for n, a in params)
        ident = g.source() + f"def validator({sig}) -> {ret}:\n    return {params[k][0]}\n"
        mirr = g.source() + f"def validator({sig}) -> {ret}:\n    return {mirror(rng, g, ret, params[k][0])}\n"
        py = PyProgram(ident)
        try:
            if py.load_error is not None:
                rep.errors.append(f"abi {i}: {py.load_error!r}")
                continue
            vals = [[value(rng, py.mod, a) for _, a in params] for _ in range(4)]
            sets = [repr(v) for v in vals]
            rep.event("programs")
            label = f"abi seed={seed} i={i}"
            levels = rng.sample(["O0", "O1", "O2", "O3", "default"], 2)
            diff_case(rep, ident, sets, levels=levels, label=label + " identity", stock=1 if i % 16 == 0 else 0)
            diff_case(rep, mirr, sets, levels=levels[:1], label=label + " rebuild", must_compile="Anything" not in mirr)
            # builtin in / builtin out
            for wrap, unwrap in ((False, True), (True, False), (False, False)):
                cfg = config(rng.choice(levels), wrap=wrap, unwrap=unwrap)
                try:
                    cp = ChainProgram(ident, cfg)
                except CompileFailure as e:
                    rep.violation("identity program rejected", label=label, wrap=wrap, unwrap=unwrap, error=str(e), source=ident)
                    continue
                for v in vals:
                    try:
                        args = [to_uplc(enc(x)) if unwrap else builtin(x, a, py.mod) for x, (_, a) in zip(v, params)]
                        co = run_uplc(cp.code, args)
                    except NotEncodable:
                        rep.event("inconclusive")
                        continue
                    rep.sig("wrap", wrap, unwrap, ident, repr(v))
                    want = enc(v[k])
                    ok = co.status == "ok"
                    if ok:
                        if wrap:
                            ok = co.value == want
                        else:
                            kind = top_kind(ret)
                            got = flat(co.value)
                            if want == ("M", ()) and got == ("L", ()):
                                got = want
                            ok = (kind is None or co.value[0] == kind) and fuzzy(got, want)
                    rep.expect(ok, "value crossed the script boundary changed", label=label, wrap=wrap, unwrap=unwrap, args=repr(v), chain=co.brief(), want=repr(want), source_=ident)
        finally:
            py.close()


def fuzzy(a, b):
    if a == b:
        return True
    if b[0] == "M" and a == ("L", ()) and b[1] == ():
        return True
    if a[0] == b[0] == "L" and len(a[1]) == len(b[1]):
        return all(fuzzy(x, y) for x, y in zip(a[1], b[1]))
    return False
