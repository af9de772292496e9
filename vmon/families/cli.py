"""The command line: eval, eval_uplc, compile, compile_pluto, build, parse and lint do what the library does, and say so."""
import hashlib
import json
import os
import shutil
import tempfile
import typing

import cbor2
import pluthon
import uplc
import uplc.ast as ua

from vmon import clirun
from vmon.core import CompileFailure, ChainProgram, NotEncodable, PyProgram, TimeLimit, enc, limit, run_uplc, to_uplc
from vmon.diff import rng_for
from vmon.families.conversion import broken, fields_readable, has_record, hashable_keys, longest, unique_keys
from vmon.notation import to_cbor, to_json
from vmon.pool import program
from vmon.tygen import TyGen, value

from opshin import builder, compiler
from opshin.compiler_config import DEFAULT_CONFIG, OPT_CONFIGS, CompilationConfig

TASK_LIMIT = 200
SWITCHES = ["constant_folding", "remove_dead_code", "expand_union_types", "allow_isinstance_anything", "compress_patterns",
            "remove_force_delay", "deduplicate", "constant_index_access_list", "unique_variable_names", "iterative_unfold_patterns"]


def tasks(tier, seed, mode, n, per=3, thorough=12):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"mode": mode, "i": i, "per": per} for i in range(0, k, per)]


def run(t, rep, tier, seed):
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "cli", t["mode"], i)
        label = f"cli {t['mode']} seed={seed} i={i}"
        d = tempfile.mkdtemp(prefix="vmon_clit_")
        try:
            with rep.crashes(label):
                {"eval": eval_case, "build": build_case, "lint": lint_case}[t["mode"]](rng, rep, label, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def flags(rng, wrap):
    """(command line flags, the configuration they stand for)"""
    argv, cfg = [], DEFAULT_CONFIG
    lvl = rng.choice([None, 0, 1, 2, 3])
    if lvl is None:
        cfg = cfg.update(OPT_CONFIGS[2])
    else:
        argv.append(f"-O{lvl}")
        cfg = cfg.update(OPT_CONFIGS[lvl])
    over = {}
    for s in rng.sample(SWITCHES, rng.choice([0, 0, 1, 2])):
        over[s] = rng.random() < 0.5
        argv.append(f"-f{'' if over[s] else 'no-'}{s.replace('_', '-')}")
    if rng.random() < 0.2:
        over["fast_access_skip"] = rng.choice([2, 3, 7])
        argv += ["-ffast-access-skip", str(over["fast_access_skip"])]
    if wrap:
        over["wrap_output"] = True
        argv.append(rng.choice(["-fwrap-output", "--wo"]))
    rng.shuffle(argv) if "-ffast-access-skip" not in argv else None
    return argv, cfg.update(CompilationConfig(**over)), 2 if lvl is None else lvl


def show(c):
    k = c[0]
    if k == "I":
        return f"I {c[1]}"
    if k == "B":
        return f"B #{c[1]}"
    if k == "L":
        return "List [" + ", ".join(map(show, c[1])) + "]"
    if k == "M":
        return "Map [" + ", ".join(f"({show(a)}, {show(b)})" for a, b in c[1]) + "]"
    return f"Constr {c[1]} [" + ", ".join(map(show, c[2])) + "]"


def squeeze(s):
    return "".join(s.split())


def text(rng, c):
    return to_json(c, rng) if rng.random() < 0.5 else to_cbor(c, rng).hex()


def readable(hint, c, txt):
    js = txt.startswith("{")
    return fields_readable(hint, js) and hashable_keys(c) and not (has_record(hint) and longest(c) > 32)


def marked(code, params):
    """the program of the compiler with the marker of the version, and its parameters applied"""
    import opshin

    mark = bytes([ord("o"), *(int(x) for x in opshin.__version__.split("."))])
    term = ua.Apply(ua.Lambda("_", code.term), ua.BuiltinByteString(mark))
    for p in params:
        term = ua.Apply(term, to_uplc(p))
    return ua.Program((1, 1, 0), term)


def plain(src, path, fn, cfg):
    """the compiler called directly: (pluto text, uplc program)"""
    pl = compiler.compile(compiler.parse(src, filename=path), filename=path, validator_function_name=fn, config=cfg)
    txt = pl.dumps()
    return txt, pluthon.compile(pl, config=cfg)


def readable_args(rng, py, hints, sets):
    """argument tuples that can be given on the command line: (python values, canonical, texts)"""
    out = []
    for s in sets:
        try:
            vals = eval(s, dict(py.mod.__dict__))
            cs = [enc(v) for v in vals]
        except (NotEncodable, ValueError):
            continue
        txts = [text(rng, c) for c in cs]
        for j, (h, c) in enumerate(zip(hints, cs)):
            if not readable(h, c, txts[j]):
                txts[j] = to_cbor(c, rng).hex()
        if all(unique_keys(c) and readable(h, c, t) for h, c, t in zip(hints, cs, txts)):
            out.append((vals, cs, txts))
    return out


def eval_case(rng, rep, label, d):
    kind = rng.choice(["skeleton", "skeleton", "random", "records"])
    src, fn, sets = program(kind, rng)
    # the exported function may have any name
    if rng.random() < 0.5:
        fn = rng.choice(["helper_fn", "run", "main_0", "entry"])
        if fn not in src:
            src = src.replace("def validator(", f"def {fn}(")
            if rng.random() < 0.5 and "validator" not in src:  # a decoy
                src += "\n\ndef validator(a: int) -> int:\n    return a\n"
        else:
            fn = "validator"
    py = PyProgram(src, fn)
    try:
        if py.load_error is not None:
            rep.errors.append(f"{label}: {py.load_error!r}")
            return
        f = getattr(py.mod, fn)
        th = typing.get_type_hints(f, py.mod.__dict__)
        hints = [th[n] for n in f.__code__.co_varnames[: f.__code__.co_argcount]]
        cases = readable_args(rng, py, hints, sets)[:2]
        if not cases:
            rep.event("not_readable")
            return
        path = os.path.join(d, rng.choice(["contract.py", "my contract.py", "lib.v2.py"]))
        with open(path, "w") as g:
            g.write(src)
        fl, cfg, lvl = flags(rng, True)
        lib = ["--lib=" + fn] if fn != "validator" or rng.random() < 0.5 else ["--lib"]
        stdin = rng.random() < 0.3
        src_arg = "-" if stdin else path
        for vals, cs, txts in cases:
            cmd = rng.choice(["eval", "eval", "eval_uplc"])
            # (a bare --lib takes the next word as its value)
            argv = [cmd] + fl[:0] + [src_arg] + txts + fl + lib if lib == ["--lib"] else [cmd] + fl + lib + [src_arg] + txts
            try:
                with limit(40):
                    po = py.run(vals)
                pyval = None
                if cmd == "eval":
                    pyval = observed(py, fn, eval_again(sets, py, cs))
            except (NotEncodable, TimeLimit):
                rep.event("inconclusive")
                continue
            r = clirun.run(argv, stdin=src if stdin else "", cwd=d, timeout=90)
            det = dict(label=label, argv=argv[:20], run=r.brief(), python=po.brief()[:300], source_=src)
            rep.event("eval_runs")
            rep.event("eval_" + po.status)
            rep.sig(src, argv)
            rep.sample(argv=[a[:60] for a in argv], output=r.out[-200:])
            if r.rc != 0 and "evaluation" not in r.exc and ("SyntaxError" in r.exc or "CompilerError" in r.exc):
                # only if the library rejects the program alike
                try:
                    plain(src, path, fn, cfg)
                    rejected = False
                except Exception:
                    rejected = True
                rep.expect(rejected, "the command line rejects a program the library compiles", **det)
                rep.event("rejected")
                return
            if not rep.expect(r.rc == 0, "evaluation failed to report", **det):
                return
            check_eval(rep, r, po, cmd, pyval, lvl, det)
    finally:
        py.close()


def eval_again(sets, py, cs):
    """fresh values (a run may have changed the first ones)"""
    for s in sets:
        try:
            vals = eval(s, dict(py.mod.__dict__))
            if [enc(v) for v in vals] == cs:
                return vals
        except (NotEncodable, ValueError):
            continue
    raise NotEncodable("?")


def observed(py, fn, vals):
    import io
    from contextlib import redirect_stdout

    with redirect_stdout(io.StringIO()), limit(40):
        try:
            return getattr(py.mod, fn)(*vals)
        except Exception as e:
            return e


def check_eval(rep, r, po, cmd, pyval, lvl, det):
    out = r.out
    ok = rep.expect("------LOGS--------\n" in out and "------COST--------\n" in out, "output of the evaluation is incomplete", **det)
    if not ok:
        return
    logs, rest = out.split("------LOGS--------\n", 1)[1].split("------COST--------\n", 1)
    succ = "-----SUCCESS------\n" in rest
    rep.expect(succ != ("----EXCEPTION-----\n" in rest), "both or neither of success and exception", **det)
    if not rep.expect(succ == (po.status == "ok"), "the reported outcome is not the outcome of the program", **det):
        return
    tail = rest.split("-----SUCCESS------\n" if succ else "----EXCEPTION-----\n", 1)[1]
    if cmd == "eval":
        want = f" (Python: {pyval})\n"
        rep.expect(tail.endswith(want), "the Python result is not reported", want=want[:300], **det)
        tail = tail[: -len(want)]
        rep.event("python_results")
    if succ:
        rep.expect(squeeze(tail) == squeeze(f"(con data ({show(po.value)}))"), "the reported result is not the result of the program", want=show(po.value)[:500], **det)
    if lvl <= 1:
        lines = list(po.logs) if hasattr(po, "logs") else []
        text_ = "\n".join(lines) if isinstance(lines, list) else lines
        if po.status == "ok" and "remove_trace" not in str(det["argv"]):
            got = "" if logs == "No logs\n" else logs
            want = "".join(f" > {x}\n" for x in lines)
            rep.expect(got == want, "the reported trace is not the trace of the program", want=want[:300], **det)
            rep.event("traces")


def contract(rng, g):
    n = rng.choice([0, 0, 1, 2, 3])
    params = [(f"p{j}", g.ty(rng.choice([0, 1, 2]))) for j in range(n)]
    names = "".join(f"{m}: {a}, " for m, a in params)
    uses = "".join(f"    print({m})\n" for m, a in params if rng.random() < 0.5)
    ret = rng.choice(["None", "None", "int"])
    body = "    assert context.transaction.fee >= %d, 'fee'\n" % rng.randrange(50)
    src = "from opshin.prelude import *\n" + g.source().replace("from pycardano import Datum as Anything, PlutusData\n", "") + (
        f"def validator({names}context: ScriptContext) -> {ret}:\n{uses}{body}" + ("    return 1\n" if ret == "int" else ""))
    return src, params


def build_case(rng, rep, label, d):
    g = TyGen(rng, nrec=rng.randrange(0, 3), anything=False, bools=rng.random() < 0.3)
    src, params = contract(rng, g)
    py = PyProgram(src)
    try:
        if py.load_error is not None:
            rep.errors.append(f"{label}: {py.load_error!r}")
            return
        bound, texts = [], []
        for m, a in params[: rng.randrange(len(params) + 1)]:
            hint = eval(a, py.mod.__dict__)
            try:
                c = enc(value(rng, py.mod, a, 2))
            except NotEncodable:
                break
            t = text(rng, c)
            if not readable(hint, c, t):
                t = to_cbor(c, rng).hex()
            if not (readable(hint, c, t) and unique_keys(c)):
                break
            bound.append(c)
            texts.append(t)
        fl, cfg, lvl = flags(rng, False)
        left = len(params) - len(bound)
        path = os.path.join(d, rng.choice(["contract.py", "my contract.py"]))
        with open(path, "w") as f:
            f.write(src)
        # what the library does with it
        pluto, code = plain(src, path, "validator", cfg)
        want = marked(code, bound)
        nparam = ["--parameters", str(left)] if left or rng.random() < 0.5 else []
        stdin = rng.random() < 0.3
        src_arg = "-" if stdin else path
        what = rng.choice(["compile", "compile", "compile_pluto", "build", "build", "parse", "wrong"])
        det = dict(label=label, what_=what, flags=fl, bound=texts, source_=src)
        rep.sig(src, fl, texts, what)
        rep.event(what)

        def go(cmd, extra, process=False):
            argv = [cmd, src_arg] + texts + fl + nparam + extra
            r = (clirun.run_process if process else clirun.run)(argv, stdin=src if stdin else "", cwd=d)
            det.update(argv=argv, run=r.brief())
            return r

        if what == "compile":
            r = go("compile", [])
            if rep.expect(r.rc == 0, "compile failed", **det):
                warn, _, txt = r.out.rpartition("(program")
                rep.expect(squeeze("(program" + txt) == squeeze(want.dumps()), "compile prints another program than the library makes", **det)
                check_version(rep, r.out, det)
        elif what == "compile_pluto":
            r = go("compile_pluto", [])
            if rep.expect(r.rc == 0, "compile_pluto failed", **det):
                rep.expect(r.out.endswith(pluto + "\n"), "compile_pluto prints another program than the library makes", **det)
        elif what == "parse":
            r = go("parse", [])
            rep.expect(r.rc == 0 and "Parsed successfully." in r.out, "parse failed", **det)
        elif what == "build":
            out = os.path.join(d, rng.choice(["out", "deep/er/out", "out put"]))
            extra = ["-o", out]
            if not stdin and rng.random() < 0.4:
                extra, out = [], os.path.join(d, "build", os.path.splitext(os.path.basename(path))[0])
            r = go("build", extra, process=rng.random() < 0.1)
            if rep.expect(r.rc == 0, "build failed", **det):
                check_artifacts(rep, out, want, params[len(bound) :], det)
        else:
            wrong(rng, rep, label, d, src, src_arg, stdin, texts, fl, left, params, det)
    finally:
        py.close()


def check_version(rep, out, det):
    import opshin

    mark = "6f" + "".join(f"{int(x):02x}" for x in opshin.__version__.split("."))
    rep.expect(f"(con bytestring #{mark})" in out, "the marker of the version is missing", **det)


def check_artifacts(rep, out, want, left, det):
    files = {}
    for n in ("script.cbor", "script.policy_id", "mainnet.addr", "testnet.addr", "blueprint.json", "script.plutus"):
        p = os.path.join(out, n)
        if os.path.exists(p):
            with open(p) as f:
                files[n] = f.read()
    if not rep.expect(len(files) == 6, "artifacts are missing", got=sorted(files), **det):
        return
    cbor = uplc.flatten(want)
    script = bytes.fromhex(files["script.cbor"])
    rep.expect(script == cbor, "the built script is not the one the library makes", got=files["script.cbor"][:100], want=cbor.hex()[:100], **det)
    h = hashlib.blake2b(b"\x03" + cbor, digest_size=28).hexdigest()
    rep.expect(files["script.policy_id"] == h, "policy id is not the hash of the script", got=files["script.policy_id"], want=h, **det)
    bp = json.loads(files["blueprint.json"])
    v = bp["validators"][0]
    rep.expect(len(v.get("parameters") or []) == len(left), "the blueprint lists other parameters", got=json.dumps(v.get("parameters"))[:400], want=[m for m, _ in left], **det)
    rep.expect([p["title"] for p in v.get("parameters") or []] == [m for m, _ in left], "the blueprint names other parameters", got=json.dumps(v.get("parameters"))[:400], want=[m for m, _ in left], **det)
    rep.expect(v["hash"] == h and v["compiledCode"] == cbor.hex(), "the blueprint has another script", **det)


def wrong(rng, rep, label, d, src, src_arg, stdin, texts, fl, left, params, det):
    """mistakes on the command line are refused, and nothing is written"""
    out = os.path.join(d, "never")
    kinds = ["parameters", "broken", "too many", "no function", "lib", "file", "eval count"]
    kind = rng.choice(kinds)
    argv = ["build", src_arg]
    if kind == "parameters":
        argv += texts + ["--parameters", str(left + rng.choice([1, 2, -1]))]
    elif kind == "broken":
        if not texts:
            kind = "too many"
        else:
            j = rng.randrange(len(texts))
            bad = rng.choice(broken(rng, texts[j]))[1]
            argv += texts[:j] + [bad] + texts[j + 1 :] + ["--parameters", str(left)]
    if kind == "too many":
        argv += texts + ['{"int": 1}'] * (left + 2)
    elif kind == "no function":
        src = src.replace("def validator(", "def other(")
        if not stdin:
            with open(src_arg, "w") as f:
                f.write(src)
        argv += texts + ["--parameters", str(left)]
    elif kind == "lib":
        argv += texts + ["--lib=validator"]
    elif kind == "file":
        if stdin:
            argv += texts + ["--parameters", str(left)]
            r = clirun.run(argv, stdin=src, cwd=d)
            rep.expect(r.rc != 0 and not os.path.exists(os.path.join(d, "build")), "a build from stdin without output directory", **dict(det, argv=argv, run=r.brief()))
            return
        argv[1] = os.path.join(d, "missing.py")
    elif kind == "eval count":
        argv = ["eval_uplc", src_arg] + texts
        if not left:  # the context is missing in any case
            pass
    argv = argv[:2] + fl + ["-o", out] + argv[2:]
    r = clirun.run(argv, stdin=src if stdin else "", cwd=d)
    det = dict(det, kind=kind, argv=argv, run=r.brief())
    rep.event("wrong_" + kind.replace(" ", "_"))
    rep.expect(r.rc != 0 and "SUCCESS" not in r.out, "a mistake on the command line was not refused", **det)
    rep.expect(not os.path.exists(out), "artifacts were written for a refused build", **det)


def lint_case(rng, rep, label, d):
    from vmon.families.rejects import CASES, WRAPS, place

    name, b, g = rng.choice([c for c in CASES if "\n" not in c[1] and "await" not in c[1]])
    ctx = rng.choice(["validator", "helper", "method", "inner"])
    wrap = rng.choice(list(WRAPS))
    js = rng.random() < 0.5
    shift = rng.randrange(4)
    pad = "".join(rng.choice(["# a comment\n", "\n", '"""text"""\n']) for _ in range(shift))
    stdin = rng.random() < 0.3
    path = os.path.join(d, "contract.py")
    first = rng.random() < 0.3
    if first:
        # right at the start (or the end) of the file
        b, g = rng.choice([("def f1(a: int) -> int: return a + b''", "def f1(a: int) -> int: return a + 1"), ("def f1(a: int) -> int: return nope", "def f1(a: int) -> int: return a"), ("def f1(a: int) -> bytes: return a", "def f1(a: int) -> bytes: return b''")])
    for bad, stmt in ((True, b), (False, g)):
        if "\n" in stmt:
            continue
        src = pad + (place(stmt, wrap, ctx) if not first else stmt + "\ndef validator(a: int) -> int:\n    return a\n" if rng.random() < 0.7 else "def validator(a: int) -> int:\n    return a\n" + stmt)
        with open(path, "w") as f:
            f.write(src)
        argv = ["lint", "-" if stdin else path, "--lib=validator"] + (["--output-format-json"] if js else [])
        r = clirun.run(argv, stdin=src if stdin else "", cwd=d)
        det = dict(label=label, case=name, context=ctx, wrap=wrap, argv=argv, run=r.brief(), source_=src)
        rep.event("lint_bad" if bad else "lint_good")
        rep.sig(src, js)
        if not rep.expect(r.rc == 0, "lint failed", **det):
            return
        errs = []
        for line in r.out.splitlines():
            if js:
                try:
                    o = json.loads(line)
                except ValueError:
                    rep.expect(False, "lint printed a line that is no JSON", line=line, **det)
                    continue
                errs += [(x["line"], x["error_class"]) for x in (o if isinstance(o, list) else [o])]
            elif line.startswith(argv[1] + ":"):
                p = line[len(argv[1]) + 1 :].split(":")
                errs.append((int(p[0]) if p[0].isdigit() else p[0], p[2].strip()))
        errs = [e for e in errs if e[1] not in ("WARNING", "INFO", "DEBUG")]
        if bad:
            lines = [i for i, l in enumerate(src.split("\n"), 1) if l.strip() == stmt]
            rep.expect(len(errs) == 1 and errs[0][0] in lines, "lint does not point at the statement", want=lines, got=errs, **det)
        else:
            rep.expect(not errs, "lint complains about a correct program", got=errs, **det)
    rep.sample(case=name, context=ctx, wrap=wrap)
