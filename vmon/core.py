"""Execution and observation layer.

Two observers of one opshin program:

* ``PyProgram``    - the program executed by CPython (the reference semantics),
* ``ChainProgram`` - the program compiled by /repo's working tree and executed by
  the UPLC machine.

Both yield an ``Obs``: outcome ("ok" or "err"), the returned value encoded as
Plutus data by *our own* encoder, and the ordered log of print/trace events.
"""
import re
import ast as pyast
import dataclasses
import io
import itertools
import json
import os
import signal
import sys
import time
import types
import typing
from contextlib import contextmanager, redirect_stdout

REPO = os.environ.get("VMON_REPO", "/repo")  # overridden only while developing the monitors
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(8000)

import logging

logging.disable(logging.CRITICAL)

import uplc  # noqa: E402
import uplc.ast as ua  # noqa: E402
from uplc import eval as uplc_eval  # noqa: E402
from uplc.cost_model import Budget  # noqa: E402
import pycardano  # noqa: E402
from pycardano import PlutusData  # noqa: E402
import opshin  # noqa: E402

if not os.path.realpath(opshin.__file__).startswith(REPO + "/"):
    raise SystemExit(f"opshin is not imported from {REPO}: {opshin.__file__}")

from vmon import cek, fastcopy  # noqa: E402

fastcopy.install()

from opshin import builder as ob  # noqa: E402
from opshin import compiler_config as cc  # noqa: E402
from opshin.util import CompilerError  # noqa: E402

BUDGET = Budget(memory=10**10, cpu=10**13)

LEVELS = {
    "O0": cc.OPT_O0_CONFIG,
    "O1": cc.OPT_O1_CONFIG,
    "O2": cc.OPT_O2_CONFIG,
    "O3": cc.OPT_O3_CONFIG,
    "default": cc.DEFAULT_CONFIG,
}


def config(level="default", wrap=True, unwrap=True, **kw):
    return LEVELS[level].update(wrap_output=wrap, unwrap_input=unwrap, **kw)


# --------------------------------------------------------------------------
# time limits (a limit that fires is "inconclusive", never a verdict)


class TimeLimit(BaseException):
    pass


@contextmanager
def limit(seconds):
    def onalarm(*_):
        raise TimeLimit()

    t0 = time.monotonic()
    old = signal.signal(signal.SIGALRM, onalarm)
    outer, _ = signal.setitimer(signal.ITIMER_REAL, seconds)
    if outer and outer < seconds:
        signal.setitimer(signal.ITIMER_REAL, outer)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if outer:
            signal.setitimer(signal.ITIMER_REAL, max(0.05, outer - (time.monotonic() - t0)))


# --------------------------------------------------------------------------
# data encoding: python value -> canonical nested tuples, independent of opshin


class NotEncodable(Exception):
    pass


def enc(v):
    """Canonical form of a value: ("I", n) ("B", hex) ("L", [...]) ("M", [...]) ("C", id, [...])"""
    if v is None:
        return ("C", 0, ())
    if isinstance(v, bool):
        return ("I", int(v))
    if isinstance(v, int):
        return ("I", int(v))
    if isinstance(v, (bytes, bytearray)):
        return ("B", bytes(v).hex())
    if isinstance(v, str):
        return ("B", v.encode("utf8").hex())
    if isinstance(v, (list, tuple, range, pycardano.IndefiniteList)):
        return ("L", tuple(enc(x) for x in v))
    if isinstance(v, dict):
        return ("M", tuple((enc(k), enc(x)) for k, x in v.items()))
    if isinstance(v, float):
        raise ValueError("float result")
    if isinstance(v, PlutusData):
        return (
            "C",
            v.CONSTR_ID,
            tuple(enc(getattr(v, f.name)) for f in dataclasses.fields(v)),
        )
    if isinstance(v, pycardano.RawCBOR):
        return dec_uplc(ua.data_from_cbor(v.cbor))
    if type(v).__name__ in ("dict_keys", "dict_values"):
        return ("L", tuple(enc(x) for x in v))
    raise NotEncodable(f"{type(v)}")


def dec_uplc(t):
    """Canonical form of a UPLC data or builtin constant."""
    if isinstance(t, ua.PlutusInteger):
        return ("I", t.value)
    if isinstance(t, ua.PlutusByteString):
        return ("B", bytes(t.value).hex())
    if isinstance(t, ua.PlutusList):
        return ("L", tuple(dec_uplc(x) for x in t.value))
    if isinstance(t, ua.PlutusMap):
        items = t.value.items() if hasattr(t.value, "items") else t.value
        return ("M", tuple((dec_uplc(k), dec_uplc(x)) for k, x in items))
    if isinstance(t, ua.PlutusConstr):
        return ("C", t.constructor, tuple(dec_uplc(x) for x in t.fields))
    if isinstance(t, ua.BuiltinInteger):
        return ("bI", t.value)
    if isinstance(t, ua.BuiltinByteString):
        return ("bB", bytes(t.value).hex())
    if isinstance(t, ua.BuiltinString):
        return ("bS", t.value)
    if isinstance(t, ua.BuiltinBool):
        return ("bT", bool(t.value))
    if isinstance(t, ua.BuiltinUnit):
        return ("bU",)
    if isinstance(t, ua.BuiltinList):
        return ("bL", tuple(dec_uplc(x) for x in t.values))
    if isinstance(t, ua.BuiltinPair):
        return ("bP", dec_uplc(t.l_value), dec_uplc(t.r_value))
    return ("?", type(t).__name__)


def to_uplc(c):
    """canonical form -> UPLC data constant"""
    k = c[0]
    if k == "I":
        return ua.PlutusInteger(c[1])
    if k == "B":
        return ua.PlutusByteString(bytes.fromhex(c[1]))
    if k == "L":
        return ua.PlutusList([to_uplc(x) for x in c[1]])
    if k == "M":
        return ua.PlutusMap({to_uplc(a): to_uplc(b) for a, b in c[1]})
    if k == "C":
        return ua.PlutusConstr(c[1], [to_uplc(x) for x in c[2]])
    raise NotEncodable(k)


def canon_unordered(c):
    """canonical form with maps sorted: used where only dict content is claimed"""
    k = c[0]
    if k == "L":
        return ("L", tuple(canon_unordered(x) for x in c[1]))
    if k == "M":
        return (
            "M",
            tuple(sorted((canon_unordered(a), canon_unordered(b)) for a, b in c[1])),
        )
    if k == "C":
        return ("C", c[1], tuple(canon_unordered(x) for x in c[2]))
    return c


@dataclasses.dataclass
class Obs:
    status: str  # "ok" | "err"
    value: typing.Any = None  # canonical
    logs: typing.Tuple[str, ...] = ()
    error: str = ""

    def brief(self):
        s = f"{self.status}"
        if self.status == "ok":
            s += f" value={self.value!r}"
        else:
            s += f" error={self.error[:200]!r}"
        return s + f" logs={list(self.logs)!r}"


# --------------------------------------------------------------------------
# CPython side

_modcount = itertools.count()


class PyProgram:
    def __init__(self, source, fn="validator", extra_path=None):
        self.source = source
        self.fn = fn
        name = f"_vmon_prog_{os.getpid()}_{next(_modcount)}"
        self.mod = types.ModuleType(name)
        self.mod.__file__ = "<vmon>"
        sys.modules[name] = self.mod
        self.load_error = None
        self.load_logs = ()
        out = io.StringIO()
        try:
            with redirect_stdout(out):
                exec(compile(source, f"<{name}>", "exec"), self.mod.__dict__)
        except TimeLimit:
            raise
        except Exception as e:
            self.load_error = e
        self.load_logs = split_logs(out.getvalue())

    def close(self):
        sys.modules.pop(self.mod.__name__, None)

    def run(self, args, canon=enc):
        """args: python values. Module level output precedes the call's output, as on-chain."""
        if self.load_error is not None:
            return Obs("err", None, self.load_logs, repr(self.load_error))
        out = io.StringIO()
        try:
            with redirect_stdout(out):
                r = getattr(self.mod, self.fn)(*args)
            v = canon(r)
        except TimeLimit:
            raise
        except NotEncodable:
            raise
        except RecursionError as e:
            raise NotEncodable("recursion") from e
        except Exception as e:
            if type(e).__name__ == "InvalidArgumentException":
                # pycardano refuses byte strings above 64 bytes off-chain only
                raise NotEncodable("pycardano limit") from e
            return Obs(
                "err",
                None,
                self.load_logs + split_logs(out.getvalue()),
                f"{type(e).__name__}: {e}",
            )
        return Obs("ok", v, self.load_logs + split_logs(out.getvalue()))


def split_logs(s):
    if s == "":
        return ()
    assert s.endswith("\n")
    return tuple(s[:-1].split("\n"))


# --------------------------------------------------------------------------
# chain side


class CompileFailure(Exception):
    def __init__(self, exc):
        self.exc = exc
        orig = getattr(exc, "orig_err", None)
        self.kind = type(orig or exc).__name__
        super().__init__(f"{type(exc).__name__}: {orig or exc}")


class ChainProgram:
    def __init__(self, source, cfg=None, fn="validator", contract_file="<unknown>"):
        cfg = cfg or config()
        try:
            # constant folding may print while compiling
            with redirect_stdout(io.StringIO()):
                tree = opshin.compiler.parse(source, filename=contract_file)
                self.code = ob.compile(
                    tree,
                    contract_filename=contract_file,
                    validator_function_name=fn,
                    config=cfg,
                )
        except TimeLimit:
            raise
        except Exception as e:
            raise CompileFailure(e) from e

    def run(self, canon_args):
        return run_uplc(self.code, [to_uplc(a) for a in canon_args])


MAX_STEPS = 1_500_000


def prepare(code):
    p = getattr(code, "_vmon_prepared", None)
    if p is None:
        p = cek.prepare(code.term)
        try:
            code._vmon_prepared = p
        except Exception:
            pass
    return p


def run_uplc(code, uplc_args, reference=False):
    """evaluate a uplc Program applied to constants; reference=True uses the stock machine"""
    logs = []
    if reference:
        term = code.term
        for a in uplc_args:
            term = ua.Apply(term, a)
        r = uplc_eval(ua.Program(code.version, term), budget=BUDGET)
        result, raw = r.result, r.logs
        if isinstance(result, Exception) and "Exhausted budget" in str(result):
            raise NotEncodable("budget")
    else:
        try:
            result, raw, error, _ = cek.run(prepare(code), uplc_args, MAX_STEPS)
        except cek.OutOfSteps as e:
            raise NotEncodable("budget") from e
        if error is not None:
            result = RuntimeError(error)
    for l in raw:
        logs.extend(l.split("\n"))
    if isinstance(result, Exception):
        return Obs("err", None, tuple(logs), f"{type(result).__name__}: {str(result)[:300]}")
    return Obs("ok", dec_uplc(result), tuple(logs))


def logs_agree(py: Obs, ch: Obs):
    """Trace discipline: identical event sequences on success; on failure the on-chain log is
    the Python log followed by at most one error message (which may span lines)."""
    want = list(py.logs)
    if py.status == "ok":
        return want == list(ch.logs)
    return list(ch.logs[: len(want)]) == want


def agree(py: Obs, ch: Obs, logs=False, unordered=False):
    if py.status != ch.status:
        return False
    if py.status == "ok":
        a, b = py.value, ch.value
        if unordered:
            a, b = canon_unordered(a), canon_unordered(b)
        if a != b:
            return False
    if logs and not logs_agree(py, ch):
        return False
    return True
