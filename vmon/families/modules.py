"""Programs split over modules: the compiled contract must behave like Python running the same files.

The definitions of generated programs are distributed over a chain, tree or diamond of modules (flat, in packages,
with relative imports, re-imports and cycles), all of them with the same few module names in every program, so that
modules of programs compiled earlier in the process must not be picked up."""
import ast
import os
import shutil
import sys
import tempfile

from vmon import core
from vmon.core import ChainProgram, CompileFailure, NotEncodable, PyProgram, TimeLimit, agree, config, enc, limit
from vmon.diff import rng_for
from vmon.pool import program

TASK_LIMIT = 150


def tasks(tier, seed, n=180, per=6, thorough=8):
    k = n * (thorough if tier == "thorough" else 1)
    return [{"kind": "split", "i": i, "per": per} for i in range(0, k, per)] + [{"kind": "scenarios"}]


def names(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}


def defined(node):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        return {node.name}
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def split(src, rng):
    """{relative path: source}; main is contract.py. None if there is nothing to split"""
    tree = ast.parse(src)
    head = [n for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))]
    defs = [n for n in tree.body if n not in head]
    pure = [n for n in defs if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    # statements with effects (and redefinitions) keep their order: only a prefix of definitions moves
    k = 0
    seen = set()
    while k < len(defs) - 1 and defs[k] in pure and not defined(defs[k]) & seen and getattr(defs[k], "name", "") != "validator":
        seen |= defined(defs[k])
        k += 1
    later = set().union(*[defined(d) for d in defs[k:]]) if defs[k:] else set()
    movable = [d for d in defs[:k] if not defined(d) & later]
    # (a function that uses a name defined in the rest of the file cannot move)
    while True:
        stay = [d for d in movable if names(d) & set().union(set(), *[defined(x) for x in defs if x not in movable])]
        if not stay:
            break
        movable = [d for d in movable if d not in stay]
    if not movable:
        return None
    nm = rng.randrange(1, 5)
    level = {}
    for d in movable:
        low = max([level[x] for x in movable if x in level and defined(x) & names(d)], default=0)
        level[d] = rng.randrange(low, nm) if rng.random() < 0.8 else low
    # functions calling each other mutually must stay together
    changed = True
    while changed:
        changed = False
        for d in movable:
            for x in movable:
                if defined(x) & names(d) and level[x] > level[d]:
                    level[d] = level[x]
                    changed = True
    layout = rng.choice(["flat", "flat", "package", "relative", "nested", "namespace", "mixed", "mixed", "mixed"])
    pre = {"flat": (), "package": ("lib",), "relative": ("lib",), "nested": ("lib", "sub"), "namespace": ("space",), "mixed": ()}[layout]
    where = {j: pre + (f"helper{j}",) for j in range(nm)}
    if layout == "mixed":
        # modules in different (nested) packages, with the same file names in several of them
        spots = [p + (m,) for p in ((), ("lib",), ("lib", "sub"), ("lib", "sub", "deep"), ("other",)) for m in ("helper0", "helper1")]
        where = dict(enumerate(rng.sample(spots, nm)))
    files = {}
    for w in where.values():
        for d in range(1, len(w)):
            if w[0] != "space":
                files["/".join(w[:d]) + "/__init__.py"] = ""
    htext = "\n".join(ast.unparse(h) for h in head)
    uses = {j: set() for j in range(nm)}
    for d in movable:
        for x in movable:
            if x is not d and defined(x) & names(d) and level[x] < level[d]:
                uses[level[d]].add(level[x])

    def imports(js, at):
        out = []
        for j in js:
            w = where[j]
            common = 0
            while common < min(len(at), len(w)) - 1 and at[common] == w[common]:
                common += 1
            if common and (layout == "relative" or layout == "mixed" and rng.random() < 0.6):
                out.append(f"from {'.' * (len(at) - common)}{'.'.join(w[common:])} import *")
            else:
                out.append(f"from {'.'.join(w)} import *")
        return out

    for j in range(nm):
        extra = {q for q in range(j) if rng.random() < 0.3}  # more imports than needed: diamonds
        order = sorted(uses[j] | extra)
        rng.shuffle(order)
        im = imports(order, where[j])
        if order and rng.random() < 0.2:
            im.append(im[0])
        body = [ast.unparse(d) for d in movable if level[d] == j]
        parts = [htext] + im + body if rng.random() < 0.7 else im + [htext] + body
        path = "/".join(where[j]) + ".py"
        files[path] = "\n\n".join(parts) + "\n"
    order = list(range(nm))
    rng.shuffle(order)
    rest = [ast.unparse(d) for d in defs if d not in movable]
    im = imports(order, ())
    parts = [htext] + im + rest if rng.random() < 0.7 else im + [htext] + rest
    files["contract.py"] = "\n\n".join(parts) + "\n"
    return files, layout, nm


class Files:
    """the files on disk, and imported by Python as a user would"""

    def __init__(self, files):
        self.dir = tempfile.mkdtemp(prefix="vmon_mod_")
        for f, s in files.items():
            p = os.path.join(self.dir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fp:
                fp.write(s)
        self.main = os.path.join(self.dir, "contract.py")
        self.source = files["contract.py"]

    def python(self, fn="validator"):
        import importlib

        before = set(sys.modules)
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        try:
            py = PyProgram(self.source, fn)
        finally:
            sys.path.remove(self.dir)
            self.own = [m for m in set(sys.modules) - before if (getattr(sys.modules[m], "__file__", None) or "").startswith(self.dir)]
            self.mods = {m: sys.modules.pop(m) for m in self.own}
            for m in list(sys.modules):
                if m.split(".")[0] in ("lib", "space", "other", "la", "lb") and m not in before:
                    sys.modules.pop(m)
        return py

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def listing(files):
    return "\n".join(f"# --- {f}\n{s}" for f, s in files.items())


def observe(rep, files, args, levels, label, finding=None, must_compile=True):
    fs = Files(files)
    try:
        path0 = list(sys.path)
        py = fs.python()
        try:
            if py.load_error is not None:
                if must_compile:
                    rep.errors.append(f"{label}: {py.load_error!r}")
                rep.event("not_loadable")
                return
            runs = []
            for a in args:
                try:
                    a = eval(a, dict(py.mod.__dict__)) if isinstance(a, str) else a
                    canon = [enc(x) for x in a]
                    with limit(15):
                        runs.append((a, canon, py.run(list(a))))
                except (NotEncodable, TimeLimit):
                    rep.event("inconclusive")
            for level in levels:
                try:
                    cp = ChainProgram(fs.source, config(level), contract_file=fs.main)
                except CompileFailure as e:
                    if must_compile:
                        rep.violation("a program split over modules was rejected", finding=finding, label=label, level_=level, error=str(e)[:400], files=listing(files))
                    else:
                        rep.event("rejected")
                    continue
                rep.event("compiled")
                for a, canon, po in runs:
                    try:
                        co = cp.run(canon)
                    except NotEncodable:
                        rep.event("inconclusive")
                        continue
                    rep.sig(listing(files), canon, level)
                    rep.event("outcome_" + po.status)
                    rep.event("trace_events", len(co.logs))
                    if not rep.expect(agree(po, co, logs=level == "O0"), "compiled modules and Python disagree", finding=finding, label=label, level_=level, args=repr(a), python=po.brief()[:400], chain=co.brief()[:400], files=listing(files)):
                        break
            rep.sample(files=sorted(files), layout=label)
            rep.expect(sys.path == path0, "compiling changed the module search path", label=label, added=[p for p in sys.path if p not in path0])
        finally:
            py.close()
    finally:
        fs.close()


V = "def validator(a: int) -> int:\n    print('v', a)\n    return f(a)\n"
F = "def f(a: int) -> int:\n    return {}\n"
SCENARIOS = [
    ("later import wins", None, {"ha.py": F.format("a + 1"), "hb.py": F.format("a + 2"), "contract.py": "from ha import *\nfrom hb import *\n" + V}),
    ("cycle", None, {"ha.py": "from hb import *\n" + F.format("g(a)"), "hb.py": "from ha import *\ndef g(a: int) -> int:\n    return a * 3\n", "contract.py": "from ha import *\n" + V}),
    ("package itself", None, {"lib/__init__.py": F.format("a + 3"), "contract.py": "from lib import *\n" + V}),
    ("package imports its module", None, {"lib/__init__.py": "from lib.inner import *\n", "lib/inner.py": F.format("a + 3"), "contract.py": "from lib import *\n" + V}),
    ("same name inside and outside of a package", None, {"hb.py": "def g(a: int) -> int:\n    return a + 100\n", "lib/__init__.py": "", "lib/ha.py": "from .hb import *\n" + F.format("g(a)"), "lib/hb.py": "def g(a: int) -> int:\n    return a + 7\n", "contract.py": "from lib.ha import *\n" + V}),
    ("sibling with absolute name", None, {"hb.py": "def g(a: int) -> int:\n    return a + 100\n", "lib/__init__.py": "", "lib/ha.py": "from lib.hb import *\n" + F.format("g(a)"), "lib/hb.py": "def g(a: int) -> int:\n    return a + 7\n", "contract.py": "from lib.ha import *\n" + V}),
    ("parent relative", None, {"lib/__init__.py": "", "lib/hb.py": "def g(a: int) -> int:\n    return a + 7\n", "lib/sub/__init__.py": "", "lib/sub/ha.py": "from ..hb import *\n" + F.format("g(a)"), "contract.py": "from lib.sub.ha import *\n" + V}),
    ("relative import within a package reached from another one", None, {"lib/__init__.py": "", "lib/ha.py": "from .sub.hb import *\n" + F.format("g(a)"), "lib/sub/__init__.py": "", "lib/sub/hb.py": "from .hc import *\ndef g(a: int) -> int:\n    return h(a) + 1\n", "lib/sub/hc.py": "def h(a: int) -> int:\n    return a * 11\n", "contract.py": "from lib.ha import *\n" + V}),
    ("modules of the same file name", None, {"la/__init__.py": "", "la/hb.py": F.format("g(a)").replace("def", "from lb.hb import *\ndef", 1), "lb/__init__.py": "", "lb/hb.py": "def g(a: int) -> int:\n    return a + 7\n", "hb.py": "K = 3\n", "contract.py": "from hb import *\nfrom la.hb import *\n" + V.replace("f(a)", "f(a) + K")}),
    ("packages of packages", None, {"la/__init__.py": "from .lb import *\n", "la/lb/__init__.py": "from .lc import *\nfrom ..ld import *\n" + F.format("g(a) + h(a)"), "la/lb/lc/__init__.py": "def g(a: int) -> int:\n    return a + 7\n", "la/ld.py": "from .lb.lc import *\ndef h(a: int) -> int:\n    return g(a) * 5\n", "contract.py": "from la import *\n" + V}),
    ("module level output", None, {"ha.py": "print('ha')\nK = 4\n" + F.format("a + K"), "hb.py": "from ha import *\nprint('hb')\n", "contract.py": "from hb import *\nfrom ha import *\nprint('main')\n" + V}),
    ("renamed special imports", None, {"ha.py": "from hashlib import sha256 as hsh\n" + F.format("hsh(b'').digest()[a]"), "contract.py": "from ha import *\n" + V}),
    ("imported name is redefined", "module-redefinition", {"ha.py": "def g(a: int) -> int:\n    return 1\n" + F.format("g(a)"), "contract.py": "from ha import *\ndef g(a: int) -> int:\n    return 7\n" + V}),
    ("imported variable is reassigned", "module-redefinition", {"ha.py": "K = 1\n" + F.format("a + K"), "contract.py": "from ha import *\nK = 5\n" + V}),
    ("import again after another definition", "module-reimport", {"ha.py": F.format("1"), "hb.py": "from ha import *\n" + F.format("2"), "contract.py": "from hb import *\nfrom ha import *\n" + V}),
]


def histories(rep):
    """the same module name means another file for every contract, also after failures and edits"""
    import uplc
    from opshin import builder

    d = tempfile.mkdtemp(prefix="vmon_mod_")
    try:
        def put(p, s):
            p = os.path.join(d, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(s)
            return p

        def result(path, a=1):
            code = uplc.unflatten(builder.build(path, config=config("O0")))
            return core.run_uplc(code, [core.to_uplc(core.enc(a))]).value

        main = "from helper import *\nfrom deep.inner import *\n" + V.replace("f(a)", "f(a) + g(a)")
        cs = []
        for j in range(3):
            put(f"c{j}/helper.py", F.format(f"a * 10 + {j}"))
            put(f"c{j}/deep/__init__.py", "")
            put(f"c{j}/deep/inner.py", f"def g(a: int) -> int:\n    return {j * 1000}\n")
            cs.append(put(f"c{j}/contract.py", main))
        for order in ([0, 1, 2], [2, 1, 0], [1, 1, 2]):
            for j in order:
                rep.event("history_builds")
                got = result(cs[j])
                rep.expect(got == ("I", 10 + j + 1000 * j), "a contract was built with the module of another contract", order=order, contract=j, got=repr(got))
        # a failing import leaves nothing behind
        bad = put("c0/bad.py", "from missing_module import *\n" + V)
        path0 = list(sys.path)
        try:
            builder.build(bad)
            rep.expect(False, "a missing module was accepted")
        except Exception:
            rep.expect(sys.path == path0, "a failed compilation changed the module search path", added=[p for p in sys.path if p not in path0])
        put("c1/only_here.py", F.format("0"))
        other = put("c2/other.py", "from only_here import *\n" + V)
        bad = put("c1/bad2.py", "from only_here import *\nfrom missing_module import *\n" + V)
        for p in (bad, other):
            try:
                builder.build(p)
                rep.expect(False, "a module of another contract was found", path=p[len(d):])
            except Exception:
                rep.expect(True, "")
        # an edited module is noticed
        p = cs[1]
        put("c1/helper.py", F.format("a * 10 + 5"))
        got = result(p)
        rep.expect(got == ("I", 1015), "the contract was built from an outdated module", finding="stale-module-cache", got=repr(got))
        with open(p, "a") as f:
            f.write("\n")
        got = result(p)
        rep.expect(got == ("I", 1015), "the edited contract was built from an outdated module", got=repr(got))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(t, rep, tier, seed):
    if t["kind"] == "scenarios":
        for name, finding, files in SCENARIOS:
            with rep.crashes(name):
                observe(rep, files, [(0,), (5,)], ["O0", "O2"], name, finding=finding)
        with rep.crashes("histories"):
            histories(rep)
        return
    for i in range(t["i"], t["i"] + t["per"]):
        rng = rng_for(seed, "modules", i)
        kind = ["random", "records", "random"][i % 3]
        src, fn, args = program(kind, rng)
        sp = split(src, rng)
        if sp is None:
            rep.event("not_splittable")
            continue
        files, layout, nm = sp
        rep.event("programs")
        rep.event("layout_" + layout)
        rep.event("modules", nm)
        observe(rep, files, args, [rng.choice(["O0", "O0", "O1", "O2"])], f"modules seed={seed} i={i} {layout}", must_compile=kind == "records")
