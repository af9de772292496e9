"""Runs in its own process with the plain opshin API: compiles a batch of programs in the given
order and prints one digest per program.  stdin: JSON {"order", "repeat", "programs": [...]}."""
import hashlib
import json
import os
import sys

REPO = os.environ.get("VMON_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.setrecursionlimit(8000)
import io
import logging
from contextlib import redirect_stdout

logging.disable(logging.CRITICAL)


def digest(p):
    import uplc
    from opshin import builder, compiler
    from opshin.compiler_config import OPT_CONFIGS, DEFAULT_CONFIG, CompilationConfig

    cfg = DEFAULT_CONFIG.update(OPT_CONFIGS[int(p["level"])]).update(CompilationConfig(**p["cfg"]))
    try:
        with redirect_stdout(io.StringIO()):
            if p.get("via") == "static":
                code = builder._static_compile(p["source"], contract_file=p["file"], config=cfg)
            elif p.get("via") == "build":
                return hashlib.sha256(bytes(builder.build(p["file"], config=cfg))).hexdigest()
            else:
                code = builder.compile(compiler.parse(p["source"], filename=p["file"]), contract_filename=p["file"], config=cfg)
            return hashlib.sha256(uplc.flatten(code)).hexdigest()
    except Exception as e:
        return "ERR " + type(getattr(e, "orig_err", None) or e).__name__


def main():
    job = json.load(sys.stdin)
    out = {}
    for i in job["order"]:
        out.setdefault(str(i), []).append(digest(job["programs"][i]))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
