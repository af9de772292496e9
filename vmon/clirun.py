"""Runs the command line entry point in a forked child: fast, isolated, nothing is shared."""
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from vmon.core import REPO


class Result:
    def __init__(self, rc, out, err, exc):
        self.rc, self.out, self.err, self.exc = rc, out, err, exc

    def brief(self):
        return f"rc={self.rc} exc={self.exc[-400:]!r} out={self.out[-600:]!r} err={self.err[-200:]!r}"


def run(argv, stdin="", cwd=None, timeout=60):
    d = tempfile.mkdtemp(prefix="vmon_cli_")
    try:
        files = {n: os.path.join(d, n) for n in ("out", "err", "exc", "in")}
        with open(files["in"], "w") as f:
            f.write(stdin)
        import opshin.__main__  # loaded once, before the fork

        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(timeout)
                for fd, n, mode in ((0, "in", os.O_RDONLY), (1, "out", os.O_WRONLY | os.O_CREAT), (2, "err", os.O_WRONLY | os.O_CREAT)):
                    os.dup2(os.open(files[n], mode, 0o600), fd)
                sys.stdin = open(0)
                sys.stdout = open(1, "w")
                sys.stderr = open(2, "w")
                import logging

                logging.disable(logging.NOTSET)
                from opshin.util import OPSHIN_LOG_HANDLER

                OPSHIN_LOG_HANDLER.stream = sys.stderr
                sys.argv = ["opshin"] + list(argv)
                if cwd:
                    os.chdir(cwd)
                    sys.path.append(cwd)
                try:
                    opshin.__main__.main()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    code = 1
                    with open(files["exc"], "w") as f:
                        f.write(traceback.format_exc())
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code & 255)
        _, status = os.waitpid(pid, 0)
        rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)

        def read(n):
            try:
                with open(files[n], errors="replace") as f:
                    return f.read()
            except FileNotFoundError:
                return ""

        return Result(rc, read("out"), read("err"), read("exc"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_process(argv, stdin="", cwd=None, timeout=120):
    """the same through a real process"""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "opshin"] + list(argv), input=stdin, capture_output=True, text=True, cwd=cwd, env=env, timeout=timeout)
    return Result(p.returncode, p.stdout, p.stderr, p.stderr if p.returncode else "")
