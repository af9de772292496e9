"""What a check observed. One Report per task, merged by the runner."""
import collections
import contextlib
import hashlib
import os
import traceback


class Report:
    def __init__(self):
        self.counters = collections.Counter()
        self.sigs = set()
        self.violations = []
        self.findings = {}
        self.samples = []
        self.errors = []

    def event(self, kind, n=1):
        self.counters[kind] += n

    def sig(self, *parts):
        """record one distinct observation"""
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def violation(self, what, finding=None, **detail):
        if finding is not None:
            self.findings.setdefault(finding, []).append({"what": what, **detail})
        else:
            self.violations.append({"what": what, **detail})

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def expect(self, cond, what, finding=None, **detail):
        self.event("evaluations")
        if not cond:
            self.violation(what, finding=finding, **detail)
        return cond

    @contextlib.contextmanager
    def crashes(self, label, **detail):
        """an exception that escapes from the code under test is a violation, one of our own an error"""
        from vmon.core import REPO, TimeLimit

        try:
            yield
        except (TimeLimit, MemoryError):
            raise
        except Exception as e:
            frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
            if any(os.path.realpath(f).startswith(os.path.realpath(REPO) + "/opshin/") for f in frames):
                self.violation("unexpected exception", label=label, error=traceback.format_exc()[-1500:], **detail)
            else:
                raise

    def merge(self, o):
        self.counters.update(o.counters)
        self.sigs |= o.sigs
        self.violations += o.violations
        for k, v in o.findings.items():
            self.findings.setdefault(k, []).extend(v)
        if len(self.samples) < 8:
            self.samples += o.samples[: 8 - len(self.samples)]
        self.errors += o.errors[:5]
