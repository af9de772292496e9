"""Random opshin types: record declarations, annotations and values for them."""
from vmon.typed import rand_typed

HEADER = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
"""


class TyGen:
    def __init__(self, rng, nrec=3, anything=False, bools=True, strs=False, prefix="R"):
        self.rng = rng
        self.bools = bools
        self.strs = strs
        self.anything = anything
        self.recs = []  # (name, constr, [(field, type)])
        self.decl = []
        ids = rng.sample([0, 1, 2, 3, 5, 6, 7, 8, 10, 100, 127, 128, 129, 500], nrec)
        for i in range(nrec):
            name = f"{prefix}{i}"
            fields = [(rng.choice(["a", "b", "x", "y", "val", "z9"]) + str(j), self.ty(2, field=True)) for j in range(rng.choice([0, 1, 1, 2, 3, 4]))]
            if i == 0 and not fields:
                fields = [("a0", "int")]
            self.recs.append((name, ids[i], fields))
            self.decl.append(
                "@dataclass()\nclass %s(PlutusData):\n    CONSTR_ID = %d\n%s"
                % (name, ids[i], "".join(f"    {f}: {t}\n" for f, t in fields))
            )

    def atom(self, field=False, key=False):
        c = ["int", "int", "bytes", "bytes"]
        if self.bools:
            c.append("bool")
        if self.strs and not field:
            c.append("str")
        return self.rng.choice(c)

    def ty(self, depth=2, field=False, union=True):
        r = self.rng.random()
        if depth <= 0 or r < 0.25:
            if self.recs and self.rng.random() < 0.3:
                return self.rng.choice(self.recs)[0]
            return self.atom(field)
        if r < 0.45:
            return f"List[{self.ty(depth - 1, field)}]"
        if r < 0.6:
            return f"Dict[{self.rng.choice(['int', 'bytes', 'int'] + (['str'] if self.strs and not field else []))}, {self.ty(depth - 1, field)}]"
        if r < 0.8 and self.recs:
            return self.rng.choice(self.recs)[0]
        if union and r < 0.97:
            return self.union()
        if self.anything:
            return "Anything"
        return self.atom(field)

    def union(self):
        opts = ["int", "bytes", "List[Anything]", "Dict[Anything, Anything]"] + 2 * [r[0] for r in self.recs]
        if not self.anything:
            opts = [o for o in opts if "Anything" not in o]
        n = self.rng.choice([2, 2, 2, 3, 3, 4, 5, 7])
        picks = []
        while len(picks) < n and len(set(opts)) > len(picks):
            o = self.rng.choice(opts)
            if o not in picks:
                picks.append(o)
        return "Union[" + ", ".join(picks) + "]" if len(picks) > 1 else picks[0]

    def source(self):
        return HEADER + "".join(self.decl)


def hints(mod, annotation):
    return eval(annotation, mod.__dict__)


def value(rng, mod, annotation, depth=3):
    import typing

    tp = eval(annotation, mod.__dict__)
    return rand_typed(rng, tp, depth)
