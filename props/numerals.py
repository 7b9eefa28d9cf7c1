"""Numbers written as text: float() reads back what was written."""
import contextlib

import numpy as np


class Numerals:
    """Writes numbers as text. In symbolic runs, float() (in the modules given) looks up
    the numerals written for symbolic values; replays write the values themselves."""

    def __init__(self, S, *modules, exp="e"):
        self.S, self.table, self.exp = S, {}, exp
        if S.symbolic:
            for m in modules:
                S.patch(m, "float", self.read)

    def read(self, t):
        if isinstance(t, str) and t.strip() in self.table:
            return self.table[t.strip()]
        return float(t)

    def __call__(self, x):
        if not self.S.symbolic or isinstance(x, (int, float)):
            return repr(float(x))
        n = len(self.table)
        t = "%s90210.%03d%s" % (("", "-")[n % 2], 100 + n, ("", "e-01", self.exp + "+02")[n % 3])
        self.table[t] = x
        return t

    def format(self):
        """Formatting a symbolic value writes a numeral for it."""
        if self.S.symbolic:
            from symx import core

            for m in ("__str__", "__repr__"):
                self.S.patch(core.SymReal, m, lambda x: self(x))
            self.S.patch(core.SymReal, "__format__", lambda x, spec: self(x))
