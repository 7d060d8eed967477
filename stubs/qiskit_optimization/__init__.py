"""Model of the parts of qiskit_optimization used: binary quadratic programs, exactly minimised."""
import itertools

import numpy as np

PROGRAMS = []        # every program built, for monitors


class QuadraticProgram:
    def __init__(self, name=""):
        self.names, self.terms, self.constant = [], {}, 0.0
        PROGRAMS.append(self)

    def binary_var(self, name=None):
        if name in self.names:
            raise Exception("Variable name already exists: %s" % name)
        self.names.append(name)

    def minimize(self, constant=0.0, linear=None, quadratic=None):
        self.constant, self.terms = float(constant), {}
        for k, c in (linear or {}).items():
            self._add((k, k), c)
        for k, c in (quadratic or {}).items():
            self._add(k, c)

    def _add(self, key, c):
        key = tuple(self.names[v] if isinstance(v, (int, np.integer)) else v for v in key)
        for v in key:
            if v not in self.names:
                raise KeyError(v)
        self.terms[key] = self.terms.get(key, 0.0) + float(c)

    def energies_all(self):
        bits = np.array(list(itertools.product((0, 1), repeat=len(self.names)))).reshape(-1, len(self.names))
        e = np.full(len(bits), self.constant)
        for (a, b), c in self.terms.items():
            e = e + c * bits[:, self.names.index(a)] * bits[:, self.names.index(b)]
        return bits, e
