"""Model of the dimod BQM and its exact solver: minimum over all assignments."""
import itertools
from collections import namedtuple

import numpy as np

BINARY = "BINARY"
SPIN = "SPIN"
MODELS = []          # every model built, for monitors


class BinaryQuadraticModel:
    def __init__(self, *args, vartype=None):
        args = list(args)
        if vartype is None:
            vartype = args.pop()
        h = args[0] if args else {}
        J = args[1] if len(args) > 1 else {}
        self.offset = float(args[2]) if len(args) > 2 else 0.0
        if vartype not in (BINARY,):
            raise NotImplementedError("only BINARY models are modelled")
        self.vartype = vartype
        self.linear, self.quadratic, self.variables = {}, {}, []
        items = J.items() if hasattr(J, "items") else [((a[0], a[1]), a[2]) for a in J]
        for v, b in (h.items() if hasattr(h, "items") else enumerate(h)):
            self.add_linear(v, b)
        for (u, v), b in items:
            self.add_quadratic(u, v, b)
        MODELS.append(self)

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        return cls({}, Q, offset, BINARY)

    def _var(self, v):
        if v not in self.linear:
            self.linear[v] = 0.0
            self.variables.append(v)

    def add_linear(self, v, b):
        self._var(v)
        self.linear[v] += float(b)

    def add_quadratic(self, u, v, b):
        if u == v:
            return self.add_linear(u, b)
        self._var(u)
        self._var(v)
        key = (u, v) if (u, v) in self.quadratic or (v, u) not in self.quadratic else (v, u)
        self.quadratic[key] = self.quadratic.get(key, 0.0) + float(b)

    def energy(self, sample):
        return self.offset + sum(b * sample[v] for v, b in self.linear.items()) + \
            sum(b * sample[u] * sample[v] for (u, v), b in self.quadratic.items())

    def energies_all(self):
        n = len(self.variables)
        bits = np.array(list(itertools.product((0, 1), repeat=n)), dtype=np.int8).reshape(-1, n)
        idx = {v: i for i, v in enumerate(self.variables)}
        e = np.full(len(bits), self.offset)
        for v, b in self.linear.items():
            e = e + b * bits[:, idx[v]]
        for (u, v), b in self.quadratic.items():
            e = e + b * bits[:, idx[u]] * bits[:, idx[v]]
        return bits, e

    def descend(self, starts=20):
        """A local minimum of a model too wide to enumerate."""
        n = len(self.variables)
        idx = {v: i for i, v in enumerate(self.variables)}
        h, J = np.zeros(n), np.zeros((n, n))
        for v, b in self.linear.items():
            h[idx[v]] += b
        for (u, v), b in self.quadratic.items():
            J[idx[u], idx[v]] += b
            J[idx[v], idx[u]] += b
        rng = np.random.RandomState(n)
        best = None
        for k in range(starts):
            x = rng.randint(0, 2, n)
            for _ in range(50 * n):
                gain = (1 - 2 * x) * (h + J @ x)
                i = int(np.argmin(gain))
                if gain[i] >= 0:
                    break
                x[i] = 1 - x[i]
            e = self.offset + float(h @ x + x @ J @ x / 2)
            if best is None or e < best[1]:
                best = x, e
        return best[0][None].astype(np.int8), np.array([best[1]])

    @property
    def num_variables(self):
        return len(self.variables)


BQM = BinaryQuadraticModel
_Datum = namedtuple("Sample", ["sample", "energy", "num_occurrences"])


class SampleSet:
    def __init__(self, variables, bits, energies):
        self.variables = list(variables)
        self.record = np.rec.fromarrays([bits, energies, np.ones(len(bits), int)],
                                        dtype=[("sample", np.int8, (bits.shape[1],)), ("energy", float), ("num_occurrences", int)])

    def _order(self, sorted_by="energy"):
        return np.argsort(self.record.energy, kind="stable") if sorted_by else range(len(self.record))

    def samples(self, n=None, sorted_by="energy"):
        for i in list(self._order(sorted_by))[:n]:
            yield dict(zip(self.variables, (int(b) for b in self.record.sample[i])))

    def data(self, fields=None, sorted_by="energy"):
        for i in self._order(sorted_by):
            yield _Datum(dict(zip(self.variables, (int(b) for b in self.record.sample[i]))), float(self.record.energy[i]), 1)

    @property
    def first(self):
        return next(self.data())

    def __iter__(self):
        return self.samples()

    def __len__(self):
        return len(self.record)


class ExactSolver:
    def sample(self, bqm, **kw):
        bits, e = bqm.energies_all()
        return SampleSet(bqm.variables, bits, e)

    def sample_qubo(self, Q):
        return self.sample(BinaryQuadraticModel({}, Q, 0.0, BINARY))


class BestFirst:
    """An ideal sampler: every read is a minimum."""

    def __init__(self, *a, **k):
        pass

    def sample(self, bqm, num_reads=1, **kw):
        bits, e = bqm.energies_all() if bqm.num_variables <= 18 else bqm.descend()
        i = int(np.argmin(e))
        k = int(num_reads or 1)
        return SampleSet(bqm.variables, np.repeat(bits[i:i + 1], k, axis=0), np.repeat(e[i:i + 1], k))

    def sample_qubo(self, Q, **kw):
        return self.sample(BinaryQuadraticModel({}, Q, 0.0, BINARY), **kw)
