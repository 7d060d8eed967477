import numpy as np


class Result:
    def __init__(self, x, fval):
        self.x, self.fval = x, fval


class MinimumEigenOptimizer:
    """An ideal solver: the exact minimum, in the order the variables were declared."""

    def __init__(self, solver=None, *a, **k):
        pass

    def solve(self, problem):
        bits, e = problem.energies_all()
        i = int(np.argmin(e))
        return Result(bits[i].astype(float), float(e[i]))
