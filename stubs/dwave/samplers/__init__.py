from neal import SimulatedAnnealingSampler
from greedy import SteepestDescentSolver
