from dimod import BestFirst


class SteepestDescentSolver(BestFirst):
    pass
