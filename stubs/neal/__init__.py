from dimod import BestFirst


class SimulatedAnnealingSampler(BestFirst):
    pass
