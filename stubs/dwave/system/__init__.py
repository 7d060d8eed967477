from dimod import BestFirst


class DWaveSampler(BestFirst):
    pass


class LeapHybridSampler(BestFirst):
    pass


class EmbeddingComposite:
    def __init__(self, child=None, **kw):
        self.child = child

    def sample(self, *a, **k):
        return self.child.sample(*a, **{x: y for x, y in k.items() if x == "num_reads"})
