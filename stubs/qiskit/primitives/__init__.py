class BackendSampler:
    def __init__(self, *a, **k):
        pass


class Sampler:
    def __init__(self, *a, **k):
        pass
