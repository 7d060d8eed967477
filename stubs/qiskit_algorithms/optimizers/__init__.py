class COBYLA:
    def __init__(self, *a, **k):
        pass


class SPSA:
    def __init__(self, *a, **k):
        pass
