class NumPyMinimumEigensolver:
    def __init__(self, *a, **k):
        pass


class QAOA:
    def __init__(self, *a, **k):
        pass
