class Aer:
    @staticmethod
    def get_backend(name):
        return name
