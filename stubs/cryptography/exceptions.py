
class InvalidSignature(Exception):
    pass


class UnsupportedAlgorithm(Exception):
    pass
