
class MGF1(object):
    def __init__(self, algorithm=None):
        self.algorithm = algorithm

    def kind(self):
        return ('MGF1', self.algorithm.name)


class OAEP(object):
    def __init__(self, mgf=None, algorithm=None, label=None):
        self.parts = (mgf.kind(), algorithm.name, label)

    def kind(self):
        return ('OAEP',) + self.parts
