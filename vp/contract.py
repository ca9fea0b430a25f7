"""Base class of the contracts."""


class Contract:
    def __init__(self, name):
        self.name = name
        self.unrefuted_info = []

    def invariants(self, ex, st, mod, idx):
        return []

    def bounds(self, ex, st):
        return []
