"""C12: derivatives of the rotor totals."""
from mc import core, grad


class Check(core.Base):
    id = "C12"

    def states(self, tier):
        return grad.rotor_states(tier)

    def examine(self, c):
        return grad.examine(c, ["T", "Y", "Z", "Q", "My", "Mz", "Mb", "P"])
