"""C13: derivatives of the rotor coefficients."""
from mc import core, grad


class Check(core.Base):
    id = "C13"

    def states(self, tier):
        return grad.rotor_states(tier)

    def examine(self, c):
        return grad.examine(c, ["CT", "CY", "CZ", "CQ", "CMy", "CMz", "CMb", "CP"])
