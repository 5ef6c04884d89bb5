from .dualmode import all_calls
from .methods import methods


def contracts():
    return all_calls("run") + methods("run")
