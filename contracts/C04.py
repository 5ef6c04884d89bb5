from .dualmode import all_calls
from .methods import methods


def contracts():
    return [c for c in all_calls("loop") + methods("loop") if c.is_coro]
