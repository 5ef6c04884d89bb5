"""The mode of a call without a flag: the function's own default, else (methods) the object's mode, else the kind of function.

Classes are defined by source in the caller's module and go through ASyncMeta.__new__ of /repo; what the user chooses (the constructor
flag's value, the class default, the function behaviour, the arguments) is symbolic."""
from .common import *
from .dualmode import FUNCS, FunctionCall
from .methods import CLASSES, METHODS, MethodCall



class NoFlagFunction(FunctionCall):
    """functions: default, else kind"""

    def __init__(self, is_coro, default, style):
        super().__init__("mode", is_coro, default, style)
        self.must_cover = ["no flag", "sync call" if (default == "sync" or default is None and not is_coro) else "async call"]

    def run(self, run):
        import contracts.dualmode as d

        old = d.pick_flags
        d.pick_flags = lambda r, k: []
        try:
            super().run(run)
        finally:
            d.pick_flags = old


def contracts():
    out = []
    for is_coro in (True, False):
        for default in (None, "sync", "async"):
            for style in ((0, 1, 2) if default else (0, 1)):
                out.append(NoFlagFunction(is_coro, default, style))
        for how in CLASSES:
            for deco in METHODS:
                out.append(MethodCall("default", how, deco, is_coro))
    return out
