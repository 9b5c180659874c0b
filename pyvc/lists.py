"Lists filled in cut loops."
from . import engine as E
from .engine import Unsupported


class OutList(list):
    "the list under construction by a comprehension over a symbolic collection"
    def __init__(self, gen):
        list.__init__(self)
        self._pv_eng = E.ENG
        self._pv_serial = E.ENG.register(self)
        self.gen = gen
        self.cut = None

    def append(self, x):
        E.eng().on_mutate(self, "append")
        list.append(self, x)

    def pv_havoc(self, loopiter, final):
        list.clear(self)
        self.cut = loopiter
        self.final = final


def out_list(gen):
    from . import rt
    if E.ENG is None or rt.as_source(gen) is None:
        return []
    return OutList(gen)
