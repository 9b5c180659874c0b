"""Python-level definitions of builtins that iterate, instrumented like gpkit's
own code so that their loops are cut in the same way."""
import types
from .instr import instrument

SRC = '''
def any_(it):
    for x in it:
        if x:
            return True
    return False

def all_(it):
    for x in it:
        if not x:
            return False
    return True

def sum_(it, start):
    acc = start
    for x in it:
        acc = acc + x
    return acc

def reduce_(g, it, init):
    acc = init
    for x in it:
        acc = g(acc, x)
    return acc

def dict_fill(d, it):
    for k, v in it:
        d[k] = v

def dictcomp(it):
    d = dict()
    for k, v in it:
        d[k] = v
    return d

def set_fill(s, it):
    for x in it:
        s.add(x)

def setcomp(it):
    s = set()
    for x in it:
        s.add(x)
    return s

def listcomp(it):
    out = mklist_(it)
    for x in it:
        out.append(x)
    return out
'''
_mod = None


def mod():
    global _mod
    if _mod is None:
        from . import lists
        m = types.ModuleType("pyvc_shadow")
        code, _ = instrument(SRC, "<pyvc shadow>", "shadow")
        m.mklist_ = lists.out_list
        exec(code, m.__dict__)   # pylint: disable=exec-used
        _mod = m
    return _mod
