"""A cache under an invariant: whatever was stored before (by any history of
calls) satisfies the invariant; whatever the code stores must satisfy it."""
from . import engine as E
from .engine import Unsupported


class InvMap:
    pv_symbolic = True

    def __init__(self, name, inv, make):
        self.name, self.inv, self.make = name, inv, make
        self.known = []          # entries decided on this path
        self.absent = []

    def _same(self, a, b):
        if a is b:
            return True
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return all(x is y for x, y in zip(a, b))
        return False

    def __contains__(self, key):
        for k, _ in self.known:
            if self._same(k, key):
                return True
        for k in self.absent:
            if self._same(k, key):
                return False
        e = E.eng()
        if e.choose(2, "cached?"):
            from .contracts import assume_goal
            self.absent = self.absent
            for g in self.check_key(key):
                return self._bad(key, g)
            val = self.make(key)
            for g in self.inv(key, val):
                assume_goal(e, g)
            self.known.append((key, val))
            return True
        self.absent.append(key)
        return False

    def check_key(self, key):
        return []

    def _bad(self, key, g):
        raise Unsupported("bad cache key")

    def __getitem__(self, key):
        if key not in self:
            raise KeyError(key)
        for k, v in self.known:
            if self._same(k, key):
                return v

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __setitem__(self, key, val):
        from .contracts import check_goal
        e = E.eng()
        for g in self.inv(key, val):
            check_goal(e, g, "cache invariant of %s" % self.name)
        self.absent = [k for k in self.absent if not self._same(k, key)]
        self.known = [(k, v) for k, v in self.known if not self._same(k, key)]
        self.known.append((key, val))

    def setdefault(self, key, val):
        if key in self:
            return self[key]
        self[key] = val
        return val
