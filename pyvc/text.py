"""Texts built by the code under contract: sequences of pieces.

A piece is a literal or an atom (a term of the datatype Txt); concatenation,
`%`, f-strings and join keep the sequence of pieces.  Two texts are taken to be
equal exactly when their sequences of pieces are (the assumption "texts are
uniquely readable" of DESIGN.md: no name contains the text of an index)."""
import re
import z3
from . import engine as E
from .engine import Unsupported
from .values import SBool
from .zv import T, ZI, INT

_d = z3.Datatype("Txt")
_d.declare("nil")
_d.declare("lit", ("litid", INT))
_d.declare("leaf", ("leafid", INT))
_d.declare("strof", ("obj", INT))       # str() of an object
_d.declare("reprof", ("robj", INT))
_d.declare("num", ("value", INT))
_d.declare("join", ("front", _d), ("back", _d))
TX = _d.create()
HashOf = z3.Function("hash_of_text", TX, INT)
HashCat = z3.Function("hash_of_tuple", INT, INT, INT)
HashObj = z3.Function("hash_of_object", INT, INT)
_lits = {}


def lit(s):
    return TX.lit(z3.IntVal(_lits.setdefault(s, len(_lits))))


class ZTxt:
    pv_symbolic = True
    pv_z = True

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @property
    def t(self):
        r = None
        for p in reversed(self.parts):
            q = lit(p) if isinstance(p, str) else p
            r = q if r is None else TX.join(q, r)
        return TX.nil if r is None else r

    def __add__(self, o):
        ps = pieces(o)
        return NotImplemented if ps is None else ZTxt(*self.parts, *ps)

    def __radd__(self, o):
        ps = pieces(o)
        return NotImplemented if ps is None else ZTxt(*ps, *self.parts)

    def __eq__(self, o):
        ps = pieces(o)
        if ps is None:
            return False
        c = z3.simplify(self.t == ZTxt(*ps).t)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return SBool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.c)) if isinstance(r, SBool) else not r

    def __hash__(self):
        raise Unsupported("native hash of a symbolic text")

    def pv_hash(self):
        return ZI(HashOf(self.t))

    def __bool__(self):
        # atoms stand for non-empty texts
        return bool(self.parts)

    def pv_str(self, how=str):
        if how is not str:
            raise Unsupported("repr of a symbolic text")
        return self

    def pv_isinstance(self, cls):
        return issubclass(str, cls)

    def __repr__(self):
        return "<text %s>" % (self.parts,)
    __str__ = __repr__

    def __getattr__(self, name):
        if not name.startswith("__") and hasattr(str, name):
            raise Unsupported("str.%s of a symbolic text" % name)
        raise AttributeError(name)

    def __format__(self, spec):
        raise Unsupported("native formatting of a symbolic text")


ZI.pv_str = lambda self, how=str: ZTxt(TX.num(self.t))


def pieces(o):
    if type(o) is ZTxt:
        return o.parts
    if isinstance(o, str):
        return (o,)
    return None


def text_of(x, how=str):
    m = getattr(type(x), "pv_str", None)
    if m is not None:
        return m(x, how)
    return how(x)


def mentions(args):
    return any(hasattr(type(a), "pv_str") for a in args)


def percent(s, args):
    "s % args with symbolic texts among args"
    args = args if isinstance(args, tuple) else (args,)
    out, rest = [], list(args)
    for p in re.split(r"(%.)", s):
        if p == "%%":
            out.append("%")
        elif p[:1] == "%" and len(p) == 2:
            if not rest:
                raise TypeError("not enough arguments for format string")
            a = rest.pop(0)
            if mentions([a]):
                if p in ("%i", "%d") and type(a) is ZI:
                    p = "%s"
                if p not in ("%s", "%r"):
                    raise Unsupported("format %s of a symbolic text" % p)
                out += pieces(text_of(a, repr if p == "%r" else str))
            else:
                out.append(p % (a,))
        else:
            out.append(p)
    if rest:
        raise TypeError("not all arguments converted")
    return ZTxt(*out)


def fstring(parts):
    "an f-string: literals and (value, conversion, format spec)"
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if mentions([v]):
            if spec or conv == 97:
                raise Unsupported("formatting of a symbolic text")
            out += pieces(text_of(v, repr if conv == 114 else str))
        else:
            v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
            out.append(format(v, spec))
    if any(not isinstance(p, str) for p in out):
        return ZTxt(*out)
    return "".join(out)


def joined(sep, it):
    m = getattr(type(it), "pv_join", None)
    if m is not None:
        return m(it, sep)
    it = list(it)
    if not mentions(it):
        return sep.join(it)
    out = []
    for i, x in enumerate(it):
        ps = pieces(x)
        if ps is None:
            raise TypeError("sequence item %d: expected str" % i)
        out += ([sep] if i else []) + list(ps)
    return ZTxt(*out)


class ZThing:
    "an opaque value with identity `i` (a tuple, a function, ...): str, hash, =="
    pv_symbolic = True
    pv_z = True

    def __init__(self, i, isa=object, true=True, called=False, key=None):
        self.i, self.isa, self.true, self.key = i, isa, true, key

    def __eq__(self, o):
        if type(o) is not type(self):
            return False
        c = z3.simplify(self.i == o.i)
        return z3.is_true(c) if z3.is_true(c) or z3.is_false(c) else SBool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.c)) if isinstance(r, SBool) else not r

    def __hash__(self):
        raise Unsupported("native hash of an opaque value")

    def pv_hash(self):
        return ZI(HashObj(self.i))

    def __bool__(self):
        return self.true

    def pv_str(self, how=str):
        return ZTxt((TX.strof if how is str else TX.reprof)(self.i))

    def pv_isinstance(self, cls):
        return issubclass(self.isa, cls)

    def pv_map(self, g):
        if g is str:
            return Strs(self)
        raise Unsupported("map over an opaque value")

    def __repr__(self):
        return "<thing %s>" % self.i


class Strs:
    "map(str, thing)"
    pv_symbolic = True

    def __init__(self, th):
        self.th = th

    def pv_join(self, sep):
        return ZTxt(TX.leaf(JoinOf(self.th.i, lit(sep))))


class ZFun(ZThing):
    "an opaque function"
    def __call__(self, *a, **kw):
        raise Unsupported("call of an opaque function")


JoinOf = z3.Function("joined_text", INT, TX, INT)


def hash_of(x):
    m = getattr(type(x), "pv_hash", None)
    if m is not None:
        return m(x)
    if type(x) is tuple and any(hasattr(type(y), "pv_hash") for y in x):
        r = z3.IntVal(len(x))
        for y in x:
            h = hash_of(y)
            r = HashCat(r, h.t if isinstance(h, ZI) else z3.IntVal(h))
        return ZI(r)
    return hash(x)


class Bag:
    "a set of finitely many values, some of them symbolic texts"
    pv_symbolic = True
    __hash__ = None

    def __init__(self, items=()):
        self.items = []
        self.update(items)

    def add(self, x):
        if not any(y is x for y in self.items):
            self.items.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __or__(self, o):
        return Bag(self.items + list(o))

    def __iter__(self):
        return iter(self.items)

    def holds(self, x):
        return any(y is x or (type(y) is type(x) and bool(y == x))
                   for y in self.items)
