"""Laurent polynomials over interned atoms: the normal form of symbolic reals.

Atoms are interned; kinds:
  z   : an arbitrary Real-sorted z3 term (constant or UF application)
  exp : exp(poly)      (always > 0)
  log : log(poly)      (argument known > 0 when built)
  inv : 1/poly         (argument known != 0 when built; poly has >= 2 terms)
"""
import itertools
from fractions import Fraction
import z3

F0, F1 = Fraction(0), Fraction(1)


class Atom:
    __slots__ = ("kind", "arg", "id", "pos", "nz", "birth", "_z", "name")
    _count = itertools.count()

    def __init__(self, kind, arg, pos=False, nz=False, name=None):
        self.kind, self.arg = kind, arg
        self.id = next(Atom._count)
        self.pos = pos or kind == "exp"
        self.nz = nz or self.pos or kind == "inv"
        self._z = None
        self.name = name

    def __repr__(self):
        if self.kind == "z":
            return str(self.arg)
        return "%s(%s)" % (self.kind, self.arg)

    def __lt__(self, other):
        return self.id < other.id


_interned = {}


def reset_interning():
    _interned.clear()


def z_atom(term, pos=False, nz=False):
    key = ("z", term.get_id())
    a = _interned.get(key)
    if a is None:
        a = _interned[key] = Atom("z", term, pos, nz)
    if pos and not a.pos:
        a.pos = a.nz = True
    if nz and not a.nz:
        a.nz = True
    return a


def _p_atom(kind, poly, **kw):
    key = (kind, poly.key())
    a = _interned.get(key)
    if a is None:
        a = _interned[key] = Atom(kind, poly, **kw)
    return a


def toFrac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(x)   # floats: exact


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, terms):
        self.t = terms
        self._key = None

    # constructors -----------------------------------------------------
    @staticmethod
    def const(c):
        c = toFrac(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a, n=1):
        return Poly({((a, n),): F1})

    @staticmethod
    def z(term, pos=False, nz=False):
        return Poly.atom(z_atom(term, pos, nz))

    # queries ----------------------------------------------------------
    def key(self):
        if self._key is None:
            self._key = frozenset(
                (tuple((a.id, n) for a, n in m), c) for m, c in self.t.items())
        return self._key

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), F0)

    def is_mono(self):
        return len(self.t) == 1

    def __eq__(self, other):
        return isinstance(other, Poly) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def atoms(self, deep=True, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if deep and a.kind != "z":
                        a.arg.atoms(True, acc)
        return acc

    def top_atoms(self):
        return {a for m in self.t for a, _ in m}

    def sign_known_pos(self):
        "True if syntactically positive"
        if not self.t:
            return False
        for m, c in self.t.items():
            if c <= 0:
                return False
            for a, n in m:
                if not a.pos and n % 2:
                    return False
                if not a.nz:
                    return False
        return True

    def known_nz(self):
        if len(self.t) != 1:
            return self.sign_known_pos() or (-self).sign_known_pos()
        (m, _), = self.t.items()
        return all(a.nz for a, _ in m)

    # arithmetic ---------------------------------------------------------
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, F0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = toFrac(c)
        if not c:
            return Poly({})
        return Poly({m: k*c for m, k in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mulmono(m1, m2)
                s = t.get(m, F0) + c1*c2
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        return _clean_inv(Poly(t))

    def inv(self):
        "1/self; caller guarantees self != 0"
        if self.is_mono():
            (m, c), = self.t.items()
            return _clean_inv(Poly({tuple((a, -n) for a, n in m): 1/c}))
        # factor out the content (leading coefficient) for a canonical atom
        lead = self.t[min(self.t, key=_mkey)]
        p = self.scale(1/lead)
        return Poly.atom(_p_atom("inv", p)).scale(1/lead)

    def powi(self, n):
        if n < 0:
            return self.inv().powi(-n)
        out = Poly.const(1)
        base = self
        while n:
            if n & 1:
                out = out*base
            n >>= 1
            if n:
                base = base*base
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: _mkey(kv[0])):
            s = "*".join("%s%s" % (a, "" if n == 1 else "^%d" % n)
                         for a, n in m)
            out.append(("%s" % c) + ("*" + s if s else ""))
        return " + ".join(out)

    # rewriting -----------------------------------------------------------
    def map_atoms(self, f):
        """Rebuild with each atom replaced by the Poly f(atom) (or None to keep)."""
        changed = False
        cache = {}
        for m in self.t:
            for a, _ in m:
                if a not in cache:
                    r = f(a)
                    cache[a] = r
                    if r is not None:
                        changed = True
        if not changed:
            return self
        out = Poly({})
        for m, c in self.t.items():
            term = Poly.const(c)
            for a, n in m:
                r = cache[a]
                if r is None:
                    term = term*Poly.atom(a, n)
                else:
                    if n < 0 and r.is_zero():
                        raise ZeroDivisionError("rewrite to zero under inverse")
                    term = term*r.powi(n)
            out = out + term
        return out

    # division by a monomial-ish polynomial --------------------------------
    def divide(self, d):
        """Quotient q with q*d == self if d is a single monomial or if exact
        division by matching terms works; None otherwise."""
        if d.is_zero():
            return None
        if d.is_mono():
            return self*d.inv()
        if self.is_zero():
            return Poly({})
        # try quotient = ratio of leading terms, repeatedly (exact division)
        rem, quo = self, Poly({})
        dl = min(d.t, key=_mkey)
        for _ in range(12):
            if rem.is_zero():
                return quo
            rl = min(rem.t, key=_mkey)
            q = Poly({_mulmono(rl, tuple((a, -n) for a, n in dl)):
                      rem.t[rl]/d.t[dl]})
            quo = quo + q
            new = rem - q*d
            if len(new.t) > 40:
                return None
            rem = new
        return None


def _mkey(m):
    return tuple((a.id, n) for a, n in m)


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, n in m2:
        k = d.get(a, 0) + n
        if k:
            d[a] = k
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda an: an[0].id))


def _clean_inv(p):
    """Simplify inv-atoms: inv(q)^-n -> q^n; and q*inv(q) with matching."""
    for m in p.t:
        for a, n in m:
            if a.kind == "inv" and n < 0:
                out = Poly({})
                for m2, c in p.t.items():
                    term = Poly.const(c)
                    for b, k in m2:
                        if b.kind == "inv" and k < 0:
                            term = term*b.arg.powi(-k)
                        else:
                            term = Poly({_mulmono(mm, ((b, k),)): cc
                                         for mm, cc in term.t.items()})
                    out = out + term
                return out
    invs = {a for m in p.t for a, n in m if a.kind == "inv"}
    for a in invs:
        # p = R + inv(a)*Q ; if Q divisible by a.arg exactly, cancel
        Q = Poly({})
        R = Poly({})
        for m, c in p.t.items():
            d = dict(m)
            if d.get(a, 0) == 1:
                del d[a]
                Q = Q + Poly({tuple(sorted(d.items(),
                                           key=lambda an: an[0].id)): c})
            elif a in d:
                Q = None
                break
            else:
                R = R + Poly({m: c})
        if Q is None or Q.is_zero():
            continue
        q = _exact_div(Q, a.arg)
        if q is not None:
            return _clean_inv(R + q)
    return p


def _exact_div(P, D):
    rem, quo = P, Poly({})
    dl = min(D.t, key=_mkey)
    for _ in range(8):
        if not rem.t:
            return quo
        rl = None
        for m in sorted(rem.t, key=_mkey):
            rl = m
            break
        qm = _mulmono(rl, tuple((a, -n) for a, n in dl))
        q = Poly({qm: rem.t[rl]/D.t[dl]})
        prod = Poly({})
        for m2, c2 in D.t.items():
            prod = prod + Poly({_mulmono(qm, m2): q.t[qm]*c2})
        new = rem - prod
        if len(new.t) > len(rem.t):
            return None
        quo = quo + q
        rem = new
    return None


# exp / log ---------------------------------------------------------------
def mk_exp(p):
    "exp(p) in normal form: product over the terms of p"
    out = Poly.const(1)
    for m, q in p.t.items():
        num, den = q.numerator, q.denominator
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1:
            if den == 1:
                out = out*m[0][0].arg.powi(num)
                continue
        a = _p_atom("exp", Poly({m: Fraction(1, den)}))
        out = out*Poly.atom(a, num)
    return out


def mk_log(p):
    "log(p) for p known > 0"
    if p.is_mono():
        (m, c), = p.t.items()
        if c > 0 and all(a.pos for a, _ in m):
            out = Poly({})
            if c != 1:
                out = out + Poly.atom(_p_atom("log", Poly.const(c)))
            for a, n in m:
                if a.kind == "exp":
                    out = out + a.arg.scale(n)
                else:
                    out = out + Poly.atom(_p_atom("log", Poly.atom(a))).scale(n)
            return out
    return Poly.atom(_p_atom("log", p))


def reintern(p):
    "Rebuild p on the atoms of the current path (flags are the current ones)"
    out = Poly({})
    for m, c in p.t.items():
        term = Poly.const(c)
        for a, n in m:
            if a.kind == "z":
                b = Poly.atom(z_atom(a.arg))
            elif a.kind == "exp":
                b = mk_exp(reintern(a.arg))
            elif a.kind == "log":
                b = mk_log(reintern(a.arg))
            else:
                b = reintern(a.arg).inv()
            term = term*b.powi(n)
        out = out + term
    return out
