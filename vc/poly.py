"""Integer polynomials over bounded symbols, and field elements in normal form."""
import random


class Syms:
    """Registry of integer symbols of one verification run: bounds and names."""

    def __init__(self):
        self.lo, self.hi, self.name = [], [], []

    def new(self, name, lo, hi):
        self.lo.append(lo); self.hi.append(hi); self.name.append(name)
        return len(self.lo) - 1


def pnorm(d):
    return {m: c for m, c in d.items() if c}


class Poly:
    """sum of coef * product(symbols); the empty monomial is the constant."""
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    @staticmethod
    def sym(i):
        return Poly({(i,): 1})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d


def pd(e):
    return e.d if isinstance(e, Poly) else ({(): e} if e else {})


def mk(d):
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return Poly(d)


def padd(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    d = dict(pd(a))
    for m, c in pd(b).items():
        v = d.get(m, 0) + k * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return mk(d)


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return mk({m: c * k for m, c in a.d.items()})


def pmul(a, b):
    if isinstance(a, int):
        return pscale(b, a)
    if isinstance(b, int):
        return pscale(a, b)
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            k = tuple(sorted(m + n))
            v = d.get(k, 0) + c * e
            if v:
                d[k] = v
            else:
                d.pop(k, None)
    return mk(d)


def psubst(a, sub):
    """substitute symbols by integers (sub: {id:int})"""
    if isinstance(a, int) or not sub:
        return a
    if not any(s in sub for m in a.d for s in m):
        return a
    d = {}
    for m, c in a.d.items():
        r = []
        for s in m:
            if s in sub:
                c = c * sub[s]
            else:
                r.append(s)
        if c:
            k = tuple(r)
            v = d.get(k, 0) + c
            if v:
                d[k] = v
            else:
                d.pop(k, None)
    return mk(d)


def pvars(a):
    return set() if isinstance(a, int) else {s for m in a.d for s in m}


def peval(a, val):
    if isinstance(a, int):
        return a
    t = 0
    for m, c in a.d.items():
        for s in m:
            c *= val[s]
        t += c
    return t


# ---------------------------------------------------------------- prime fields

class Field:
    """A prime field taken by contract.  Elements are kept in a canonical form:
      expand mode: polynomial over atoms, coefficients mod p (equality of normal forms is equality of
                   polynomials; complete as long as degrees stay below p)
      atom mode:   linear form over atoms; a product of two non-constant forms is one monomial of
                   monic linear forms, and becomes an atom as soon as something is added to it.
    """

    def __init__(self, name, p, mode="expand"):
        self.name, self.p, self.mode = name, p, mode
        self.atoms = []      # description of atom i: ('var', name) | ('prod', ((linkey,exp),...)) | ('inv', FV)
        self.index = {}
        self.obj = {}

    def atom(self, desc):
        i = self.index.get(desc)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(desc)
            self.index[desc] = i
        return i

    def oatom(self, desc, obj):
        i = self.atom(desc)
        self.obj[i] = obj
        return i

    def var(self, name):
        return FV(self, {(self.atom(("var", name)),): 1})

    def const(self, c):
        c %= self.p
        return FV(self, {(): c} if c else {})


class FV:
    """field element: d = {monomial: coef}; monomial = sorted tuple of atom ids.
    In atom mode a value is either linear (all monomials of length <=1) or has pr=(coef, {linkey:exp})."""
    __slots__ = ("F", "d", "pr", "_k")

    def __init__(self, F, d, pr=None):
        self.F, self.d, self.pr, self._k = F, d, pr, None

    def key(self):
        if self._k is None:
            if self.pr is not None:
                self._k = ("P", self.pr[0], self.pr[1])
            else:
                self._k = ("L",) + tuple(sorted(self.d.items()))
        return self._k

    def is_const(self):
        return self.pr is None and (not self.d or (len(self.d) == 1 and () in self.d))

    def cval(self):
        return self.d.get((), 0)

    def lin(self):
        """atom mode: as a linear form"""
        if self.pr is None:
            return self.d
        c, fac = self.pr
        a = self.F.atom(("prod", fac))
        return {(a,): c}

    def add(self, o, k=1):
        p = self.F.p
        d = dict(self.lin())
        for m, c in o.lin().items():
            v = (d.get(m, 0) + k * c) % p
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return FV(self.F, d)

    def sub(self, o):
        return self.add(o, -1)

    def neg(self):
        return self.F.const(0).sub(self)

    def scale(self, k):
        p = self.F.p
        k %= p
        if k == 0:
            return self.F.const(0)
        if self.pr is not None:
            return FV(self.F, None, (self.pr[0] * k % p, self.pr[1]))
        return FV(self.F, {m: c * k % p for m, c in self.d.items()})

    def factors(self):
        """atom mode: (coef, {linkey: exp})"""
        if self.pr is not None:
            return self.pr[0], dict(self.pr[1])
        # monic: a product atom alone goes back to its factors
        p = self.F.p
        it = sorted(self.d.items())
        if len(it) == 1 and it[0][0] != ():
            desc = self.F.atoms[it[0][0][0]]
            if desc[0] == "prod":
                return it[0][1], dict(desc[1])
        lead = it[-1][1]
        inv = pow(lead, p - 2, p)
        key = tuple((m, c * inv % p) for m, c in it)
        return lead, {key: 1}

    def mul(self, o):
        F, p = self.F, self.F.p
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if F.mode == "atom":
            c1, f1 = self.factors()
            c2, f2 = o.factors()
            for k, e in f2.items():
                f1[k] = f1.get(k, 0) + e
            return FV(F, None, (c1 * c2 % p, tuple(sorted(f1.items()))))
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n))
                v = (d.get(k, 0) + c * e) % p
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return FV(F, d)

    def eval(self, val, cache=None):
        """val: {atom id: int} for vars; product and inverse atoms are computed"""
        p = self.F.p
        cache = val if cache is None else cache

        def av(i):
            if i in cache:
                return cache[i]
            desc = self.F.atoms[i]
            if desc[0] == "prod":
                r = 1
                for lk, e in desc[1]:
                    r = r * pow(lv(lk), e, p) % p
            elif desc[0] == "inv":
                r = pow(self.F.obj[i].eval(val, cache), p - 2, p)
            else:
                r = random.randrange(p)
            cache[i] = r
            return r

        def lv(it):
            t = 0
            for m, c in it:
                for s in m:
                    c = c * av(s) % p
                t += c
            return t % p
        if self.pr is not None:
            r = self.pr[0]
            for lk, e in self.pr[1]:
                r = r * pow(lv(lk), e, p) % p
            return r
        return lv(self.d.items())

    def __repr__(self):
        if self.is_const():
            return f"{self.F.name}({self.cval()})"
        n = len(self.d) if self.pr is None else 1
        return f"{self.F.name}<{n} terms>"
