"""Contracts that stand for a type's operations: a prime field (operations are those of F_p), and the
free commutative monoid on one generator (used for exponentiation)."""
from eng import *
import z3

NI = NotImplemented


class FieldContract:
    """Type whose values are elements of F_p.  Every operation below is the postcondition proved (for the
    Goldilocks field: C01-C03) or assumed (BN128, BLS12-381: ff_ce's derive) for the real function."""

    def __init__(self, F, tname, limbs=1, mont=None):
        self.F, self.tname, self.limbs = F, tname, limbs
        F.name = tname
        self.assoc = {"Repr": tname + ".Repr"}
        self.invs = {}

    def const(self, k): return self.F.const(k)

    def assoc_const(self, eng, n):
        if n == "ZERO": return self.F.const(0)
        if n == "ONE": return self.F.const(1)
        return None

    def lift(self, eng, x):
        x = eng.deref(x)
        if isinstance(x, FV): return x
        raise Unsupported(f"field operand {eng.tyof(x)}")

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if not (isinstance(a, FV) and isinstance(b, FV)): return NI
        if op == "+": return a.add(b)
        if op == "-": return a.sub(b)
        if op == "*": return a.mul(b)
        if op == "/": return a.mul(self.inverse(eng, b, unwrap=True))
        if op in ("==", "!="):
            r = self.feq(eng, a, b)
            return r if op == "==" else eng.bnot(r)
        if op in ("<", "<=", ">", ">="):
            return eng.cmp(op, self.asint(eng, a).e, self.asint(eng, b).e)
        return NI

    def unop(self, eng, op, a):
        return a.neg() if op == "-" else NI

    def simp(self, eng, v):
        """substitute facts of the path of the form atom = value"""
        return v

    def feq(self, eng, a, b):
        d = a.sub(b)
        if d.is_const(): return d.cval() == 0
        ia, ib = self.intform(a), self.intform(b)
        if ia is not None and ib is not None:
            return eng.cmp("==", self.asint(eng, a).e, self.asint(eng, b).e)
        if eng.nonzero and eng.nonzero(eng, d): return False
        # monic form
        it = sorted(d.lin().items())
        inv = pow(it[-1][1], self.F.p - 2, self.F.p)
        key = tuple((m, c * inv % self.F.p) for m, c in it)
        for k, t in eng.ffacts:
            if k[0] is self.F and k[1] == key: return t
        return FB(z3.Bool(f"feq_{len(self.keys(key))}_{self.keyid(key)}"), self.F, key, eng)

    _k = {}

    def keys(self, key): return self._k

    def keyid(self, key):
        return self._k.setdefault(key, len(self._k))

    def intform(self, a):
        """a constant or one bare atom"""
        if a.is_const(): return True
        if a.pr is None and len(a.d) == 1:
            (m, c), = a.d.items()
            if len(m) == 1 and c == 1: return True
        return None

    def asint(self, eng, a):
        a = eng.deref(a)
        if a.is_const(): return I("u64", a.cval())
        key = ("asint", self.F.name, a.key())
        if a.pr is None and len(a.d) == 1:
            (m, k), = a.d.items()
            e = getattr(eng, "ints", {}).get((self.F.name, m[0])) if k == 1 and len(m) == 1 else None
            if e is not None: return I("u64", eng.norm(e))
        if key not in eng.splits:
            s = eng.sym("fint", 0, self.F.p - 1)
            eng.splits[key] = s.e
            eng.intofs = getattr(eng, "intofs", {})
            eng.intofs[next(iter(s.e.d))[0]] = a
        return I("u64", eng.splits[key])

    def inverse(self, eng, a, unwrap=False):
        if a.is_const():
            r = self.F.const(pow(a.cval(), self.F.p - 2, self.F.p))
        elif eng.decide(self.feq(eng, a, self.F.const(0))):
            r = self.F.const(0)
        else:
            i = self.F.oatom(("inv", a.key()), a)
            r = FV(self.F, {(i,): 1})
        return r if unwrap else Some(r)

    def fromint(self, eng, v):
        v = eng.deref(v)
        e = eng.norm(v.e)
        if isinstance(e, int): return self.F.const(e)
        # a symbolic integer below p: an atom tied to it
        for k, s in eng.splits.items():
            if k[0] == "asint" and k[1] == self.F.name and s == e:
                return eng.intofs[next(iter(e.d))[0]]
        key = ("ofint", e.key())
        i = self.F.atom(("var", "int") + key)
        fv = FV(self.F, {(i,): 1})
        if not hasattr(eng, "ints"): eng.ints = {}
        eng.ints[(self.F.name, i)] = e
        return fv

    def static(self, eng, n, args):
        if n == "zero" and not args: return self.F.const(0)
        if n == "one" and not args: return self.F.const(1)
        if n == "default" and not args: return self.F.const(0)
        if n == "from":
            x = eng.deref(args[0])
            if isinstance(x, I):
                lo, hi = trange(x.ty) if x.ty else (0, 0)
                # contract of From<u64>: refuses (panics on) values not below the modulus
                if not eng.decide(eng.cmp("<", x.e, self.F.p)): raise Panic("From<u64>: not below the modulus")
                return self.fromint(eng, x)
            if isinstance(x, FV): return x
        if n == "from_repr":
            x = eng.deref(args[0])
            if isinstance(x, Op) and x.f == "repr": return Ok(x.a[0])
        if n in ("add", "sub", "mul", "div"):
            return self.binop(eng, {"add": "+", "sub": "-", "mul": "*", "div": "/"}[n], args[0], args[1])
        if args and isinstance(eng.deref(args[0]), FV):
            r = args[0] if isinstance(args[0], Ref) else Ref(Cell(args[0]))
            return self.method(eng, r, eng.deref(r), n, args[1:])
        if n == "from_str":
            x = eng.deref(args[0])
            if isinstance(x, Str) and x.v.isdigit(): return Some(self.F.const(int(x.v)))
        return NI

    def method(self, eng, ref, v, n, args):
        if not isinstance(v, FV): return NI
        if n in ("add_assign", "sub_assign", "mul_assign"):
            eng.store(ref.c, ref.p, self.binop(eng, {"a": "+", "s": "-", "m": "*"}[n[0]], v, args[0])); return UNIT
        if n == "div_assign":
            eng.store(ref.c, ref.p, self.binop(eng, "/", v, args[0])); return UNIT
        if n == "negate": eng.store(ref.c, ref.p, v.neg()); return UNIT
        if n == "square": eng.store(ref.c, ref.p, v.mul(v)); return UNIT
        if n == "double": eng.store(ref.c, ref.p, v.add(v)); return UNIT
        if n == "inverse": return self.inverse(eng, v)
        if n in ("add", "sub", "mul", "div"): return self.binop(eng, {"add": "+", "sub": "-", "mul": "*", "div": "/"}[n], v, args[0])
        if n == "neg": return v.neg()
        if n == "is_zero": return self.feq(eng, v, self.F.const(0))
        if n in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.binop(eng, {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n], v, args[0])
        if n == "as_int": return self.asint(eng, v)
        if n == "into_repr": return Op("repr", (v,), self.tname + ".Repr")
        if n in ("clone", "to_owned"): return v
        if n == "cmp": return ORD[self.order(eng, v, eng.deref(args[0]))]
        if n == "partial_cmp": return Some(ORD[self.order(eng, v, eng.deref(args[0]))])
        if n in ("exp", "pow"):
            k = eng.deref(args[0])
            if isinstance(k, V): k = k.e[0] if len(k.e) == 1 else None
            if isinstance(k, I):
                e = eng.norm(k.e)
                if isinstance(e, int):
                    r = self.F.const(1)
                    b = v
                    while e:
                        if e & 1: r = r.mul(b)
                        b = b.mul(b); e >>= 1
                    return r
        return NI

    def order(self, eng, a, b):
        if not (isinstance(a, FV) and isinstance(b, FV)): return NI
        return eng.order(self.asint(eng, a), self.asint(eng, b))

    def step(self, eng, v, s): raise Unsupported(f"representation of {self.tname}")
    def upd(self, eng, v, p, x): raise Unsupported(f"representation of {self.tname}")


class FB(B):
    """field equation as a branch condition; the chosen side is recorded as a fact"""

    def __init__(self, z, F, key, eng):
        B.__init__(self, z)
        self.F, self.key, self.eng = F, key, eng


_assume = Engine.assume
_bnot = Engine.bnot


class NFB(FB):
    pass


def bnot(self, b):
    if isinstance(b, NFB): return FB(b.z.arg(0), b.F, b.key, self)
    if isinstance(b, FB): return NFB(z3.Not(b.z), b.F, b.key, self)
    return _bnot(self, b)


def assume(self, b):
    if isinstance(b, FB):
        self.ffacts.append(((b.F, b.key), not isinstance(b, NFB)))
    return _assume(self, b)


Engine.bnot = bnot
Engine.assume = assume


class PowContract:
    """values of type tname are x^e for one fixed x; multiplication adds exponents.  Sound for any
    commutative ring element x, by the ring contracts of the same type."""

    def __init__(self, tname, raw=()):
        self.tname, self.raw = tname, raw

    def assoc_const(self, eng, n):
        if n in ("ONE", "ONES"): return PW(self.tname, 0)
        return None

    def one(self): return PW(self.tname, 0)

    def static(self, eng, n, args):
        if n == "one" and not args: return self.one()
        if args and isinstance(eng.deref(args[0]), PW):
            r = args[0] if isinstance(args[0], Ref) else Ref(Cell(args[0]))
            return self.method(eng, r, eng.deref(r), n, args[1:])
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op == "*" and isinstance(a, PW) and isinstance(b, PW):
            return PW(self.tname, padd(a.e, b.e))
        return NI

    def unop(self, eng, op, a): return NI
    def order(self, eng, a, b): return NI

    def method(self, eng, ref, v, n, args):
        if not isinstance(v, PW): return NI
        if n == "mul_assign": eng.store(ref.c, ref.p, self.binop(eng, "*", v, args[0])); return UNIT
        if n == "square": eng.store(ref.c, ref.p, PW(self.tname, pscale(v.e, 2))); return UNIT
        if n == "mul": return self.binop(eng, "*", v, args[0])
        if n in ("clone",): return v
        return NI

    def step(self, eng, v, s): return Raw(v, (s,))

    def upd(self, eng, v, p, x):
        """storing back words taken from values of this type"""
        p = tuple(p)
        if tuple(s[0] for s in p) != self.raw: raise Unsupported("partial representation update")

        def back(x):
            if isinstance(x, Raw) and x.p == p: return x.v
            if isinstance(x, Ite): return eng.merge(x.s, back(x.a), back(x.b))
            raise Unsupported("representation update")
        return back(x)
