"""Contracts of the curve scalar fields (derived by ff_ce, outside /repo), of big integers (num-bigint) and of the
Poseidon modules as uninterpreted functions (their meaning is C10/C11)."""
from eng import *
import seq
from contracts import FieldContract
import z3

NI = NotImplemented
CURVE = {"bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
         "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513}
BIG = "num_bigint::BigUint"


def big(e): return St(BIG, {"v": I(None, e)})


class CurveField(FieldContract):
    """Fr of a curve.  Values: FV (an element), or St Fr{0: FrRepr} built from raw Montgomery limbs that may be out
    of range (only multiplication, into_raw_repr and comparison of equal limbs are meaningful on those)."""

    def __init__(self, F, tname):
        FieldContract.__init__(self, F, tname)
        self.rep = tname + "Repr"
        self.assoc = {"Repr": self.rep}
        self.R = pow(2, 256, F.p)
        self.Ri = pow(self.R, F.p - 2, F.p)

    def ofint(self, eng, e):
        """element of an integer expression"""
        e = eng.norm(e)
        if not isinstance(e, int) and len(e.d) == 1:
            (m, c), = e.d.items()
            x = getattr(eng, "intofs", {}).get(m[0]) if c == 1 and len(m) == 1 else None
            if x is not None and x.F is self.F: return x
        if isinstance(e, int): return self.F.const(e)
        d = {}
        for m, c in e.d.items():
            if m == (): d[()] = c % self.F.p
            else: d[(self.F.atom(("ofint", m)),)] = c % self.F.p
        return FV(self.F, {k: v for k, v in d.items() if v})

    def fromint(self, eng, v): return self.ofint(eng, eng.deref(v).e)

    def value(self, eng, rep):
        """integer value of a representation"""
        rep = eng.deref(rep)
        if isinstance(rep, St):
            e = 0
            for i, l in enumerate(rep.f["0"].e): e = padd(e, pscale(l.e, 1 << (64 * i)))
            return e
        raise Unsupported("value of an opaque representation")

    def construct(self, eng, args):
        r = eng.deref(args[0])
        if isinstance(r, Op) and r.f == "raw": return r.a[0]
        if isinstance(r, St) and all(isinstance(l, I) and eng.norm(l.e) == 0 for l in r.f["0"].e): return self.F.const(0)
        if isinstance(r, St) and all(isinstance(l, Op) and l.f == "limb" and l.a[1].e == i and l.a[0].key() == r.f["0"].e[0].a[0].key() for i, l in enumerate(r.f["0"].e)):
            return r.f["0"].e[0].a[0]
        return St(self.tname, {"0": r})

    def lift(self, eng, x, mul=False):
        x = eng.deref(x)
        if isinstance(x, FV): return x
        if isinstance(x, St):
            X = self.value(eng, x.f["0"])
            if mul or eng.decide(eng.cmp("<", X, self.F.p)): return self.ofint(eng, X).scale(self.Ri)
            raise Unsupported("arithmetic on an out-of-range element")
        raise Unsupported(f"field operand {eng.tyof(x)}")

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if isinstance(a, St) or isinstance(b, St):
            if op in ("==", "!=") and isinstance(a, St) and isinstance(b, St):
                r = eng.eqall(zip(eng.deref(a.f["0"]).f["0"].e, eng.deref(b.f["0"]).f["0"].e))
                return r if op == "==" else eng.bnot(r)
            a, b = self.lift(eng, a, op == "*"), self.lift(eng, b, op == "*")
        return FieldContract.binop(self, eng, op, a, b)

    def from_repr(self, eng, x):
        x = eng.deref(x)
        if isinstance(x, Op) and x.f == "repr": return Ok(x.a[0])
        if isinstance(x, Op) and x.f == "raw": return Ok(x.a[0].scale(self.R))
        X = self.value(eng, x)
        if eng.decide(eng.cmp("<", X, self.F.p)): return Ok(self.ofint(eng, X))
        return Err(Str("not in field"))

    def static(self, eng, n, args):
        if n == "from_repr": return self.from_repr(eng, args[0])
        if n == "from_raw_repr":
            x = eng.deref(args[0])
            if isinstance(x, Op) and x.f == "raw": return Ok(x.a[0])
            if isinstance(x, St):
                X = self.value(eng, x)
                if eng.decide(eng.cmp("<", X, self.F.p)): return Ok(self.construct(eng, [x]))
                return Err(Str("not in field"))
        if n == "char": return St(self.rep, {"0": V([I("u64", self.F.p >> (64 * i) & 2**64 - 1) for i in range(4)])})
        if n == "from_str":
            x = eng.deref(args[0])
            if isinstance(x, Op) and x.f == "dec": return Some(self.ofint(eng, x.a[0].e))
        return FieldContract.static(self, eng, n, args)

    def method(self, eng, ref, v, n, args):
        if isinstance(v, St):
            if n in ("into_raw_repr",): return v.f["0"]
            if n in ("clone",): return v
            if n == "mul_assign":
                eng.store(ref.c, ref.p, self.lift(eng, v, True).mul(self.lift(eng, args[0], True))); return UNIT
            if n in ("eq", "ne"): return self.binop(eng, "==" if n == "eq" else "!=", v, args[0])
            v = self.lift(eng, v)
        if n == "into_raw_repr": return Op("raw", (v,), self.rep)
        if n == "into_repr": return Op("repr", (v,), self.rep)
        if n in ("add_assign", "sub_assign", "mul_assign"):
            eng.store(ref.c, ref.p, self.binop(eng, {"a": "+", "s": "-", "m": "*"}[n[0]], v, args[0])); return UNIT
        return FieldContract.method(self, eng, ref, v, n, args)

    def upd(self, eng, v, p, x):
        if isinstance(v, St):
            d = dict(v.f); d["0"] = eng.upd(v.f["0"], p[1:], x)
            return St(v.n, d)
        raise Unsupported("representation update")

    def step(self, eng, v, s):
        if isinstance(v, St): return v.f[s[1]]
        if s == ("f", "0"): return Op("raw", (v,), self.rep)
        raise Unsupported("representation of a scalar")


class CurveRepr:
    """FrRepr of a curve: four little-endian 64-bit limbs"""
    assoc = {}

    def __init__(self, cf): self.cf, self.tname = cf, cf.rep
    def assoc_const(self, eng, n): return None
    def zero(self): return St(self.tname, {"0": V([I("u64", 0)] * 4)})

    def static(self, eng, n, args):
        if n == "default": return self.zero()
        if n == "from":
            v = eng.deref(args[0])
            if isinstance(v, I): return St(self.tname, {"0": V([I("u64", v.e)] + [I("u64", 0)] * 3)})
            if isinstance(v, Op) and v.f == "limb": raise Unsupported("opaque limb")
        return NI

    def construct(self, eng, args): return St(self.tname, {"0": eng.deref(args[0])})

    def limbs(self, eng, v):
        if isinstance(v, St): return v
        if isinstance(v, Op) and v.f == "raw": return St(self.tname, {"0": V([Op("limb", (v.a[0], I("usize", i)), "u64") for i in range(4)])})
        if isinstance(v, Op) and v.f == "repr":
            # the four limbs of the integer value
            x = self.cf.asint(eng, v.a[0]).e
            return St(self.tname, {"0": V(split_limbs(eng, x))})
        return None

    def method(self, eng, ref, v, n, args):
        if n in ("as_ref", "as_mut"):
            w = self.limbs(eng, v)
            if n == "as_mut" and w is v: return Ref(ref.c, ref.p + (("f", "0"),))
            return Ref(Cell(w.f["0"]))
        if n == "clone": return v
        if n in ("read_le", "read_be"):
            b = eng.deref(args[0]).e
            if n == "read_be": b = b[:32][::-1]
            if len(b) < 32: return Err(Str("eof"))
            out = []
            for i in range(4):
                e = 0
                for j in range(8): e = padd(e, pscale(b[8 * i + j].e, 1 << (8 * j)))
                out.append(I("u64", e))
            eng.store(ref.c, ref.p, St(self.tname, {"0": V(out, "u64")}))
            return Ok(UNIT)
        if n in ("write_be", "write_le"):
            w = self.limbs(eng, v)
            bs = []
            for l in w.f["0"].e:
                e = eng.norm(l.e)
                for _ in range(8):
                    lo, e = eng.split(e, 8); bs.append(I("u8", lo))
            t = args[0]; c, p = eng.through((t.c, t.p))
            x = eng.load(c, p)
            eng.store(c, p, V(x.e + (bs if n == "write_le" else bs[::-1]), "u8"))
            return Ok(UNIT)
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return eng.cmp(op, self.cf.value(eng, self.limbs(eng, a)), self.cf.value(eng, self.limbs(eng, b)))
        return NI

    def unop(self, eng, op, a): return NI
    def order(self, eng, a, b): return NI
    def step(self, eng, v, s): return self.limbs(eng, v).f[s[1]]

    def upd(self, eng, v, p, x):
        w = self.limbs(eng, v)
        d = dict(w.f); d["0"] = eng.upd(w.f["0"], p[1:], x)
        return St(w.n, d)


def split_limbs(eng, x):
    out = []
    for _ in range(3):
        lo, x = eng.split(x, 64); out.append(I("u64", lo))
    return out + [I("u64", x)]


class Big:
    """num_bigint::BigUint: a non-negative integer"""
    assoc = {}
    tname = BIG

    def assoc_const(self, eng, n): return None

    def static(self, eng, n, args):
        if n in ("from", "from_u64"):
            v = eng.deref(args[0])
            if isinstance(v, I): return big(v.e)
        if n in ("zero", "one") and not args: return big(int(n == "one"))
        if n == "default": return big(0)
        if n in ("from_bytes_be", "from_bytes_le"):
            bs = eng.deref(args[0]).e
            if n == "from_bytes_be": bs = bs[::-1]
            e = 0
            for i, b in enumerate(bs): e = padd(e, pscale(b.e, 1 << (8 * i)))
            return big(e)
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        x = a.f["v"].e if isinstance(a, St) and a.n == BIG else a.e if isinstance(a, I) else None
        y = b.f["v"].e if isinstance(b, St) and b.n == BIG else b.e if isinstance(b, I) else None
        if x is None or y is None: return NI
        if op in ("==", "!=", "<", "<=", ">", ">="): return eng.cmp(op, x, y)
        x, y = eng.norm(x), eng.norm(y)
        if op in ("<<", ">>"):
            k = eng.conc(I(None, y), "shift amount")
            return big(pscale(x, 1 << k) if op == "<<" else eng.split(x, k)[1])
        if op == "&":
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int) and isinstance(x, int): return big(x & y)
            if isinstance(y, int) and y & (y + 1) == 0: return big(eng.split(x, y.bit_length())[0])
            raise Unsupported("& on big integers")
        if op == "+": return big(padd(x, y))
        if op == "*": return big(pmul(x, y))
        if op == "-":
            if not eng.decide(eng.cmp(">=", x, y)): raise Panic("BigUint underflow")
            return big(psub(x, y))
        if op in ("%", "/"):
            y = eng.conc(I(None, y), "divisor")
            if y == 0: raise Panic("division by zero")
            if isinstance(x, int): return big(x % y if op == "%" else x // y)
            l, h = eng.divc(x, y)
            return big(l if op == "%" else h)
        return NI

    def unop(self, eng, op, a): return NI

    def order(self, eng, a, b): return eng.order(a.f["v"], b.f["v"])

    def method(self, eng, ref, v, n, args):
        if n in ("clone", "to_owned"): return v
        e = eng.norm(v.f["v"].e)
        if n in ("to_u64", "to_usize", "to_u32", "to_u128"):
            t = n[3:]
            if eng.decide(eng.cmp("<=", e, trange(t)[1])): return Some(I(t, e))
            return NONE
        if n == "is_zero": return eng.cmp("==", e, 0)
        if n == "is_one": return eng.cmp("==", e, 1)
        if n == "to_u64_digits" and isinstance(e, int):
            out = []
            while e: out.append(I("u64", e & 2**64 - 1)); e >>= 64
            return V(out, "u64")
        if n == "to_string": return Op("dec", (I(None, e),), "String")
        if n == "to_biguint": return Some(v)
        if n in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.binop(eng, {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n], v, args[0])
        if n in ("add", "sub", "mul", "div", "rem", "shl", "shr", "bitand"):
            return self.binop(eng, {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "shl": "<<", "shr": ">>", "bitand": "&"}[n], v, args[0])
        if n == "bit":
            k = eng.conc(args[0]); h = eng.split(e, k)[1]
            return eng.cmp("==", eng.split(h, 1)[0], 1)
        return NI

    def step(self, eng, v, s): return v.f[s[1]]
    def upd(self, eng, v, p, x): raise Unsupported("big integer update")


class PosContract:
    """Poseidon of one curve: hash and hash_ex as an uninterpreted function of the state (C11 gives its meaning)"""
    assoc = {}

    def __init__(self, tname, cf, word): self.tname, self.cf, self.word = tname, cf, word
    def assoc_const(self, eng, n): return None

    def words(self, eng, init, inp, k):
        key = (init.key(), tuple(x.key() for x in inp))
        return [FV(self.cf.F, {(self.cf.F.atom(("pos", i) + key),): 1}) for i in range(k)]

    def static(self, eng, n, args):
        if n in ("new", "default"): return St(self.tname, {})
        return NI

    def method(self, eng, ref, v, n, args):
        if n in ("hash", "hash_ex"):
            inp = seq.tolist(eng, args[0], 16)
            if inp is None: return Err(Str("inputs"))
            inp = [self.cf.lift(eng, x) for x in inp]
            init = self.cf.lift(eng, args[1])
            if not 1 <= len(inp) <= 16: return Err(Str("inputs"))
            if n == "hash": return Ok(self.words(eng, init, inp, 17)[self.word])
            out = eng.conc(args[2], "output length")
            if out > len(inp) + 1: raise Panic("more output words than the state has")
            return Ok(V(self.words(eng, init, inp, out)))
        return NI

    def binop(self, eng, op, a, b): return op == "==" if op in ("==", "!=") else NI
    def unop(self, eng, op, a): return NI
    def order(self, eng, a, b): return NI
    def step(self, eng, v, s): raise Unsupported("poseidon field")
    def upd(self, eng, v, p, x): raise Unsupported("poseidon field")
