"""Contracts of the ark crates: field elements are integers below the modulus (or opaque), curve predicates are uninterpreted."""
from eng import *
from jsonc import dec, astext

NI = NotImplemented
A = "ark_bls12_381::"
Q = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
CONF = A + "Bls12_381"


class Ctx:
    """what one path knows: predicates of points, quotients, and what parsing an unknown text gives"""

    def __init__(self, eng): self.eng = eng; self.reset()
    def reset(self): self.pred, self.quo, self.txt = {}, {}, {}

    def bit(self, kind, key):
        k = (kind, key)
        if k not in self.pred:
            self.pred[k] = self.eng.cmp("==", self.eng.sym(f"{kind}{len(self.pred)}", 0, 1).e, 1)
        return self.pred[k]

    def fresh(self, ty, key, name):
        if key not in self.quo: self.quo[key] = self.mk(ty, self.eng.sym(f"{name}{len(self.quo)}", 0, (R if ty.endswith("Fr") else Q) - 1).e)
        return self.quo[key]

    def mk(self, ty, e): return St(ty, {"v": I(None, e)})


def unknown(i): return Op("text", (I(None, i),), "str")


class Fp:
    def __init__(self, cx, ty, p): self.cx, self.ty, self.p = cx, ty, p
    def assoc_const(self, eng, n): return {"ZERO": self.cx.mk(self.ty, 0), "ONE": self.cx.mk(self.ty, 1)}.get(n)

    def parse(self, eng, t):
        t = eng.deref(t)
        if isinstance(t, Str):
            import re
            if not re.fullmatch(r"[+-]?[0-9]+", t.v): return Err(UNIT) if "_" not in t.v else NI
            return Ok(self.cx.mk(self.ty, int(t.v) % self.p))
        if isinstance(t, Op) and t.f == "dec":
            e = eng.norm(t.a[0].e)
            if isinstance(e, int): return Ok(self.cx.mk(self.ty, e % self.p))
            lo, hi = eng.bounds(e)
            if lo >= 0 and hi < self.p: return Ok(self.cx.mk(self.ty, e))
            raise Unsupported("reduction of a symbolic numeral")
        if isinstance(t, Op) and t.f == "text":
            k = (self.ty, vkey(t))
            if not eng.decide(self.cx.bit("isnum", k)): return Err(UNIT)
            return Ok(self.cx.fresh(self.ty, k, "num"))
        return NI

    def static(self, eng, n, args):
        if n == "from_str": return self.parse(eng, args[0])
        if n in ("zero", "default"): return self.cx.mk(self.ty, 0)
        if n == "one": return self.cx.mk(self.ty, 1)
        if n == "from":
            x = eng.deref(args[0])
            if isinstance(x, I) and isinstance(x.e, int): return self.cx.mk(self.ty, x.e % self.p)
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op in ("==", "!="): return eng.cmp(op, a.f["v"].e, b.f["v"].e)
        return NI

    def method(self, eng, ref, v, n, args):
        if n == "clone": return v
        if n == "to_string": return dec(v.f["v"])
        if n in ("is_zero", "is_one"): return eng.cmp("==", v.f["v"].e, 0 if n == "is_zero" else 1)
        return NI


class Tower:
    def __init__(self, cx, ty, sub, k): self.cx, self.ty, self.sub, self.k = cx, ty, sub, k

    def const(self, eng, x):
        s = eng.contracts[A + self.sub]
        one, zero = s.assoc_const(eng, "ONE"), s.assoc_const(eng, "ZERO")
        return St(self.ty, {f"c{i}": (one if x and not i else zero) for i in range(self.k)})

    def assoc_const(self, eng, n): return self.const(eng, n == "ONE") if n in ("ZERO", "ONE") else None

    def static(self, eng, n, args):
        if n == "new": return St(self.ty, {f"c{i}": eng.deref(a) for i, a in enumerate(args)})
        if n in ("zero", "one"): return self.const(eng, n == "one")
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op not in ("==", "!="): return NI
        r = eng.eqall([(a.f[k], b.f[k]) for k in sorted(a.f)]) if False else True
        for k in sorted(a.f): r = eng.band(r, lambda k=k: eng.binop("==", a.f[k], b.f[k]))
        return r if op == "==" else eng.bnot(r)

    def method(self, eng, ref, v, n, args):
        if n == "clone": return v
        if n in ("is_zero", "is_one"): return self.binop(eng, "==", v, self.const(eng, n == "is_one"))
        return NI


class Proj:
    """Jacobian coordinates"""
    def __init__(self, cx, g, f): self.cx, self.ty, self.aff, self.f = cx, A + g + "Projective", A + g + "Affine", f
    def assoc_const(self, eng, n): return None

    def affine(self, eng, v):
        x, y, z = v.f["x"], v.f["y"], v.f["z"]
        if eng.decide(eng.contracts[self.f].method(eng, None, z, "is_zero", [])): return self.cx.inf(self.aff)
        if eng.decide(eng.contracts[self.f].method(eng, None, z, "is_one", [])): return St(self.aff, {"x": x, "y": y, "infinity": False})
        return St(self.aff, {"x": self.div(eng, x, z, 2), "y": self.div(eng, y, z, 3), "infinity": False})

    def div(self, eng, x, z, k):
        key = ("div", vkey(x), vkey(z), k)
        if x.n.endswith("Fq2"): return St(x.n, {c: self.cx.fresh(A + "Fq", key + (c,), "quo") for c in x.f})
        return self.cx.fresh(x.n, key, "quo")

    def static(self, eng, n, args):
        if n in ("new_unchecked", "new"):
            v = St(self.ty, dict(zip("xyz", (eng.deref(a) for a in args))))
            if n == "new":
                a = self.affine(eng, v)
                c = eng.contracts[self.aff]
                if not eng.decide(c.oncurve(eng, a)) or not eng.decide(c.sub(eng, a)): raise Panic("assertion failed: p.is_on_curve() / subgroup (ark_ec Projective::new)")
            return v
        if n in ("from", "into"):
            a = eng.deref(args[0])
            if a.n == self.aff: return self.of(eng, a)
        if n in ("zero", "default"): return St(self.ty, {"x": self.one(eng), "y": self.one(eng), "z": self.zero(eng)})
        return NI

    def one(self, eng): return eng.contracts[self.f].assoc_const(eng, "ONE")
    def zero(self, eng): return eng.contracts[self.f].assoc_const(eng, "ZERO")

    def of(self, eng, a):
        if a.f["infinity"]: return St(self.ty, {"x": self.one(eng), "y": self.one(eng), "z": self.zero(eng)})
        return St(self.ty, {"x": a.f["x"], "y": a.f["y"], "z": self.one(eng)})

    def method(self, eng, ref, v, n, args):
        if n in ("into_affine", "into", "to_affine"): return self.affine(eng, v)
        if n == "clone": return v
        if n == "is_zero": return eng.contracts[self.f].method(eng, None, v.f["z"], "is_zero", [])
        return NI


class Affine:
    def __init__(self, cx, g, f):
        self.cx, self.ty, self.f, self.proj = cx, A + g + "Affine", f, A + g + "Projective"

    def assoc_const(self, eng, n): return None
    def key(self, v): return (self.ty, vkey(v.f["x"]), vkey(v.f["y"]))
    def oncurve(self, eng, v): return True if v.f["infinity"] is True else self.cx.bit("oncurve", self.key(v))
    def sub(self, eng, v): return True if v.f["infinity"] is True else self.cx.bit("insub", self.key(v))

    def static(self, eng, n, args):
        if n in ("zero", "identity", "default"): return self.cx.inf(self.ty)
        if n == "new_unchecked": return St(self.ty, {"x": eng.deref(args[0]), "y": eng.deref(args[1]), "infinity": False})
        if n == "new":
            v = self.static(eng, "new_unchecked", args)
            if not eng.decide(self.oncurve(eng, v)) or not eng.decide(self.sub(eng, v)): raise Panic("assertion failed (ark_ec Affine::new)")
            return v
        if n == "from":
            a = eng.deref(args[0])
            if a.n == self.proj: return eng.contracts[self.proj].affine(eng, a)
            if a.n == self.ty: return a
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op not in ("==", "!="): return NI
        if a.f["infinity"] is not b.f["infinity"]: r = False
        elif a.f["infinity"]: r = True
        else: r = eng.band(eng.binop("==", a.f["x"], b.f["x"]), lambda: eng.binop("==", a.f["y"], b.f["y"]))
        return r if op == "==" else eng.bnot(r)

    def method(self, eng, ref, v, n, args):
        if n == "clone": return v
        if n == "is_zero": return v.f["infinity"]
        if n == "xy": return NONE if v.f["infinity"] else Some(T([v.f["x"], v.f["y"]]))
        if n in ("x", "y"): return NONE if v.f["infinity"] else Some(v.f[n])
        if n == "is_on_curve": return self.oncurve(eng, v)
        if n == "is_in_correct_subgroup_assuming_on_curve": return self.sub(eng, v)
        if n in ("into_group", "into"): return eng.contracts[self.proj].of(eng, v)
        if n == "check": return Ok(UNIT) if eng.decide(self.oncurve(eng, v)) and eng.decide(self.sub(eng, v)) else Err(En("ark_serialize::SerializationError", "InvalidData"))
        return NI


class Conf:
    assoc = {"G1Affine": A + "G1Affine", "G2Affine": A + "G2Affine", "G1": A + "G1Projective", "G2": A + "G2Projective", "ScalarField": A + "Fr", "BaseField": A + "Fq", "TargetField": A + "Fq12"}
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI
    def method(self, eng, ref, v, n, args): return NI


class DeError:
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return Op("de::Error", (), "DeError") if n in ("custom", "invalid_length", "invalid_value", "invalid_type", "missing_field", "duplicate_field", "unknown_field", "unknown_variant") else NI
    def method(self, eng, ref, v, n, args): return NI


class Unk:
    """text of which nothing is known"""
    def __init__(self, old): self.old = old
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return self.old.static(eng, n, args)

    def method(self, eng, ref, v, n, args):
        if isinstance(v, Op) and v.f == "text":
            if n in ("as_str", "clone", "to_owned", "to_string", "into", "as_ref", "borrow"): return v
            return NI
        return self.old.method(eng, ref, v, n, args)

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if any(isinstance(x, Op) and x.f == "text" for x in (a, b)): raise Unsupported("comparison of unknown texts")
        return self.old.binop(eng, op, a, b)


def install(eng):
    """after jsonc.install"""
    cx = Ctx(eng)

    def inf(ty):
        f = "Fq" if "G1" in ty else "Fq2"
        z = eng.contracts[A + f].assoc_const(eng, "ZERO")
        return St(ty, {"x": z, "y": z, "infinity": True})
    cx.inf = inf
    c = eng.contracts
    c[A + "Fq"], c[A + "Fr"] = Fp(cx, A + "Fq", Q), Fp(cx, A + "Fr", R)
    c[A + "Fq2"], c[A + "Fq6"], c[A + "Fq12"] = Tower(cx, A + "Fq2", "Fq", 2), Tower(cx, A + "Fq6", "Fq2", 3), Tower(cx, A + "Fq12", "Fq6", 2)
    for g, f in (("G1", "Fq"), ("G2", "Fq2")):
        c[A + g + "Projective"], c[A + g + "Affine"] = Proj(cx, g, A + f), Affine(cx, g, A + f)
    c[CONF] = Conf()
    c["de::Error"] = DeError()
    c["str"] = c["String"] = Unk(c["str"])
    return cx
