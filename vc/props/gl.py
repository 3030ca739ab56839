"""C01, C02, C03: the Goldilocks field."""
from oblig import *
from contracts import NI

GL = ["fields/src/field_gl.rs", rast.ff_src()]
FR, RP = "field_gl::Fr", "field_gl::FrRepr"
RINV = pow(pow(2, 128, P64), P64 - 2, P64)


def frv(x): return St(FR, {"0": St(RP, {"0": V([x], "u64")})})
def raw(v): return v.f["0"].f["0"].e[0]


def eng0():
    return Engine(prog(GL), tmo=60000)


def inplace(op, binary, spec, mont):
    """self.op(&other): canonical result, value spec(a,b) (raw words are in Montgomery form)"""
    def run():
        eng = eng0()
        a = eng.insym("u64", "a", 0, P64 - 1)
        b = eng.insym("u64", "b", 0, P64 - 1)
        ins = {"a": a, "b": b} if binary else {"a": a}
        f = eng.find_method(FR, op, [])
        if not f: raise Unsupported(f"no {op}")
        n = [0]

        def on(o):
            if o.kind == "panic": raise Fail(f"panics: {o.val}", model_vals(eng, mod(eng), ins))
            n[0] += 1
            r = raw(o.val).e
            need(eng, eng.cmp(">=", r, 0), "result below 0", ins)
            need(eng, eng.cmp("<", r, P64), "result not canonical", ins)
            congr(eng, psub(pscale(r, pow(2, 128, P64) if mont else 1), spec(a.e, b.e)), P64, f"{op} differs from the spec mod p", ins)
        eng.on_path = on

        def th():
            c = Cell(frv(a))
            eng.call_fn(f, [Ref(c)] + ([Ref(Cell(frv(b)))] if binary else []))
            return c.v
        eng.explore(th)
        return info(eng, n[0])
    return run


def mod(eng):
    return eng.solver.model() if eng.check() == z3.sat else None


def oper(op, trait, binary, spec, mont):
    def run():
        eng = eng0()
        a = eng.insym("u64", "a", 0, P64 - 1)
        b = eng.insym("u64", "b", 0, P64 - 1)
        ins = {"a": a, "b": b} if binary else {"a": a}
        f = eng.find_method(FR, op, [frv(a)] + ([frv(b)] if binary else []), trait=trait)
        if not f: raise Unsupported(f"no {trait}::{op}")
        n = [0]

        def on(o):
            if o.kind == "panic": raise Fail(f"panics: {o.val}", model_vals(eng, mod(eng), ins))
            n[0] += 1
            r = raw(o.val).e
            need(eng, eng.cmp(">=", r, 0), "result below 0", ins)
            need(eng, eng.cmp("<", r, P64), "result not canonical", ins)
            congr(eng, psub(pscale(r, pow(2, 128, P64) if mont else 1), spec(a.e, b.e)), P64, f"{op} differs from the spec mod p", ins)
        eng.on_path = on
        eng.explore(lambda: eng.call_fn(f, [frv(a)] + ([frv(b)] if binary else [])))
        return info(eng, n[0])
    return run


def consts():
    eng = eng0()
    for n, want in (("ZERO", 0), ("ONE", pow(2, 128, P64))):
        v = eng.path_value([{"n": "Fr", "a": []}, {"n": n, "a": []}], None, Frame(eng.P.mods["field_gl"], {}))
        if raw(v).e != want: raise Fail(f"Fr::{n} = {raw(v).e}", {"const": n})
    for n, want in (("zero", 0), ("one", pow(2, 128, P64))):
        v = eng.call_fn(eng.find_method(FR, n, []), [])
        if raw(v).e != want: raise Fail(f"Fr::{n}() = {raw(v).e}", {"const": n})
    m = eng.P.mods["field_gl"]
    v = eng.const(m, m.consts["MODULUS"], None)
    if v.f["0"].e[0].e != P64: raise Fail("MODULUS", {"const": "MODULUS"})
    return info(eng, 1)


def predicate(kind):
    """is_zero, ==: decided by the integers"""
    def run():
        eng = eng0()
        a = eng.insym("u64", "a", 0, P64 - 1)
        b = eng.insym("u64", "b", 0, P64 - 1)
        n = [0]

        def on(o):
            if o.kind == "panic": raise Fail(f"panics: {o.val}", None)
            n[0] += 1
            want = eng.cmp("==", a.e, 0) if kind == "is_zero" else eng.cmp("==", a.e, b.e)
            got = o.val
            if isinstance(got, B): raise Undecided("undetermined result")
            need(eng, want if got else eng.bnot(want), f"{kind} disagrees with the integers", {"a": a, "b": b})
        eng.on_path = on
        if kind == "is_zero":
            f = eng.find_method(FR, "is_zero", [])
            eng.explore(lambda: eng.decide(eng.call_fn(f, [Ref(Cell(frv(a)))])))
        else:
            f = eng.find_method(FR, "eq", [], trait="PartialEq")
            eng.explore(lambda: eng.decide(eng.call_fn(f, [Ref(Cell(frv(a))), Ref(Cell(frv(b)))])))
        return info(eng, n[0])
    return run


def c01():
    add, sub, mul = padd, psub, pmul
    neg = lambda a, b: pscale(a, -1)
    dbl = lambda a, b: pscale(a, 2)
    sq = lambda a, b: pmul(a, a)
    o = []
    for op, bi, sp, mo, txt in (("add_assign", 1, add, 0, "a+b"), ("sub_assign", 1, sub, 0, "a-b"), ("mul_assign", 1, mul, 1, "a*b"),
                                ("double", 0, dbl, 0, "2a"), ("negate", 0, neg, 0, "-a"), ("square", 0, sq, 1, "a*a")):
        o.append(Obl(f"Fr::{op}", "fields/src/field_gl.rs Field::" + op,
                     f"requires a,b < p; ensures result < p and val(result) = {txt} mod p (val(x) = x*2^-128 mod p)", inplace(op, bi, sp, mo)))
    for op, tr, bi, sp, mo, txt in (("add", "Add", 1, add, 0, "a+b"), ("sub", "Sub", 1, sub, 0, "a-b"), ("mul", "Mul", 1, mul, 1, "a*b"), ("neg", "Neg", 0, neg, 0, "-a")):
        o.append(Obl(f"{tr}::{op}", f"fields/src/field_gl.rs {tr}::{op}",
                     f"requires a,b < p; ensures result < p and val(result) = {txt} mod p", oper(op, tr, bi, sp, mo)))
    o.append(Obl("Fr constants", "ZERO ONE zero() one() MODULUS", "ensures raw words 0 and 2^128 mod p; MODULUS = 2^64-2^32+1", consts))
    o.append(Obl("Fr::is_zero", "Field::is_zero", "ensures result <=> a = 0", predicate("is_zero")))
    o.append(Obl("Fr::eq", "PartialEq::eq", "ensures result <=> a = b", predicate("eq")))
    return o


# ------------------------------------------------------------------ C02
class PowEq(PowContract):
    """adds comparisons with 0 and 1 as named conditions"""

    def binop(self, eng, op, a, b):
        if op in ("==", "!="):
            a, b = eng.deref(a), eng.deref(b)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PW) and isinstance(x.e, int) and isinstance(y, En) and y.n == "zero":
                    r = B(z3.Bool(f"pw{x.e}_zero"))
                    return r if op == "==" else eng.bnot(r)
                if isinstance(x, PW) and isinstance(x.e, int) and isinstance(y, PW) and y.e == 0:
                    if x.e == 0: return op == "=="
                    r = B(z3.Bool(f"pw{x.e}_one"))
                    return r if op == "==" else eng.bnot(r)
        return PowContract.binop(self, eng, op, a, b)

    def static(self, eng, n, args):
        if n == "zero" and not args: return En("zero", "zero")
        return PowContract.static(self, eng, n, args)


def powc(eng, cls=PowContract):
    eng.contracts[FR] = cls(FR, ("f", "f", "i"))
    return PW(FR, 1)


def strip(c, names):
    """the contract covers the operations C01 proves; the rest of the type's functions are executed"""
    return c


def inverse():
    eng = eng0()
    x = powc(eng)
    f = eng.find_method(FR, "inverse", [])
    outs = eng.explore(lambda: eng.call_fn(f, [Ref(Cell(x))]))
    for o in outs:
        if o.kind == "panic": raise Undecided(f"panic {o.val}")
        v = o.val
        if not (isinstance(v, En) and v.v == "Some"): raise Undecided("None on a feasible path")
        e = v.a[0].e
        if not isinstance(e, int): raise Undecided("symbolic exponent")
        if e % (P64 - 1) != P64 - 2 or e == 0: raise Fail(f"inverse computes x^{e}, not x^(p-2)", {"a": 5})
    return info(eng, len(outs))


def divide():
    eng = eng0()
    F = Field(FR, P64)
    C = FieldContract(F, FR)

    class OnlyDiv(FieldContract):
        def binop(self, eng, op, a, b):
            return NI if op == "/" else FieldContract.binop(self, eng, op, a, b)
    eng.contracts[FR] = OnlyDiv(F, FR)
    a, b = F.var("a"), F.var("b")
    f = eng.find_method(FR, "div", [a, b], trait="Div")
    n = [0]

    def on(o):
        if o.kind == "panic":
            raise Fail(f"panics: {o.val}", None)
        n[0] += 1
        # on the path b != 0 the result times b is a
        inv = [(i, d) for i, d in enumerate(F.atoms) if d[0] == "inv"]
        if eng.check(eng.zint(C.asint(eng, b).e) != 0) == z3.unsat: return
        if not field_zero(F, o.val.mul(b).sub(a)): raise Fail("(a/b)*b differs from a", None)
    eng.on_path = on
    eng.explore(lambda: eng.call_fn(f, [a, b]))
    return info(eng, n[0])


def b_key(F, v):
    it = sorted(v.lin().items())
    inv = pow(it[-1][1], F.p - 2, F.p)
    return tuple((m, c * inv % F.p) for m, c in it)


def field_zero(F, g, depth=0):
    """g = 0 as a polynomial, after clearing the inverse atoms (each inverse's argument is nonzero on the path)"""
    if g.is_const(): return g.cval() == 0
    invs = sorted({s for m in g.d for s in m if F.atoms[s][0] == "inv"}, reverse=True)
    if not invs: return not g.d
    i = invs[0]
    q = F.obj[i]
    deg = max(m.count(i) for m in g.d)
    tot = F.const(0)
    qp = [F.const(1)]
    for _ in range(deg): qp.append(qp[-1].mul(q))
    by = {}
    for m, c in g.d.items():
        k = m.count(i)
        by.setdefault(k, {})[tuple(s for s in m if s != i)] = c
    for k, d in by.items():
        tot = tot.add(FV(F, d).mul(qp[deg - k]))
    return field_zero(F, tot, depth + 1)


def expo(fname, mkargs, bits=64):
    def run():
        eng = eng0()
        x = powc(eng)
        eng.merge_on = True
        bs = [eng.sym(f"b{i}", 0, 1) for i in range(bits)]
        e = 0
        for i, b in enumerate(bs): e = padd(e, pscale(b.e, 1 << i))
        f = eng.find_method(FR, fname, [])
        if not f: raise Unsupported(f"no {fname}")
        n = [0]

        def on(o):
            if o.kind == "panic": raise Undecided(f"panic {o.val}")
            n[0] += 1
            if not isinstance(o.val, PW): raise Undecided("not a power")
            if eng.norm(psub(o.val.e, e)) != 0:
                d = eng.norm(psub(o.val.e, e))
                # find an exponent showing it
                for k in list(range(64)) + [None]:
                    val = {s: 0 for s in pvars(d) | pvars(e)}
                    val.update(eng.sub)
                    if k is not None and next(iter(bs[k].e.d))[0] not in eng.sub: val[next(iter(bs[k].e.d))[0]] = 1
                    if peval(d, val) % (P64 - 1):
                        raise Fail(f"{fname} computes another power", {"a": 7, "e": peval(e, val)})
                raise Fail(f"{fname} computes another power", None)
        eng.on_path = on
        eng.explore(lambda: eng.call_fn(f, mkargs(x, I("u64", e))))
        return info(eng, n[0])
    return run


def legendre():
    eng = eng0()
    x = powc(eng, PowEq)
    f = eng.find_method(FR, "legendre", [])
    h = (P64 - 1) // 2
    seen = set()

    def on(o):
        if o.kind == "panic": raise Undecided("panic " + o.val)
        z, one = z3.Bool(f"pw{h}_zero"), z3.Bool(f"pw{h}_one")
        ax = z3.Not(z3.And(z, one))
        want = {"Zero": z, "QuadraticResidue": one, "QuadraticNonResidue": z3.And(z3.Not(z), z3.Not(one))}
        if o.val.v not in want: raise Undecided(f"result {o.val}")
        seen.add(o.val.v)
        if eng.check(ax, z3.Not(want[o.val.v])) != z3.unsat:
            raise Fail(f"legendre says {o.val.v} without the Euler criterion", {"a": 7})
    eng.on_path = on
    outs = eng.explore(lambda: eng.call_fn(f, [Ref(Cell(x))]))
    if len(seen) < 3: raise Fail(f"legendre never answers {set(('Zero','QuadraticResidue','QuadraticNonResidue'))-seen}", {"a": 7})
    return info(eng, len(outs))


def prime():
    """p is prime (Pratt certificate) - the lemma behind Fermat and Euler"""
    p = P64
    fac = [2, 3, 5, 17, 257, 65537]
    n = p - 1
    for q in fac:
        while n % q == 0: n //= q
    if n != 1: raise Fail("factorisation of p-1")
    g = next(g for g in range(2, 100) if pow(g, p - 1, p) == 1 and all(pow(g, (p - 1) // q, p) != 1 for q in fac))
    return {"paths": 1, "witness": g}


def roots():
    """ROOT_OF_UNITY has order exactly 2^32; GENERATOR generates"""
    eng = eng0()
    m = eng.P.mods["field_gl"]
    val = lambda n: eng.const(m, m.consts[n], None).f["0"].e[0].e * RINV % P64
    w, g = val("ROOT_OF_UNITY"), val("GENERATOR")
    s = eng.const(m, m.consts["S"], None).e
    if s != 32: raise Fail("S", {"const": "S"})
    if pow(w, 1 << 32, P64) != 1 or pow(w, 1 << 31, P64) == 1: raise Fail("ROOT_OF_UNITY is not of order 2^32", {"const": "ROOT_OF_UNITY"})
    if any(pow(g, (P64 - 1) // q, P64) == 1 for q in (2, 3, 5, 17, 257, 65537)): raise Fail("GENERATOR is not a generator", {"const": "GENERATOR"})
    if pow(g, (P64 - 1) >> 32, P64) != w: raise Fail("ROOT_OF_UNITY is not GENERATOR^t", {"const": "ROOT_OF_UNITY"})
    return info(eng, 1)


class Mono:
    """monomial in named group elements"""
    __slots__ = ("e",)
    ty = "field_gl::Fr"

    def __init__(self, e): self.e = {k: v for k, v in e.items() if v}


class MonoContract:
    """free commutative monoid on a, r, c, t; used for the Tonelli-Shanks loop"""

    def __init__(self, order):
        self.order_ = order       # (base name) -> log2 of its order, for deciding base^(2^j) = 1

    def assoc_const(self, eng, n): return Mono({}) if n == "ONE" else None
    def unop(self, eng, op, a): return NI
    def order(self, eng, a, b): return NI
    def step(self, eng, v, s): raise Unsupported("representation")
    upd = step

    def static(self, eng, n, args):
        if n == "one" and not args: return Mono({})
        if args and isinstance(eng.deref(args[0]), Mono):
            r = args[0] if isinstance(args[0], Ref) else Ref(Cell(args[0]))
            return self.method(eng, r, eng.deref(r), n, args[1:])
        return NI

    def mul(self, a, b):
        e = dict(a.e)
        for k, v in b.e.items(): e[k] = e.get(k, 0) + v
        return Mono(e)

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op == "*": return self.mul(a, b)
        if op in ("==", "!="):
            if b.e and not a.e: a, b = b, a
            if b.e or len(a.e) > 1: raise Unsupported("comparison of group elements")
            if not a.e: r = True
            else:
                (k, v), = a.e.items()
                if k not in self.order_ or v & (v - 1): raise Unsupported("order unknown")
                r = v.bit_length() - 1 >= self.order_[k]
            return r == (op == "==")
        return NI

    def method(self, eng, ref, v, n, args):
        if n == "mul_assign": eng.store(ref.c, ref.p, self.mul(v, eng.deref(args[0]))); return UNIT
        if n == "square": eng.store(ref.c, ref.p, self.mul(v, v)); return UNIT
        if n == "mul": return self.mul(v, eng.deref(args[0]))
        if n in ("clone",): return v
        if n == "pow" or n == "exp":
            k = eng.deref(args[0])
            if isinstance(k, V): k = k.e[0]
            k = eng.conc(k)
            return Mono({x: y * k for x, y in v.e.items()})
        return NI


def sqrt():
    """Tonelli-Shanks: loop invariant  r^2 = a*t,  c of order exactly 2^m,  order(t) | 2^(m-1),  1 <= m <= 32;
    m decreases.  Checked at entry, preserved for every m and every order 2^i of t (i < m), and at exit."""
    eng = eng0()
    F = "field_gl"
    paths = 0
    # legendre: by contract (obligation Fr::legendre)
    state = {}

    def mkeng(legr, order):
        e = eng0()
        e.contracts[FR] = MonoContract(order)
        e.fncontracts[(FR, "legendre")] = lambda g, a: En("ff::LegendreSymbol", legr)
        return e
    # the Mono type has no type name: give it one
    # zero and non-residue
    for leg, want in (("Zero", "Some"), ("QuadraticNonResidue", "None")):
        e = mkeng(leg, {})
        f = e.find_method(FR, "sqrt", [])
        outs = e.explore(lambda: e.call_fn(f, [Ref(Cell(Mono({"a": 1})))]))
        for o in outs:
            paths += 1
            if o.kind == "panic" or o.val.v != want: raise Fail(f"sqrt on {leg}: {o.val}", {"a": 7})
            if want == "Some" and o.val.a[0].e != {"a": 1}: raise Fail("sqrt(0) is not 0", {"a": 0})

    class Cut(Exception):
        pass

    def find_names(sc, vals):
        out = {}
        s = sc
        while s is not None:
            for n, c in s.d.items():
                out.setdefault(n, c)
            s = s.up
        return out
    # entry: run up to the loop head
    e = mkeng("QuadraticResidue", {})
    f = e.find_method(FR, "sqrt", [])
    head = {}

    def hook_entry(g, node, sc, fr):
        head["sc"], head["node"] = sc, node
        raise Cut()
    e.loop_hook = hook_entry
    try:
        e.explore(lambda: e.call_fn(f, [Ref(Cell(Mono({"a": 1})))]))
        raise Undecided("no loop")
    except Cut:
        pass
    names = find_names(head["sc"], None)
    mo = {n: c.v for n, c in names.items() if isinstance(c.v, Mono)}
    ints = {n: c.v for n, c in names.items() if isinstance(c.v, I)}
    # roles: c is the constant root of unity (a struct before abstraction), found as the value that is not a monomial in a
    q = (P64 - 1) >> 32
    rname = [n for n, v in mo.items() if v.e == {"a": (q + 1) // 2}]
    tname = [n for n, v in mo.items() if v.e == {"a": q}]
    cname = [n for n, c in names.items() if isinstance(c.v, St) and c.v.n == FR]
    mname = [n for n, v in ints.items() if v.e == 32]
    if len(rname) != 1 or len(tname) != 1 or len(cname) != 1 or len(mname) != 1:
        raise Undecided("loop state not recognised at entry (r = a^((q+1)/2), t = a^q, c = root of unity, m = 32)")
    cw = raw(names[cname[0]].v).e * RINV % P64
    if pow(cw, 1 << 32, P64) != 1 or pow(cw, 1 << 31, P64) == 1: raise Fail("c is not of order 2^32 at loop entry", {"a": 4})
    # r^2 = a^(q+1) = a*t; t^(2^31) = a^((p-1)/2) = 1 for a square: order(t) | 2^31
    paths += 1
    for m in range(1, 33):
        for i in range(0, m):
            e = mkeng("QuadraticResidue", {"t": i})
            f = e.find_method(FR, "sqrt", [])
            done = {}

            def hook(g, node, sc, fr):
                nm = find_names(sc, None)
                nm[rname[0]].v = Mono({"r": 1})
                nm[tname[0]].v = Mono({"t": 1})
                nm[cname[0]].v = Mono({"c": 1})
                nm[mname[0]].v = I("u32", m)
                g.loop_hook = None
                s2 = Scope(sc)
                if node["k"] != "while": raise Unsupported("loop kind")
                go = g.decide(g.cond(node["c"], s2, fr))
                if not go:
                    done["exit"] = True
                    return UNIT
                g.block(node["b"], s2, fr)
                done["state"] = (nm[rname[0]].v, nm[tname[0]].v, nm[cname[0]].v, g.norm(nm[mname[0]].v.e))
                raise Cut()
            e.loop_hook = hook
            try:
                outs = e.explore(lambda: e.call_fn(f, [Ref(Cell(Mono({"a": 1})))]))
            except Cut:
                outs = None
            paths += 1
            if outs is not None:
                if i != 0: raise Fail("loop leaves with t != 1", {"a": 4})
                for o in outs:
                    if o.kind == "panic" or o.val.v != "Some" or o.val.a[0].e != {"r": 1}: raise Fail("sqrt does not return r", {"a": 4})
                continue
            if i == 0: raise Fail("loop continues with t = 1", {"a": 4})
            r, t, c, m2 = done["state"]
            k = 1 << (m - i)
            # c'' = c^(2^(m-i)), order 2^i = 2^m';  r' = r*d with d^2 = t'/t;  t' = t*c''
            if c.e != {"c": k} or m2 != i: raise Fail(f"loop invariant: c has order 2^m (m={m}, i={i})", {"a": 4})
            if t.e != {"t": 1, "c": k}: raise Fail(f"loop invariant: t (m={m}, i={i})", {"a": 4})
            if r.e != {"r": 1, "c": k // 2}: raise Fail(f"loop invariant: r^2 = a*t (m={m}, i={i})", {"a": 4})
    d = info(eng, paths)
    d["lemmas"] = "order(t)=2^i and c''^(2^(i-1)) = -1 = t^(2^(i-1)) give t'^(2^(i-1)) = 1 (F_p^* is cyclic)"
    return d


def c02():
    return [
        Obl("p is prime", "lemma", "2^64-2^32+1 is prime (Pratt certificate): Fermat and Euler criteria apply", prime, "certificate"),
        Obl("Fr::inverse", "Field::inverse", "ensures result = Some(x^e), e = p-2 mod p-1 (so x*result = 1 for x != 0)", inverse),
        Obl("Div::div", "Div::div", "requires b != 0; ensures (a/b)*b = a", divide),
        Obl("Fr::exp", "Fr::exp", "ensures result = x^power for every 64-bit power", expo("exp", lambda x, e: [x, e])),
        Obl("Field::pow", "ff_ce Field::pow on one limb", "ensures result = x^e for every 64-bit e", expo("pow", lambda x, e: [Ref(Cell(x)), V([e], "u64")])),
        Obl("Fr::legendre", "SqrtField::legendre", "ensures Zero/QuadraticResidue/QuadraticNonResidue by x^((p-1)/2)", legendre),
        Obl("roots of unity", "ROOT_OF_UNITY, GENERATOR, S", "order exactly 2^32; GENERATOR generates F_p^*; root = GENERATOR^t", roots),
        Obl("Fr::sqrt", "SqrtField::sqrt", "ensures None iff non-residue, Some(0) for 0, else r^2 = a (loop invariant)", sqrt),
    ]


# ------------------------------------------------------------------ C03
def conv(kind):
    def run():
        eng = eng0()
        x = eng.insym("u64", "x")
        ins = {"x": x}
        n = [0]
        rp = St(RP, {"0": V([x], "u64")})
        fn, back = {"repr": ("from_repr", "into_repr"), "raw": ("from_raw_repr", "into_raw_repr"), "u64": ("from", "as_int")}[kind]

        def on(o):
            n[0] += 1
            small = eng.cmp("<", x.e, P64)
            if o.kind == "panic":
                if kind != "u64": raise Fail(f"panics: {o.val}", model_vals(eng, mod(eng), ins))
                need(eng, eng.bnot(small), "canonical integer refused", ins); return
            if o.val[0] == "Err":
                need(eng, eng.bnot(small), "canonical integer refused", ins); return
            need(eng, small, "integer not below p accepted", ins)
            el, bk = o.val[1], o.val[2]
            r = raw(el).e
            need(eng, eng.cmp("<", r, P64), "element not canonical", ins)
            if kind != "raw":
                congr(eng, psub(r, pscale(x.e, pow(2, 128, P64))), P64, "element does not stand for the integer", ins)
            need(eng, eng.cmp("==", bk, x.e), "round trip changes the integer", ins)
        eng.on_path = on

        def th():
            if kind == "u64":
                el = eng.call_fn(eng.find_method(FR, "from", [x], trait="From"), [x])
            else:
                r = eng.call_fn(eng.find_method(FR, fn, []), [rp])
                if r.v == "Err": return ("Err",)
                el = r.a[0]
            b = eng.call_fn(eng.find_method(FR, back, []), [Ref(Cell(el))])
            return ("Ok", el, b.e if isinstance(b, I) else b.f["0"].e[0].e)
        eng.explore(th)
        return info(eng, n[0])
    return run


def into_repr():
    """into_repr of any canonical element: the unique y < p with y = x*2^-128"""
    eng = eng0()
    x = eng.insym("u64", "a", 0, P64 - 1)
    n = [0]
    outs = []

    def on(o):
        if o.kind == "panic": raise Fail("panics", None)
        n[0] += 1
        y = o.val.f["0"].e[0].e
        need(eng, eng.cmp("<", y, P64), "into_repr not below p", {"a": x})
        congr(eng, psub(pscale(y, pow(2, 128, P64)), x.e), P64, "into_repr is not the integer", {"a": x})
    eng.on_path = on
    f = eng.find_method(FR, "into_repr", [])
    eng.explore(lambda: eng.call_fn(f, [Ref(Cell(frv(x)))]))
    return info(eng, n[0])


def order(trait, name, ty):
    def run():
        eng = eng0()
        hi = P64 - 1 if ty == FR else (1 << 64) - 1
        a, b = eng.insym("u64", "a", 0, hi), eng.insym("u64", "b", 0, hi)
        mkv = frv if ty == FR else (lambda x: St(RP, {"0": V([x], "u64")}))
        f = eng.find_method(ty, name, [], trait=trait)
        ir = eng.find_method(FR, "into_repr", [])
        n = [0]

        def on(o):
            if o.kind == "panic": raise Fail("panics", None)
            n[0] += 1
            r, x, y = o.val
            if r.v == "Some": r = r.a[0]
            op = {"Less": "<", "Equal": "==", "Greater": ">"}[r.v]
            need(eng, eng.cmp(op, x, y), f"{name} says {r.v} against the integers", {"a": a, "b": b})
        eng.on_path = on

        def th():
            r = eng.call_fn(f, [Ref(Cell(mkv(a))), Ref(Cell(mkv(b)))])
            if ty != FR: return (r, a.e, b.e)
            x = eng.call_fn(ir, [Ref(Cell(frv(a)))]).f["0"].e[0].e
            y = eng.call_fn(ir, [Ref(Cell(frv(b)))]).f["0"].e[0].e
            return (r, x, y)
        eng.explore(th)
        return info(eng, n[0])
    return run


def reprop(name, spec, arg=None):
    """FrRepr helper on one limb; spec(eng, x, n) -> expected integer expression or condition"""
    def run():
        eng = eng0()
        x = eng.insym("u64", "x")
        k = eng.insym("u32", "n") if arg else None
        ins = {"x": x}
        if arg: ins["n"] = k
        f = eng.find_method(RP, name, [])
        n = [0]

        def on(o):
            if o.kind == "panic": raise Fail(f"panics: {o.val}", model_vals(eng, mod(eng), ins))
            n[0] += 1
            spec(eng, x, k, o.val, ins)
        eng.on_path = on

        def th():
            c = Cell(St(RP, {"0": V([x], "u64")}))
            if arg and not eng.decide(eng.cmp("<", k.e, 130)):
                kk = k
            elif arg:
                kk = I("u32", eng.conc(I("u32", small(eng, k))))
            r = eng.call_fn(f, [Ref(c)] + ([kk] if arg else []))
            return (r, c.v.f["0"].e[0].e, kk if arg else None)
        eng.explore(th)
        return info(eng, n[0])
    return run


def small(eng, k):
    """enumerate n < 130 on separate paths"""
    for v in range(130):
        if eng.decide(eng.cmp("==", k.e, v)): return v
    raise Infeasible()


def s_shr(eng, x, k, res, ins):
    _, y, kk = res
    s = kk.e if isinstance(kk.e, int) else 200
    want = eng.split(x.e, s)[1] if s < 64 else 0
    need(eng, eng.cmp("==", y, want), f"x >> {s}", ins)


def s_shl(eng, x, k, res, ins):
    _, y, kk = res
    s = kk.e if isinstance(kk.e, int) else 200
    want = eng.split(pscale(x.e, 1 << s), 64)[0] if s < 64 else 0
    need(eng, eng.cmp("==", y, want), f"x << {s}", ins)


def s_div2(eng, x, k, res, ins):
    need(eng, eng.cmp("==", res[1], eng.split(x.e, 1)[1]), "div2 is not x/2", ins)


def boolof(eng, v, want, ins, msg):
    if isinstance(v, B):
        if eng.check(v.z != (want.z if isinstance(want, B) else z3.BoolVal(want))) == z3.unsat: return
        r = eng.solver.check(v.z != (want.z if isinstance(want, B) else z3.BoolVal(want)))
        raise Fail(msg, model_vals(eng, eng.solver.model(), ins) if r == z3.sat else None)
    need(eng, want if v else eng.bnot(want), msg, ins)


def s_odd(eng, x, k, res, ins): boolof(eng, res[0], eng.cmp("==", eng.split(x.e, 1)[0], 1), ins, "is_odd")
def s_even(eng, x, k, res, ins): boolof(eng, res[0], eng.cmp("==", eng.split(x.e, 1)[0], 0), ins, "is_even")
def s_zero(eng, x, k, res, ins): boolof(eng, res[0], eng.cmp("==", x.e, 0), ins, "is_zero")


def s_bits(eng, x, k, res, ins):
    r = eng.norm(res[0].e)
    if not isinstance(r, int): raise Undecided("num_bits symbolic")
    need(eng, eng.cmp("<", x.e, 1 << r) if r <= 64 else True, "num_bits too small", ins)
    if r > 64: raise Fail(f"num_bits = {r} for a 64-bit value", model_vals(eng, mod(eng), ins))
    if r > 0: need(eng, eng.cmp(">=", x.e, 1 << (r - 1)), "num_bits too large", ins)


def c03():
    return [
        Obl("from_repr/into_repr", "PrimeField::from_repr, into_repr", "ensures Err iff x >= p; else val(result) = x, canonical, and into_repr gives x back", conv("repr")),
        Obl("from_raw_repr/into_raw_repr", "PrimeField::from_raw_repr, into_raw_repr", "ensures Err iff x >= p; else into_raw_repr gives x back", conv("raw")),
        Obl("From<u64>/as_int", "From<u64> for Fr, Fr::as_int", "ensures refused iff x >= p; else as_int gives x back", conv("u64")),
        Obl("Fr::into_repr", "PrimeField::into_repr", "ensures the unique y < p with y*2^128 = raw mod p", into_repr),
        Obl("Fr::cmp", "Ord for Fr", "ensures the order of the integers", order("Ord", "cmp", FR)),
        Obl("Fr::partial_cmp", "PartialOrd for Fr", "ensures the order of the integers", order("PartialOrd", "partial_cmp", FR)),
        Obl("FrRepr::cmp", "Ord for FrRepr", "ensures the order of the words", order("Ord", "cmp", RP)),
        Obl("FrRepr::shr", "PrimeFieldRepr::shr", "ensures x >> n for every n (0 from 64 on)", reprop("shr", s_shr, True)),
        Obl("FrRepr::shl", "PrimeFieldRepr::shl", "ensures (x << n) mod 2^64 for every n", reprop("shl", s_shl, True)),
        Obl("FrRepr::div2", "PrimeFieldRepr::div2", "ensures x/2", reprop("div2", s_div2)),
        Obl("FrRepr::num_bits", "PrimeFieldRepr::num_bits", "ensures 2^(r-1) <= x < 2^r, 0 for 0", reprop("num_bits", s_bits)),
        Obl("FrRepr::is_odd", "PrimeFieldRepr::is_odd", "ensures x mod 2 = 1", reprop("is_odd", s_odd)),
        Obl("FrRepr::is_even", "PrimeFieldRepr::is_even", "ensures x mod 2 = 0", reprop("is_even", s_even)),
        Obl("FrRepr::is_zero", "PrimeFieldRepr::is_zero", "ensures x = 0", reprop("is_zero", s_zero)),
    ]
