"""C04, C05, C06: cubic and quintic extension fields over the Goldilocks field (taken by contract)."""
from oblig import *
from contracts import NI
from gl import field_zero, GL

FR = "field_gl::Fr"
CFG = {3: dict(ty="f3g::F3G", file="starky/src/f3g.rs", red=lambda i: {i - 3: 1, i - 2: 1}, mod="f3g", name="F3G"),
       5: dict(ty="f5g::F5G", file="starky/src/f5g.rs", red=lambda i: {i - 5: 3}, mod="f5g", name="F5G")}


def files(n): return [CFG[n]["file"], "starky/src/traits.rs", "starky/src/polutils.rs", "starky/src/constant.rs"] + GL


class Ctx:
    def __init__(self, n):
        self.n, self.c = n, CFG[n]
        self.eng = Engine(prog(files(n)), tmo=30000)
        self.F = Field(FR, P64)
        self.fc = FieldContract(self.F, FR)
        self.eng.contracts[FR] = self.fc
        self.ty = self.c["ty"]

    def elem(self, name, dim):
        """symbolic element stored with the given dim (1: scalar, upper coefficients zero)"""
        F, n = self.F, self.n
        co = [F.var(f"{name}{i}") if (dim == n or i == 0) else F.const(0) for i in range(n)]
        return St(self.ty, {"cube": V(co), "dim": I("usize", dim)}), co

    def mulpoly(self, a, b):
        n, F = self.n, self.F
        t = [F.const(0)] * (2 * n - 1)
        for i in range(n):
            for j in range(n):
                t[i + j] = t[i + j].add(a[i].mul(b[j]))
        for i in range(2 * n - 2, n - 1, -1):
            for k, c in self.c["red"](i).items():
                t[k] = t[k].add(t[i].scale(c))
            t[i] = F.const(0)
        return t[:n]

    def check_elem(self, v, want, what):
        """v is an element with the type invariant and coefficients want"""
        v = self.eng.deref(v)
        if not isinstance(v, St) or v.n != self.ty: raise Undecided(f"result is {self.eng.tyof(v)}")
        d = self.eng.norm(v.f["dim"].e)
        if d not in (1, self.n): raise Fail(f"{what}: dim {d}", self.rand_cex([]))
        co = v.f["cube"].e
        if d == 1:
            for i in range(1, self.n):
                if not self.zero(co[i]): raise Fail(f"{what}: scalar form with coefficient {i} not zero", self.cex(co[i]))
        for i in range(self.n):
            g = co[i].sub(want[i])
            if not self.zero(g): raise Fail(f"{what}: coefficient {i} differs from polynomial arithmetic", self.cex(g))

    def zero(self, g):
        g = self.subst(g)
        return field_zero(self.F, g)

    def subst(self, g):
        """use facts (atom = constant) of the path: ask the solver for bare atoms pinned to one value"""
        eng = self.eng
        if g.is_const(): return g
        pins = {}
        for s in {s for m in g.d for s in m}:
            if self.F.atoms[s][0] == "var":
                a = FV(self.F, {(s,): 1})
                key = ("asint", self.F.name, a.key())
                if key in eng.splits:
                    z = eng.zint(eng.splits[key])
                    if eng.check() == z3.sat:
                        val = eng.solver.model().eval(z, model_completion=True).as_long()
                        if eng.check(z != val) == z3.unsat: pins[s] = val
        if not pins: return g
        d = {}
        p = self.F.p
        for m, c in g.d.items():
            r = []
            for s in m:
                if s in pins: c = c * pins[s] % p
                else: r.append(s)
            if c:
                k = tuple(r)
                d[k] = (d.get(k, 0) + c) % p
        return FV(self.F, {m: c for m, c in d.items() if c})

    def cex(self, g=None):
        """concrete inputs on which g != 0"""
        eng = self.eng
        for _ in range(20):
            val = {}
            if eng.check() == z3.sat:
                m = eng.solver.model()
            else: m = None
            for s, dsc in enumerate(self.F.atoms):
                if dsc[0] != "var": continue
                a = FV(self.F, {(s,): 1})
                key = ("asint", self.F.name, a.key())
                val[s] = random.randrange(self.F.p)
                if m is not None and key in eng.splits:
                    z = eng.zint(eng.splits[key])
                    val[s] = m.eval(z, model_completion=True).as_long()
            if g is None or g.eval(dict(val)):
                return {self.F.atoms[s][1]: v for s, v in val.items()}
        return None

    def rand_cex(self, _): return self.cex(None)

    def method(self, name, args, trait=None):
        f = self.eng.find_method(self.ty, name, args, trait=trait)
        if not f: raise Unsupported(f"no {name}")
        return f

    def go(self, thunk, post):
        n = [0]

        def on(o):
            n[0] += 1
            if o.kind == "panic": raise Fail(f"panics: {o.val}", self.cex())
            post(o.val)
        self.eng.on_path = on
        self.eng.explore(thunk)
        return n[0]


def binop(n, name, trait, spec, inplace=False, byref=False):
    def run():
        tot = None
        paths = 0
        for da in (n, 1):
            for db in (n, 1):
                c = Ctx(n)
                a, ca = c.elem("a", da)
                b, cb = c.elem("b", db)
                want = spec(c, ca, cb)
                f = c.method(name, [a, b], trait)

                def th():
                    if inplace:
                        cell = Cell(a)
                        c.eng.call_fn(f, [Ref(cell), Ref(Cell(b)) if byref else b])
                        return cell.v
                    return c.eng.call_fn(f, [a, b])
                try:
                    paths += c.go(th, lambda v: c.check_elem(v, want, f"{name} ({da},{db})"))
                except Fail as x:
                    if x.cex is not None: x.cex.update(da=da, db=db, op=name)
                    raise
                tot = info(c.eng, paths)
        return tot
    return run


def unop(n, name, trait, spec, inplace=False):
    def run():
        paths = 0
        for da in (n, 1):
            c = Ctx(n)
            a, ca = c.elem("a", da)
            want = spec(c, ca)
            f = c.method(name, [a], trait)

            def th():
                if inplace:
                    cell = Cell(a); c.eng.call_fn(f, [Ref(cell)]); return cell.v
                return c.eng.call_fn(f, [a])
            try:
                paths += c.go(th, lambda v: c.check_elem(v, want, f"{name} ({da})"))
            except Fail as x:
                if x.cex is not None: x.cex.update(da=da, op=name)
                raise
        return info(c.eng, paths)
    return run


def sadd(c, a, b): return [x.add(y) for x, y in zip(a, b)]
def ssub(c, a, b): return [x.sub(y) for x, y in zip(a, b)]
def smul(c, a, b): return c.mulpoly(a, b)


def mul_scalar(n):
    def run():
        paths = 0
        for da in (n, 1):
            c = Ctx(n)
            a, ca = c.elem("a", da)
            k = c.eng.insym("usize", "k")
            f = c.method("mul_scalar", [])
            cnt = [0]

            def on(o):
                small = c.eng.cmp("<", k.e, P64)
                if o.kind == "panic":
                    # scalars not below the modulus are refused (C03)
                    if c.eng.prove(c.eng.bnot(small)) != "ok": raise Fail(f"mul_scalar panics: {o.val}", c.cex())
                    return
                cnt[0] += 1
                kk = c.fc.fromint(c.eng, k)
                c.check_elem(o.val, [x.mul(kk) for x in ca], f"mul_scalar ({da})")
            c.eng.on_path = on
            c.eng.explore(lambda: c.eng.call_fn(f, [Ref(Cell(a)), k]))
            paths += cnt[0]
        return info(c.eng, paths)
    return run


def embed(n, argty):
    """From<argty>: the constant polynomial"""
    def run():
        c = Ctx(n)
        F = c.F
        if argty == "Fr":
            x = F.var("a0"); want = x
        else:
            x = c.eng.insym(argty, "a0"); want = None
        f = c.eng.find_method(c.ty, "from", [x], trait="From")
        if not f: raise Unsupported("no From")
        cnt = [0]

        def on(o):
            if o.kind == "panic":
                if argty == "Fr": raise Fail("panics", c.cex())
                # From<u64>/From<usize> may refuse (panic on) a non-canonical value
                if c.eng.prove(c.eng.bnot(c.eng.cmp("<", x.e, P64))) != "ok": raise Fail(f"From<{argty}> panics: {o.val}", None)
                return
            cnt[0] += 1
            w = want if want is not None else c.fc.fromint(c.eng, x)
            c.check_elem(o.val, [w] + [F.const(0)] * (n - 1), f"From<{argty}>")
        c.eng.on_path = on
        c.eng.explore(lambda: c.eng.call_fn(f, [x]))
        return info(c.eng, cnt[0])
    return run


def elems(n):
    """new, from_vec, as_elements, to_be, dim: coefficients in order"""
    def run():
        c = Ctx(n)
        eng, F = c.eng, c.F
        xs = [F.var(f"a{i}") for i in range(n)]
        paths = 0
        paths += c.go(lambda: eng.call_fn(c.method("new", []), list(xs)), lambda v: c.check_elem(v, xs, "new"))
        paths += c.go(lambda: eng.call_fn(c.method("from_vec", []), [V(xs)]), lambda v: c.check_elem(v, xs, "from_vec"))
        for d in (n, 1):
            a, ca = c.elem("a", d)

            def post(v):
                v = eng.deref(v)
                if len(v.e) != d: raise Fail(f"as_elements: {len(v.e)} elements for dim {d}", c.cex())
                for i, (x, y) in enumerate(zip(v.e, ca)):
                    if not c.zero(x.sub(y)): raise Fail(f"as_elements: element {i}", c.cex(x.sub(y)))
            paths += c.go(lambda: eng.call_fn(c.method("as_elements", []), [Ref(Cell(a))]), post)
        a, ca = c.elem("a", 1)

        def post2(v):
            if not c.zero(v.sub(ca[0])): raise Fail("to_be", c.cex())
        paths += c.go(lambda: eng.call_fn(c.method("to_be", []), [Ref(Cell(a))]), post2)
        for nm, w in (("ZERO", 0), ("ONE", 1), ("ZEROS", 0), ("ONES", 1)):
            v = eng.path_value([{"n": c.c["name"], "a": []}, {"n": nm, "a": []}], None, Frame(eng.P.mods[c.c["mod"]], {}))
            c.check_elem(v, [F.const(w)] + [F.const(0)] * (n - 1), nm)
        for nm, w in (("zero", 0), ("one", 1)):
            v = eng.call_fn(c.method(nm, []), [])
            c.check_elem(v, [F.const(w)] + [F.const(0)] * (n - 1), nm)
        return info(eng, paths + 6)
    return run


def norm_poly(c, co):
    """determinant of multiplication by co: the norm"""
    n = c.n
    cols = []
    for j in range(n):
        e = [c.F.const(1 if i == j else 0) for i in range(n)]
        cols.append(c.mulpoly(co, e))

    def det(rows, colsl):
        if not rows: return c.F.const(1)
        r = rows[0]
        t = c.F.const(0)
        for k, j in enumerate(colsl):
            x = cols[j][r]
            if x.is_const() and x.cval() == 0: continue
            m = det(rows[1:], colsl[:k] + colsl[k + 1:]).mul(x)
            t = t.add(m, 1 if k % 2 == 0 else -1)
        return t
    return det(list(range(n)), list(range(n)))


def polymod(a, f, p):
    a = a[:]
    while len(a) >= len(f):
        c = a[-1]
        if c:
            for i in range(len(f)):
                a[len(a) - len(f) + i] = (a[len(a) - len(f) + i] - c * f[i]) % p
        a.pop()
    return a


def irreducible(n):
    """x^n - ... has no factor: x^(p^n) = x and x^p - x is invertible (n prime), Rabin's test"""
    def run():
        p = P64
        f = [-1 % p, -1 % p, 0, 1] if n == 3 else [-3 % p, 0, 0, 0, 0, 1]

        def mul(a, b):
            t = [0] * (2 * n)
            for i, x in enumerate(a):
                for j, y in enumerate(b): t[i + j] = (t[i + j] + x * y) % p
            return (polymod(t, f, p) + [0] * n)[:n]

        def pw(a, e):
            r = [1] + [0] * (n - 1)
            while e:
                if e & 1: r = mul(r, a)
                a = mul(a, a); e >>= 1
            return r
        x = [0, 1] + [0] * (n - 2)
        y = x
        for _ in range(n): y = pw(y, p)
        if y != x: raise Fail("x^(p^n) != x")
        xp = pw(x, p)
        g = [(u - v) % p for u, v in zip(xp, x)]
        # gcd(g, f) = 1
        a, b = f[:], g[:]
        while any(b):
            while b and b[-1] == 0: b.pop()
            inv = pow(b[-1], p - 2, p)
            b = [t * inv % p for t in b]
            a, b = b, (polymod(a, b, p) if len(b) > 1 else [])
        if len([t for t in a if t]) != 1 or len(a) != 1: raise Fail("common factor")
        return {"paths": 1}
    return run


def inverse(n, entry):
    """requires x != 0; ensures x * inv(x) = 1"""
    def run():
        paths = 0
        for da in (n, 1):
            c = Ctx(n)
            eng, F = c.eng, c.F
            a, ca = c.elem("a", da)
            N = norm_poly(c, ca) if da == n else ca[0].mul(ca[0].mul(ca[0])) if n == 3 else ca[0]
            kN = monic(F, N)

            def nonzero(e, d):
                # d is a nonzero multiple of the norm, which vanishes only at 0 (irreducibility lemma)
                return monic(F, d) == kN
            eng.nonzero = nonzero
            f = c.method(entry, [])
            used = [0]

            def th():
                # precondition: a != 0
                zs = [eng.zint(c.fc.asint(eng, x).e) for x in (ca if da == n else ca[:1])]
                eng.assume(B(z3.Or([z != 0 for z in zs])))
                r = eng.call_fn(f, [Ref(Cell(a))])
                return r

            def post(v):
                v = eng.deref(v)
                if isinstance(v, En):
                    if v.v != "Some": raise Fail("None for a nonzero element", c.cex())
                    v = v.a[0]
                d = v.f["dim"].e
                co = v.f["cube"].e
                if d == 1 and any(not c.zero(x) for x in co[1:]): raise Fail("scalar with upper coefficients", c.cex())
                if d not in (1, n): raise Fail("dim", c.cex())
                pr = c.mulpoly(ca, co)
                for i in range(n):
                    g = pr[i].sub(F.const(1 if i == 0 else 0))
                    if not c.zero(g): raise Fail(f"x*inv(x): coefficient {i} is not that of 1", c.cex(g))
            try:
                paths += c.go(th, post)
            except Fail as x:
                if x.cex is not None: x.cex.update(da=da, op=entry)
                raise
        return info(eng, paths)
    return run


def monic(F, v):
    if v.is_const(): return None
    it = sorted(v.d.items())
    inv = pow(it[-1][1], F.p - 2, F.p)
    return tuple((m, c * inv % F.p) for m, c in it)


def divide(n):
    """a / b = a * inv(b) by contracts of mul and inv"""
    def run():
        paths = 0
        for name, trait, inpl in (("div", "Div", False), ("div_assign", "DivAssign", True)):
            for da in (n, 1):
                for db in (n, 1):
                    c = Ctx(n)
                    eng, F = c.eng, c.F
                    a, ca = c.elem("a", da)
                    b, cb = c.elem("b", db)
                    i_, ci = c.elem("ib", n)
                    eng.fncontracts[(c.ty, "inv")] = lambda e, args: i_ if same(e.deref(args[0]), b) else bad()
                    eng.fncontracts[(c.ty, "inverse")] = lambda e, args: Some(i_) if same(e.deref(args[0]), b) else bad()
                    f = c.method(name, [a, b], trait)

                    def th():
                        if inpl:
                            cell = Cell(a); eng.call_fn(f, [Ref(cell), b]); return cell.v
                        return eng.call_fn(f, [a, b])
                    paths += c.go(th, lambda v: c.check_elem(v, c.mulpoly(ca, ci), name))
        return info(eng, paths)
    return run


def same(x, y): return vkey(x) == vkey(y)
def bad(): raise Undecided("inverse of something else")


def ring(n, cid):
    c = CFG[n]
    nm, fl = c["name"], c["file"]
    fld = f"F_p[x]/({'x^3-x-1' if n == 3 else 'x^5-3'})"
    o = []
    for name, tr, sp, inp, br in (("add", "Add", sadd, 0, 0), ("sub", "Sub", ssub, 0, 0), ("mul", "Mul", smul, 0, 0),
                                  ("add_assign", "AddAssign", sadd, 1, 0), ("sub_assign", "SubAssign", ssub, 1, 0), ("mul_assign", "MulAssign", smul, 1, 0),
                                  ("add_assign", "Field", sadd, 1, 1), ("sub_assign", "Field", ssub, 1, 1), ("mul_assign", "Field", smul, 1, 1)):
        o.append(Obl(f"{nm} {tr}::{name}", f"{fl} {tr}::{name}",
                     f"requires operands stored as scalar or in full form; ensures coefficients of a {name.split('_')[0]} b in {fld}, stored form valid", binop(n, name, tr, sp, bool(inp), bool(br))))
    o.append(Obl(f"{nm} Neg::neg", f"{fl} Neg::neg", "ensures -a", unop(n, "neg", "Neg", lambda c, a: [x.neg() for x in a])))
    o.append(Obl(f"{nm} Field::negate", f"{fl} Field::negate", "ensures -a", unop(n, "negate", "Field", lambda c, a: [x.neg() for x in a], True)))
    o.append(Obl(f"{nm} Field::square", f"{fl} Field::square", "ensures a*a", unop(n, "square", "Field", lambda c, a: c.mulpoly(a, a), True)))
    o.append(Obl(f"{nm} Field::double", f"{fl} Field::double", "ensures 2a", unop(n, "double", "Field", lambda c, a: [x.add(x) for x in a], True)))
    o.append(Obl(f"{nm} mul_scalar", f"{fl} FieldExtension::mul_scalar", "requires k < p (else refused); ensures k*a", mul_scalar(n)))
    for t in ("Fr", "u64", "u32", "usize", "u16", "u8"):
        o.append(Obl(f"{nm} From<{t}>", f"{fl} From<{t}>", "ensures the constant polynomial", embed(n, t)))
    o.append(Obl(f"{nm} construction", f"{fl} new from_vec as_elements to_be ZERO ONE ZEROS ONES zero one", "ensures coefficients in order, constants 0 and 1", elems(n)))
    o.append(Obl(f"{nm} modulus irreducible", "lemma", f"{fld} is a field (Rabin's test): the norm of a non-zero element is not zero", irreducible(n), "certificate"))
    o.append(Obl(f"{nm} inv", f"{fl} FieldExtension::inv", "requires a != 0; ensures a*inv(a) = 1", inverse(n, "inv")))
    o.append(Obl(f"{nm} Field::inverse", f"{fl} Field::inverse", "requires a != 0; ensures Some(y), a*y = 1", inverse(n, "inverse")))
    o.append(Obl(f"{nm} Div::div", f"{fl} Div, DivAssign", "ensures a * inv(b) (contract of inv)", divide(n)))
    return o


def c04(): return ring(3, "C04")
def c05(): return ring(5, "C05")


# ------------------------------------------------------------------ C06
def lexgt(eng, A, B_):
    t = z3.BoolVal(False)
    for x, y in reversed(list(zip(A, B_))):
        t = z3.Or(x > y, z3.And(x == y, t))
    return t


def compare(n, name):
    """the predicate, against lexicographic order of the coefficients as integers"""
    def run():
        paths = 0
        for da in (n, 1):
            for db in (n, 1):
                if name != "_eq" and da != db: continue
                c = Ctx(n)
                eng = c.eng
                a, ca = c.elem("a", da)
                b, cb = c.elem("b", db)
                f = c.method(name, [])
                cnt = [0]

                def on(o):
                    if o.kind == "panic": raise Fail(f"panics: {o.val}", cx())
                    cnt[0] += 1
                    A = [eng.zint(c.fc.asint(eng, x).e) for x in ca]
                    Bz = [eng.zint(c.fc.asint(eng, x).e) for x in cb]
                    eq = z3.And([x == y for x, y in zip(A, Bz)])
                    gt = lexgt(eng, A, Bz)
                    want = {"_eq": eq, "gt": gt, "geq": z3.Or(eq, gt), "lt": z3.And(z3.Not(eq), z3.Not(gt)), "leq": z3.Not(gt)}[name]
                    r = eng.check(want != z3.BoolVal(o.val))
                    if r == z3.unknown: raise Undecided("solver gave up")
                    if r == z3.sat: raise Fail(f"{name} ({da},{db}) answers {o.val} against the lexicographic order", cx(eng.solver.model()))

                def cx(m=None):
                    if m is None: m = eng.solver.model() if eng.check() == z3.sat else None
                    if m is None: return None
                    out = {"op": name, "da": da, "db": db}
                    for pre, co in (("a", ca), ("b", cb)):
                        for i, x in enumerate(co):
                            out[f"{pre}{i}"] = m.eval(eng.zint(c.fc.asint(eng, x).e), model_completion=True).as_long()
                    return out
                eng.on_path = on
                try:
                    eng.explore(lambda: eng.decide(eng.call_fn(f, [Ref(Cell(a)), Ref(Cell(b))])))
                except Unsupported as u:
                    if "recursion" in str(u): raise Fail(f"{name}: unbounded recursion", dict(zip([f"{p}{i}" for p in "ab" for i in range(n)], [1] * 2 * n), op=name, da=da, db=db))
                    raise
                paths += cnt[0]
        return info(eng, paths)
    return run


def iszero(n):
    def run():
        paths = 0
        for da in (n, 1):
            c = Ctx(n)
            eng = c.eng
            a, ca = c.elem("a", da)
            f = c.method("is_zero", [])

            def post(v):
                A = [eng.zint(c.fc.asint(eng, x).e) for x in ca]
                if eng.check(z3.And([x == 0 for x in A]) != z3.BoolVal(v)) != z3.unsat: raise Fail("is_zero", c.cex())
            paths += c.go(lambda: eng.decide(eng.call_fn(f, [Ref(Cell(a))])), post)
        return info(eng, paths)
    return run


class ExtPow(PowContract):
    def assoc_const(self, eng, n):
        return PW(self.tname, 0) if n in ("ONE", "ONES") else None


def expo(n):
    def run():
        ty = CFG[n]["ty"]
        paths = 0
        fns = None
        # every bit length L: e has its top bit at L-1, the lower bits are symbolic
        for L in range(0, 65):
            eng = Engine(prog(files(n)), tmo=30000)
            eng.contracts[ty] = ExtPow(ty)
            eng.merge_on = True
            bs = [eng.sym(f"b{i}", 0, 1) for i in range(max(0, L - 1))]
            e = 0 if L == 0 else 1 << (L - 1)
            for i, b in enumerate(bs): e = padd(e, pscale(b.e, 1 << i))
            f = eng.find_method(ty, "exp", [])

            def on(o):
                if o.kind == "panic": raise Undecided(f"panic {o.val}")
                v = eng.deref(o.val)
                if not isinstance(v, PW): raise Undecided("not a power")
                d = eng.norm(psub(v.e, e))
                if d != 0:
                    for k in [None] + list(range(len(bs))):
                        val = {s: 0 for s in pvars(d) | pvars(e)}
                        val.update(eng.sub)
                        if k is not None: val[next(iter(bs[k].e.d))[0]] = 1
                        if peval(d, val): raise Fail("exp computes another power", {"op": "exp", "e": peval(e, val), "da": n, "db": n})
                    raise Fail("exp computes another power", None)
            eng.on_path = on
            paths += len(eng.explore(lambda: eng.call_fn(f, [Ref(Cell(PW(ty, 1))), I("usize", e)])))
        return info(eng, paths)
    return run


def c06():
    o = []
    for n in (3, 5):
        nm, fl = CFG[n]["name"], CFG[n]["file"]
        o.append(Obl(f"{nm} _eq", f"{fl} FieldExtension::_eq", "ensures result <=> same coefficients (any stored forms)", compare(n, "_eq")))
        for k, t in (("gt", "a > b"), ("geq", "a >= b"), ("lt", "a < b"), ("leq", "a <= b")):
            o.append(Obl(f"{nm} {k}", f"{fl} FieldExtension::{k}", f"requires same stored form; ensures result <=> {t} lexicographically from the constant coefficient", compare(n, k)))
        o.append(Obl(f"{nm} is_zero", f"{fl} Field::is_zero", "ensures result <=> all coefficients 0", iszero(n)))
        o.append(Obl(f"{nm} exp", f"{fl} FieldExtension::exp", "ensures x^e for every e < 2^64 (ring contracts of square, mul)", expo(n)))
    return o
