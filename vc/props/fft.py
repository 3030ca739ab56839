"""C07-C09, C24: polynomial helpers, transforms, extension, index helpers.

The extension field is taken by its contracts (C04, C05): a commutative algebra over the Goldilocks field, so values
are kept as polynomials over the inputs with coefficients mod p (equal normal forms = equal for every input)."""
from oblig import *
from gl import GL
from seq import *

FR = "field_gl::Fr"
EX = "f3g::F3G"
FILES = ["starky/src/" + f for f in ("polutils.rs", "fft.rs", "fft_p.rs", "fft_worker.rs", "helper.rs", "constant.rs", "traits.rs", "f3g.rs")] + GL


class LField(Field):
    """polynomials with some variables invertible"""

    def __init__(self, *a): Field.__init__(self, *a); self.pair = {}


_mul = FV.mul


def mul(self, o):
    r = _mul(self, o)
    pr = getattr(self.F, "pair", None)
    if not pr: return r
    d = {}
    for m, c in r.d.items():
        l = list(m)
        for x in m:
            y = pr.get(x)
            if y is not None and x in l and y in l: l.remove(x); l.remove(y)
        k = tuple(l)
        v = (d.get(k, 0) + c) % self.F.p
        if v: d[k] = v
        else: d.pop(k, None)
    return FV(self.F, d)


FV.mul = mul


class Alg(FieldContract):
    def inverse(self, eng, a, unwrap=False):
        pr = self.F.pair
        if not a.is_const() and a.pr is None and len(a.d) == 1:
            (m, c), = a.d.items()
            if all(x in pr for x in m):
                r = FV(self.F, {tuple(sorted(pr[x] for x in m)): pow(c, -1, self.F.p)})
                return r if unwrap else Some(r)
        return FieldContract.inverse(self, eng, a, unwrap)

    def unit(self, name):
        """a variable that is not zero"""
        x, y = self.F.var(name), self.F.var("1/" + name)
        (i,), (j,) = next(iter(x.d)), next(iter(y.d))
        self.F.pair[i], self.F.pair[j] = j, i
        return x

    def static(self, eng, n, args):
        if n == "from" and len(args) == 1:
            x = eng.deref(args[0])
            if isinstance(x, FV) and x.F is not self.F:
                if x.is_const(): return self.F.const(x.cval())
                raise Unsupported("embedding of a base-field value")
        return FieldContract.static(self, eng, n, args)

    def method(self, eng, ref, v, n, args):
        if n == "inv" and isinstance(v, FV): return self.inverse(eng, v, unwrap=True)
        return FieldContract.method(self, eng, ref, v, n, args)


class Ctx:
    def __init__(self, workers=None, ops=None, let=None):
        self.eng = eng = Engine(prog(FILES))
        self.G = Field(FR, P64)
        self.g = eng.contracts[FR] = FieldContract(self.G, FR)
        self.K = LField(EX, P64)
        self.k = eng.contracts[EX] = Alg(self.K, EX)
        self.ta = [TyRef(EX)]
        if workers is not None:
            eng.fncontracts[("constant", "get_max_workers")] = lambda e, a: I("usize", workers)
        if ops: eng.consts[("constant", "MIN_OPS_PER_THREAD")], eng.consts[("constant", "MAX_OPS_PER_THREAD")] = I("usize", ops[0]), I("usize", ops[1])
        eng.letover = let or {}
        eng.fncontracts[("fft::FFT", "set_roots")] = self.roots

    def roots(self, e, a):
        """contract of set_roots(s): table i holds the powers of the root of order 2^i, for every i <= s"""
        s = e.conc(e.deref(a[1]))
        r = e.deref(a[0]).f["roots"]
        out = list(r.e)
        for i in range(s + 1):
            if i >= len(out): raise Panic("roots table")
            if i <= 6: out[i] = V([self.K.const(pow(W(i), j, P64)) for j in range(1 << i)])
            else: out[i] = Op("table", (Str(str(i)),), "roots table")
        e.store(a[0].c, a[0].p + (("f", "roots"),), V(out))
        return UNIT

    def fn(self, mod, n):
        m = self.eng.P.mods[mod]
        if n not in m.fns: raise rast.Missing(f"{mod}::{n}")
        return (m, None, m.fns[n], None)

    def call(self, mod, n, args): return self.eng.call_fn(self.fn(mod, n), args, self.ta)

    def vars(self, n, s="c"): return [self.K.var(f"{s}{i}") for i in range(n)]

    def same(self, got, want, what, cex):
        got = [self.eng.deref(x) for x in got]
        if len(got) != len(want): raise Fail(f"{what}: {len(got)} values instead of {len(want)}", cex)
        for i, (x, y) in enumerate(zip(got, want)):
            if not isinstance(x, FV): raise Undecided(f"{what}: value")
            if x.key() != y.key(): raise Fail(f"{what}: value {i} differs", cex)


def W(k): return pow(7, (P64 - 1) >> k, P64)


def lin(K, cs, vs):
    d = {}
    for c, v in zip(cs, vs):
        for m, x in v.d.items():
            d[m] = (d.get(m, 0) + c * x) % P64
    return FV(K, {m: c for m, c in d.items() if c})


def dft(K, v, w):
    n = len(v)
    pw = [pow(w, i, P64) for i in range(n)]
    return [lin(K, [pw[i * j % n] for j in range(n)], v) for i in range(n)]


def idft(K, v, w):
    n = len(v)
    ni = pow(n, -1, P64)
    return [x.scale(ni) for x in dft(K, v, pow(w, -1, P64))]


def one(c, thunk, check, what, cex):
    """every path: no panic, postcondition"""
    cnt = [0]

    def on(o):
        cnt[0] += 1
        if o.kind == "panic": raise Fail(f"{what}: panics: {o.val}", cex)
        check(o.val)
    c.eng.on_path = on
    c.eng.explore(thunk)
    return info(c.eng, cnt[0])


def horner(K, p, x):
    r = K.const(0)
    for v in reversed(p): r = r.mul(x).add(v)
    return r


def rng(a): return ",".join(map(str, a))


NFB_ = "vc (normal forms), bounded"


def c07():
    obls = []

    def ev(n):
        def run():
            c = Ctx()
            p, x = c.vars(n), c.K.var("x")
            cex = dict(t="poly", n=n)
            return one(c, lambda: c.call("polutils", "eval_pol", [Ref(Cell(V(p))), Ref(Cell(x))]),
                       lambda v: c.same([v], [horner(c.K, p, x)], f"{n} coefficients", cex), "eval_pol", cex)
        return run

    def axi(n):
        def run():
            c = Ctx()
            p, x, b = c.vars(n), c.K.var("x"), c.K.var("b")
            cex = dict(t="poly", n=n)
            cell = Cell(None)

            def th():
                cell.v = V(p)
                c.call("polutils", "pol_mul_axi", [Ref(cell), b, Ref(Cell(x))])
                return UNIT
            want, r = [], b
            for v in p: want.append(v.mul(r)); r = r.mul(x)
            return one(c, th, lambda v: c.same(cell.v.e, want, f"{n} coefficients", cex), "pol_mul_axi", cex)
        return run

    def inv(n):
        def run():
            c = Ctx()
            p = [c.k.unit(f"c{i}") for i in range(n)]
            cex = dict(t="poly", n=n)
            return one(c, lambda: c.call("polutils", "batch_inverse", [Ref(Cell(V(p)))]),
                       lambda v: c.same(c.eng.deref(v).e, [c.k.inverse(c.eng, x, True) for x in p], f"{n} elements", cex), "batch_inverse", cex)
        return run
    obls += c07all()
    for n in range(13):
        obls += [Obl(f"eval_pol {n}", "polutils::eval_pol", f"bounded ({n} coefficients): sum of c_i x^i for all coefficients and points", ev(n), NFB_),
                 Obl(f"pol_mul_axi {n}", "polutils::pol_mul_axi", f"bounded ({n} coefficients): coefficient i becomes c_i init acc^i", axi(n), NFB_),
                 Obl(f"batch_inverse {n}", "polutils::batch_inverse", f"bounded ({n} elements): position by position the inverse, for all non-zero elements", inv(n), NFB_)]
    return obls


ALL = "vc (loop invariants, normal forms + z3)"


def unb(run, mk, what, paths=400):
    """an obligation over sequences of arbitrary length: run(c) sets c.eng.invs and explores"""
    def go():
        box = []

        def mkeng():
            c = mk()
            c.eng.loop_bound, c.eng.max_paths = 16, paths
            box[:] = [c]
            return c.eng
        return prove_all(mkeng, lambda eng: run(box[0]), what)
    return go


def c07all():
    """the three functions for every length"""
    def ctx():
        c = Ctx()
        e = c.eng
        c.n = e.insym("usize", "n", 1, NMAX).e
        e.sizes = {"n": c.n}
        e.counts = [psub(c.n, 1), c.n]
        c.nm = lambda s, i: f"{s}[{i if isinstance(i, int) else i.key()}]"
        return c

    def one(c, th, ck, what):
        cnt = [0]

        def on(o):
            cnt[0] += 1
            if o.kind == "panic": raise Undecided(f"{what}: panics: {o.val}")
            if not ck(o.val): raise Undecided(f"{what}: another result {o.val}")
        c.eng.on_path = on
        c.eng.explore(th)
        return info(c.eng, cnt[0])

    def counters(c):
        n = c.n
        return [Inv("t", lambda t: I("usize", t)), Inv("t + 1", lambda t: I("usize", padd(t, 1))), Inv("n - t", lambda t: I("usize", psub(n, t))), Inv("n - 1 - t", lambda t: I("usize", psub(psub(n, 1), t)))]

    def ev(c):
        e, K, n = c.eng, c.K, c.n
        X = K.var("x")
        x = Family(e, lambda i: K.var(c.nm("c", i)))
        H = Family(e, lambda i: K.const(0) if e.decide(e.cmp("==", i, n)) else x(psub(n, 1)) if e.decide(e.cmp("==", i, psub(n, 1))) else K.var(c.nm("H", i)))
        step = lambda j: H(padd(j, 1)).mul(X).add(x(j))
        e.invs = [Inv("value of the coefficients seen so far", lambda t: H(psub(n, t)), lambda t: step(psub(psub(n, t), 1))),
                  Inv("value of the coefficients seen so far, the last apart", lambda t: H(psub(psub(n, 1), t)), lambda t: step(psub(psub(n, t), 2)), lambda v: same(e, v, step(psub(n, 1))))]
        e.invs += counters(c)
        return one(c, lambda: c.call("polutils", "eval_pol", [Ref(Cell(SQ(n, x))), Ref(Cell(X))]), lambda v: same(e, v, H(0)), "eval_pol")

    def axi(c):
        e, K, n = c.eng, c.K, c.n
        b, X = K.var("b"), K.var("x")
        x = Family(e, lambda i: K.var(c.nm("c", i)))
        A = Family(e, lambda i: K.const(1) if yes(e, e.cmp("==", i, 0)) else K.var(c.nm("acc^", i)))
        e.invs = [Inv("init acc^t", lambda t: b.mul(A(t)), lambda t: b.mul(A(t)).mul(X)),
                  Inv("the first t coefficients scaled", lambda t: SQ(n, lambda i: x(i).mul(b).mul(A(i)) if e.decide(e.cmp("<", i, t)) else x(i)))]
        cell = Cell()

        def th():
            cell.v = SQ(n, x)
            c.call("polutils", "pol_mul_axi", [Ref(cell), b, Ref(Cell(X))])
            return cell.v
        return one(c, th, lambda v: same(e, v, SQ(n, lambda i: x(i).mul(b).mul(A(i)))), "pol_mul_axi")

    def inv(c):
        e, K, n = c.eng, c.K, c.n
        x = Family(e, lambda i: c.k.unit(c.nm("c", i)))
        ivx = lambda i: c.k.inverse(e, x(i), True)
        P = Family(e, lambda i: x(0) if e.decide(e.cmp("==", i, 0)) else c.k.unit(c.nm("P", i)))       # x_0 ... x_i
        ivP = lambda i: c.k.inverse(e, P(i), True)
        m1 = lambda t, k: e.norm(psub(psub(n, k), t))
        zero = K.const(0)
        def pre(i, t, step): return P(psub(i, 1)).mul(x(i)) if step and e.decide(e.cmp("==", i, t)) else P(i)
        def filled(t, step=None):      # places 0..t hold prefix products
            return SQ(n, lambda i: pre(i, step, step is not None) if e.decide(e.cmp("<=", i, t)) else zero)
        def pushed(t, step=None): return SQ(t, lambda i: pre(i, step, step is not None and step != 0))
        e.invs = [Inv("prefix products up to t", lambda t: filled(t), lambda t: filled(padd(t, 1), padd(t, 1))),
                  Inv("t prefix products", lambda t: pushed(t), lambda t: pushed(padd(t, 1), t)),
                  Inv("product of the first t", lambda t: K.const(1) if t == 0 else P(psub(t, 1)), lambda t: (K.const(1) if t == 0 else P(psub(t, 1))).mul(x(t))),
                  Inv("inverse of the product of the first n - t", lambda t: ivP(psub(m1(t, 1), 1)).mul(ivx(m1(t, 1))) if not e.decide(e.cmp("==", t, psub(n, 1))) else ivx(0),
                      lambda t: ivP(psub(m1(t, 1), 1)), lambda v: same(e, v, ivP(psub(n, 1)))),
                  Inv("the last t places inverted", lambda t: SQ(n, lambda i: ivx(i) if e.decide(e.cmp(">=", i, psub(n, t))) else zero))]
        e.invs += counters(c)
        return one(c, lambda: c.call("polutils", "batch_inverse", [Ref(Cell(SQ(n, x)))]), lambda v: same(e, v, SQ(n, ivx)), "batch_inverse")
    return [Obl("eval_pol, every length", "polutils::eval_pol", "for every number of coefficients: the Horner value of all of them (H(n) = 0, H(j) = H(j+1) x + c_j)", unb(ev, ctx, "eval_pol"), ALL),
            Obl("pol_mul_axi, every length", "polutils::pol_mul_axi", "for every number of coefficients: coefficient i becomes c_i init acc^i", unb(axi, ctx, "pol_mul_axi"), ALL),
            Obl("batch_inverse, every length", "polutils::batch_inverse", "for every number of non-zero elements: position by position the inverse", unb(inv, ctx, "batch_inverse"), ALL)]


def split(v, np): return [v[k::np] for k in range(np)]
def weave(cols): return [c[i] for i in range(len(cols[0])) for c in cols]


def c08():
    obls = []

    def serial(nb, inverse, before=()):
        def run():
            c = Ctx()
            p = c.vars(1 << nb)
            cex = dict(t="fft", nb=nb, np=1)
            if before: cex.update(t="ffth", before=[[x, b] for x, b in before] + [[f, nb] for f in ("ifft" if inverse else "fft",)])
            f = "ifft" if inverse else "fft"
            ty = "fft::FFT"

            def th():
                o = Cell(c.eng.call_fn(c.eng.find_method(ty, "new", []), [], c.ta, {"F": TyRef(EX)}))
                def call(f, p):
                    m = c.eng.find_method(ty, f, [Ref(o), Ref(Cell(V(p)))])
                    if not m: raise rast.Missing(f"FFT::{f}")
                    return c.eng.call_fn(m, [Ref(o), Ref(Cell(V(p)))], None, {"F": TyRef(EX)})
                for k, (g, b) in enumerate(before): call(g, c.vars(1 << b, f"before{k}_"))
                return call(f, p)
            want = (idft if inverse else dft)(c.K, p, W(nb))
            return one(c, th, lambda v: c.same(c.eng.deref(v).e, want, f"size {1 << nb}", cex), f, cex)
        return run

    def roots(s, before=()):
        def run():
            c = Ctx()
            del c.eng.fncontracts[("fft::FFT", "set_roots")]
            cex = dict(t="fft", nb=s, np=1)
            m = c.eng.find_method("fft::FFT", "set_roots", [])
            if not m: raise rast.Missing("FFT::set_roots")
            cell = Cell()

            def th():
                cell.v = St("fft::FFT", {"roots": V([V([])] * 32)})
                for b in before: c.eng.call_fn(m, [Ref(cell), I("usize", b)], None, {"F": TyRef(EX)})
                c.eng.call_fn(m, [Ref(cell), I("usize", s)], None, {"F": TyRef(EX)})
                return UNIT

            def ck(v):
                t = c.eng.deref(cell.v.f["roots"]).e
                if len(t) < 32: raise Fail("tables lost", cex)
                for i in range(s + 1):
                    c.same(c.eng.deref(t[i]).e, [c.K.const(pow(W(i), j, P64)) for j in range(1 << i)], f"table {i}", cex)
            return one(c, th, ck, "set_roots", cex)
        return run

    def par(nb, np, inverse, workers, let):
        def run():
            c = Ctx(workers=workers, let=let)
            p = c.vars(np << nb)
            cex = dict(t="fft", nb=nb, np=np)
            cell = Cell()

            def th():
                cell.v = V([c.K.var(f"old{i}") for i in range(np << nb)])
                c.call("fft_p", "ifft" if inverse else "fft", [Ref(Cell(V(p))), I("usize", np), I("usize", nb), Ref(cell)])
                return UNIT
            want = weave([(idft if inverse else dft)(c.K, x, W(nb)) for x in split(p, np)])
            return one(c, th, lambda v: c.same(cell.v.e, want, f"size {1 << nb} x {np}", cex), "transform", cex)
        return run
    for s in range(9): obls.append(Obl(f"root tables {s}", "fft::FFT::set_roots", f"bounded (s = {s}): table i holds the 2^i powers of 7^((p-1)/2^i)", roots(s), NFB_))
    for s, b in ((3, (5,)), (5, (3,)), (4, (4,)), (6, (1, 3)), (0, (4,)), (2, (6, 1))):
        obls.append(Obl(f"root tables {s} after {b}", "fft::FFT::set_roots", f"bounded (s = {s}, after earlier calls for {b}): table i holds the 2^i powers of 7^((p-1)/2^i)", roots(s, b), NFB_))
    for nb in range(6):
        for i in (False, True):
            f = "ifft" if i else "fft"
            d = "the coefficients whose values are the input" if i else "value at every power of the primitive root, natural order"
            obls.append(Obl(f"{f} {1 << nb}", f"fft::FFT::{f}", f"bounded (size {1 << nb}): {d}, for all inputs", serial(nb, i), NFB_))
            if nb < 4:
                for b in ([("fft", 1)], [("ifft", 2)], [("fft", 4), ("ifft", 4)], [("ifft", 0), ("ifft", 3), ("fft", 3)]):
                    obls.append(Obl(f"{f} {1 << nb} after {' '.join(f'{x} {1 << y}' for x, y in b)}", f"fft::FFT::{f}", f"bounded (size {1 << nb}, an object used before): {d}, for all inputs", serial(nb, i, tuple(b)), NFB_))
            for np in ((1, 2, 3) if nb < 5 else (1,)):
                for w in (1, 7):
                    obls.append(Obl(f"parallel {f} {1 << nb} x {np}, {w} workers", f"fft_p::{f}", f"bounded (size {1 << nb}, {np} polynomials): {d}, for all inputs", par(nb, np, i, w, {}), NFB_))
            for b in range(1, nb):
                for np in (1, 2):
                    if nb == 5 and np == 2: continue
                    obls.append(Obl(f"parallel {f} {1 << nb} x {np}, blocks of {1 << b}", f"fft_p::{f}", f"bounded (size {1 << nb}, {np} polynomials, the two block-size literals of the function replaced by {b}): {d}, for all inputs",
                                    par(nb, np, i, 7, {"minblockbits": b, "maxblockbits": b}), NFB_))
    return obls


def c09():
    obls = []

    def want(c, p, np, nb, xb):
        out = []
        for col in split(p, np):
            k = [x.scale(pow(49, i, P64)) for i, x in enumerate(idft(c.K, col, W(nb)))]
            k += [c.K.const(0)] * ((1 << (nb + xb)) - len(k))
            out.append(dft(c.K, k, W(nb + xb)))
        return weave(out)

    def inter(nb, np, xb, workers, ops, let):
        def run():
            c = Ctx(workers=workers, ops=ops, let=let)
            p = c.vars(np << nb)
            cex = dict(t="lde", nb=nb, np=np, xb=xb)
            cell = Cell()

            def th():
                cell.v = V([c.K.const(0)] * (np << (nb + xb)))
                c.call("fft_p", "interpolate", [Ref(Cell(V(p))), I("usize", np), I("usize", nb), Ref(cell), I("usize", nb + xb)])
                return UNIT
            w = want(c, p, np, nb, xb)
            return one(c, th, lambda v: c.same(cell.v.e, w, "extension", cex), "interpolate", cex)
        return run

    def ser(nb, xb):
        def run():
            c = Ctx()
            p = c.vars(1 << nb)
            cex = dict(t="lde", nb=nb, np=1, xb=xb)
            w = want(c, p, 1, nb, xb)
            return one(c, lambda: c.call("polutils", "extend_pol", [Ref(Cell(V(p))), I("usize", xb)]),
                       lambda v: c.same(c.eng.deref(v).e, w, "extension", cex), "extend_pol", cex)
        return run

    def prep(nb, np, workers, ops):
        def run():
            c = Ctx(workers=workers, ops=ops)
            p = c.vars(np << nb)
            cex = dict(t="lde", nb=nb, np=np, xb=1)
            cell = Cell()

            def th():
                cell.v = V(p)
                c.call("fft_p", "interpolate_prepare", [Ref(cell), I("usize", np), I("usize", nb)])
                return UNIT
            ni = pow(1 << nb, -1, P64)
            w = [x.scale(ni * pow(49, i // np, P64)) for i, x in enumerate(p)]
            return one(c, th, lambda v: c.same(cell.v.e, w, "scaling", cex), "interpolate_prepare", cex)
        return run
    for nb in range(4):
        for xb in range(0, 3 if nb < 3 else 2):
            obls.append(Obl(f"extend_pol {1 << nb} by {xb}", "polutils::extend_pol", f"bounded (size {1 << nb} to {1 << nb + xb}): shifted-coset values of the same polynomial, for all inputs", ser(nb, xb), NFB_))
            for np in (1, 2, 3):
                obls.append(Obl(f"interpolate {1 << nb} x {np} by {xb}", "fft_p::interpolate", f"bounded (size {1 << nb} to {1 << nb + xb}, {np} polynomials): shifted-coset values of the same polynomial, for all inputs", inter(nb, np, xb, 7, None, {}), NFB_))
            for b in range(1, nb + xb):
                obls.append(Obl(f"interpolate {1 << nb} x 2 by {xb}, blocks of {1 << b}", "fft_p::interpolate", f"bounded (the same, 2 polynomials, block-size literals replaced by {b}, two rows per thread)", inter(nb, 2, xb, 2, (2, 4), {"minblockbits": b, "maxblockbits": b}), NFB_))
    for nb in range(5):
        for np in (1, 2, 3):
            for w, ops in ((1, None), (2, (1, 100)), (3, (2, 4)), (7, (1, 1)), (64, (5, 3)), (4, (0, 0))):
                obls.append(Obl(f"prepare {1 << nb} x {np}, {w} workers, {ops or 'default'}", "fft_p::interpolate_prepare", f"bounded (size {1 << nb}, {np} polynomials, {w} workers, operations per thread {ops or 'as in the source'}): row i is multiplied by 49^i / n", prep(nb, np, w, ops), NFB_))
    return obls


def rev(x, k): return int(format(x, f"0{k}b")[::-1], 2) if k else 0


def c24():
    obls = []

    def lg():
        c = Ctx()
        f = c.fn("helper", "log2_any")
        v = c.eng.insym("usize", "v", 0, 2**32 - 1)
        cnt = [0]

        def on(o):
            cnt[0] += 1
            if o.kind == "panic": raise Fail("log2_any panics", {})
            r = c.eng.norm(o.val.e)
            if not isinstance(r, int): raise Undecided("log2_any: not decided on a path")
            if r: need(c.eng, c.eng.cmp(">=", v.e, 1 << r), f"log2_any gives {r} for a value below 2^{r}", {"v": v})
            need(c.eng, c.eng.cmp("<", v.e, 1 << (r + 1)), f"log2_any gives {r} for a value of at least 2^{r + 1}", {"v": v})
        c.eng.on_path = on
        c.eng.explore(lambda: c.eng.call_fn(f, [v]))
        return info(c.eng, cnt[0])
    obls.append(Obl("log2_any", "helper::log2_any", "for every 32-bit value: the position of the highest set bit (0 for 0)", lg, "vc + z3"))

    def br(k, hist):
        def run():
            c = Ctx()
            cex = dict(t="br", k=k)
            f = c.fn("fft_p", "BR")

            def th():
                return T([c.eng.call_fn(f, [I("usize", x), I("usize", kk)]) for kk, x in hist])

            def ck(v):
                for (kk, x), r in zip(hist, v.e):
                    if r.e != rev(x, kk): raise Fail(f"BR({x}, {kk}) = {r.e}", dict(t="br", hist=[y for p in hist for y in p]))
            return one(c, th, ck, "BR", dict(t="br", hist=[y for p in hist for y in p]))
        return run
    def brany(d):
        """any history: the cache may hold any number of indices of this size (each below 2^d with its reversal), or none, and other sizes"""
        n = 1 << d

        def R(e, i):
            i = e.norm(i)
            if not e.decide(e.cmp("<", i, n)): return ANY
            x = 0
            for j in range(d):
                l, i = e.split(i, 1)
                x = padd(x, pscale(l, 1 << (d - 1 - j)))
            return I("usize", e.norm(x))

        def mk():
            c = Ctx()
            e = c.eng
            e.loop_bound, e.max_paths = 40, 20000
            c.L = e.insym("usize", "cached", 0, NMAX).e
            c.x = 0
            for j in range(d): c.x = padd(c.x, pscale(e.sym("x", 0, 1).e, 1 << j))
            e.sizes = {"cached": c.L}
            val = lambda i: R(e, i)
            c.lo = lambda: c.l if c.there else 0
            e.invs = [Inv("indices cached up to t", lambda t: SQ(padd(c.lo(), t), val))]

            def tmake(it, N):
                e.cutno += 1
                if e.decide(B(z3.Bool(f"end{e.cutno}"))): i = n
                else:
                    i = 0
                    for j in range(d): i = padd(i, pscale(e.sym("i", 0, 1).e, 1 << j))
                return psub(i, c.lo())
            e.tmake = tmake
            c.val = val
            return c

        def run(c):
            e = c.eng
            f = c.fn("fft_p", "BR")
            key = ("fft_p", "BR_CACHE")
            cnt = [0]
            other = SQ(e.sym("other", 0, NMAX).e, lambda i: I("usize", e.sym("o", 0, 2**64 - 1).e))

            def th():
                c.there = e.decide(B(z3.Bool("cached before")))
                c.l = c.L
                if c.there and e.decide(e.cmp("<=", c.L, n)) and e.decide(e.cmp(">=", c.L, n - 8)):
                    c.l = max(n - 8, 0)
                    while not e.decide(e.cmp("==", c.L, c.l)): c.l += 1
                m = [T([I("usize", d), SQ(c.l, c.val)])] if c.there else []
                m.append(T([I("usize", d + 1), other]))
                e.globs[key] = Cell(St("Mutex", {"v": St("HashMap", {"m": V(m)})}))
                x = n if e.decide(B(z3.Bool("one past"))) else c.x
                r = e.call_fn(f, [I("usize", x), I("usize", d)])
                m = {e.deref(t.e[0]).e: e.deref(t.e[1]) for t in e.globs[key].v.f["v"].f["m"].e}
                if set(m) != {d, d + 1} or m[d + 1] is not other: raise Undecided("other cached sizes change")
                if x is not n and not same(e, r, c.val(x)): raise Undecided("another index")
                if not yes(e, e.cmp(">", seqlen(e, m[d]), n)): raise Undecided("not every index is cached")
                if not same(e, m[d], SQ(seqlen(e, m[d]), c.val)): raise Undecided("the cache does not hold the reversals any more")
                return UNIT

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"panics: {o.val}")
            e.on_path = on
            e.explore(th)
            return info(e, cnt[0])
        return unb(run, mk, "BR", 6000)
    for d in range(33):
        obls.append(Obl(f"BR of {d} bits, any history", "fft_p::BR", f"for every index of {d} bits and any contents of the cache that earlier calls can leave: the bits reversed, and the cache is left such", brany(d), ALL))

    def brsany(d):
        n = 1 << d

        def mk():
            c = Ctx()
            e = c.eng
            c.a = e.insym("usize", "start", 0, n - 1).e
            c.b = e.insym("usize", "end", 1, n).e
            c.L = e.insym("usize", "cached", n + 1, NMAX).e
            e.sizes = {"start": c.a, "end": c.b}
            e.revtop = n
            c.val = lambda i: I("usize", revsym(e, i))
            e.invs = []

            def BR(e, a):
                x, k = (e.norm(e.deref(v).e) for v in a)
                if k != d or not yes(e, e.cmp("<=", x, n)): raise Undecided("BR of something else")
                e.globs[("fft_p", "BR_CACHE")] = Cell(St("Mutex", {"v": St("HashMap", {"m": V([T([I("usize", d), SQ(c.L, c.val)])])})}))
                return c.val(x)
            e.fncontracts[("fft_p", "BR")] = BR
            return c

        def run(c):
            e = c.eng
            cnt = [0]

            def th():
                e.revs = {}
                e.assume(e.cmp("<", c.a, c.b))
                r = c.call("fft_p", "BRs", [I("usize", c.a), I("usize", c.b), I("usize", d)])
                if not same(e, r, SQ(psub(c.b, c.a), lambda i: c.val(padd(c.a, i)))): raise Undecided("BRs: other indices")
                return UNIT

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"BRs: panics: {o.val}")
            e.on_path = on
            e.explore(th)
            return info(e, cnt[0])
        return unb(run, mk, "BRs")

    def revsym(e, i):
        """the reversal of i as an unknown of its own"""
        i = e.norm(i)
        t = e.revs = getattr(e, "revs", {})
        k = i if isinstance(i, int) else i.key()
        if not e.revtop: return 0
        if k not in t: t[k] = e.sym(f"rev{len(t)}_", 0, e.revtop).e
        return t[k]

    def bitrevany(nb, fname):
        n = 1 << nb

        def mk():
            c = Ctx()
            e = c.eng
            e.revtop = n - 1
            e.revs = {}
            c.np = e.insym("usize", "np", 1, 1 << 20).e
            e.sizes = {"np": c.np}
            key = lambda i: i if isinstance(i, int) else i.key()
            src = lambda i: c.K.var(f"s[{key(e.norm(i))}]")
            old = lambda i: c.K.var(f"o[{key(e.norm(i))}]")
            N = c.N = e.norm(pscale(c.np, n))
            c.qr = {}

            def new(i):
                i = e.norm(i)
                if key(i) in c.qr:
                    q, r = c.qr[key(i)]
                    return src(padd(pmul(revsym(e, q), c.np), r))
                return c.K.var(f"n[{key(i)}]")

            def tmake(it, N_):
                q, r = e.sym("q", 0, n - 1).e if n > 1 else 0, e.sym("r", 0, 1 << 20).e
                e.assume(e.cmp("<", r, c.np))
                e.assume(e.cmp(">=", pmul(psub(n - 1, q), c.np), 0))       # products of non-negative factors
                e.assume(e.cmp(">=", pmul(q, c.np), 0))
                t = padd(pmul(q, c.np), r)
                c.qr[key(e.norm(t))] = q, r
                rv = revsym(e, q)
                e.assume(e.cmp(">=", pmul(psub(n - 1, rv), c.np), 0))
                e.assume(e.cmp(">=", pmul(rv, c.np), 0))
                return t
            e.tmake = tmake
            e.invs = [Inv("the first t places filled", lambda t: SQ(N, lambda i: new(i) if e.decide(e.cmp("<", i, t)) else old(i)))]

            def BRs(e, a):
                a, b, k = (e.norm(e.deref(v).e) for v in a)
                if (a, b, k) != (0, n, nb): raise Undecided("other indices")
                return SQ(n, lambda i: I("usize", revsym(e, i)))
            e.fncontracts[("fft_p", "BRs")] = BRs
            c.old, c.src, c.new = old, src, new
            return c

        def run(c):
            e = c.eng
            cnt = [0]
            cell = Cell()

            def th():
                e.revs.clear(); c.qr.clear()
                cell.v = SQ(c.N, c.old)
                c.call("fft_p", fname, [Ref(cell), Ref(Cell(SQ(c.N, c.src))), I("usize", c.np), I("usize", nb)])
                if not same(e, cell.v, SQ(c.N, c.new)): raise Undecided(f"{fname}: another result")
                return UNIT

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"{fname}: panics: {o.val}")
            e.on_path = on
            e.explore(th)
            return info(e, cnt[0])
        return unb(run, mk, fname)
    for d in range(33):
        obls.append(Obl(f"BRs of {d} bits", "fft_p::BRs", f"for every range of indices of {d} bits: their reversals in order (by the contract of BR)", brsany(d), ALL))
        obls.append(Obl(f"bit_reverse {1 << d}, any number of polynomials", "fft_p::bit_reverse", "for every number of polynomials: row i is row rev(i) (by the contract of BRs)", bitrevany(d, "bit_reverse"), ALL))
    import random
    R = random.Random(24)
    for k in range(7):
        h = [(kk, x) for kk in (k,) for x in R.sample(range(1 << k), 1 << k)]
        obls.append(Obl(f"BR of {k} bits", "fft_p::BR", f"bounded ({k} bits): every index, in any order", br(k, h), NFB_))
    for s in range(6):
        h = [(kk, R.randrange(1 << kk)) for kk in [R.randrange(8) for _ in range(8)]]
        obls.append(Obl(f"BR history {s}", "fft_p::BR", f"bounded: {h}", br(0, h), NFB_))

    def perm(fname, nb, np, want, extra=()):
        def run():
            c = Ctx()
            n = 1 << nb
            src = c.vars(n * np)
            cex = dict(t="trans", nb=nb, np=np, tb=extra[0] if extra else 0)
            cell = Cell()

            def th():
                cell.v = V([c.K.var(f"old{i}") for i in range(n * np)])
                c.call("fft_p", fname, [Ref(cell), Ref(Cell(V(src))), I("usize", np), I("usize", nb)] + [I("usize", x) for x in extra])
                return UNIT
            return one(c, th, lambda v: c.same(cell.v.e, want(c, src, n), fname, cex), fname, cex)
        return run

    def transany(nb, tb):
        """any number of polynomials: the places are written in order, so after i, j, k outer steps the first (i h + j) np + k hold the new values"""
        n, w = 1 << nb, 1 << tb
        h = n // w

        def mk():
            c = Ctx()
            e = c.eng
            c.np = e.insym("usize", "np", 1, 1 << 20).e
            e.sizes = {"np": c.np}
            key = lambda i: i if isinstance(i, int) else i.key()
            src = lambda i: c.K.var(f"s[{key(e.norm(i))}]")
            at = lambda x: e.norm(padd(pmul(padd(pscale(x[0], h), x[1]), c.np), x[2]))

            def new(i, x=()):
                if len(x) == 3 and key(e.norm(i)) == key(at(x)): return src(padd(pmul(padd(pscale(x[1], w), x[0]), c.np), x[2]))
                return c.K.var(f"n[{key(e.norm(i))}]")
            old = lambda i: c.K.var(f"o[{key(e.norm(i))}]")
            first = lambda m, x=(): SQ(e.norm(pscale(c.np, n)), lambda i: new(i, x) if e.decide(e.cmp("<", i, m)) else old(i))
            e.invs = [Inv("the places written in order", lambda t: first(at((e.tstack + [t, 0, 0])[:3])), lambda t: first(at((e.tstack + [padd(t, 1), 0, 0])[:3]), e.tstack + [t]))]

            def lemma(t, N):
                # products of non-negative factors
                if len(e.tstack) < 2:
                    e.assume(e.cmp(">=", pmul(psub(psub(N, 1), t), c.np), 0))
                    e.assume(e.cmp(">=", pmul(t, c.np), 0))
            e.cutall = lemma
            c.old, c.src, c.new = old, src, new
            return c

        def run(c):
            e = c.eng
            cnt = [0]
            cell = Cell()
            N = e.norm(pscale(c.np, n))

            def th():
                cell.v = SQ(N, c.old)
                c.call("fft_p", "transpose", [Ref(cell), Ref(Cell(SQ(N, c.src))), I("usize", c.np), I("usize", nb), I("usize", tb)])
                if not same(e, cell.v, SQ(N, c.new)): raise Undecided("transpose: another result")
                return UNIT

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"transpose: panics: {o.val}")
            e.on_path = on
            e.explore(th)
            return info(e, cnt[0])
        return unb(run, mk, "transpose")
    def every(fs):
        def run():
            tot = {}
            for f in fs:
                for k, v in f().items():
                    tot[k] = sorted(set(tot.get(k, [])) | set(v)) if isinstance(v, list) else round(tot.get(k, 0) + v, 3)
            return tot
        return run
    for nb in range(33):
        obls.append(Obl(f"transpose {1 << nb} elements, any number of polynomials", "fft_p::transpose", f"for every number of polynomials and 0 to {nb} transposed bits: the element at (j, i) goes to (i, j)", every([transany(nb, tb) for tb in range(nb + 1)]), ALL))
    for nb in range(5):
        for np in (1, 2, 3):
            for tb in range(nb + 1):
                w, h = 1 << tb, 1 << (nb - tb)
                obls.append(Obl(f"transpose {1 << nb} by {w}, {np} polynomials", "fft_p::transpose", f"bounded ({h} x {w}, {np} polynomials): every element to the transposed place",
                                perm("transpose", nb, np, lambda c, s, n, w=w, h=h, np=np: [s[((p % h) * w + p // h) * np + k] for p in range(n) for k in range(np)], (tb,)), NFB_))
            obls.append(Obl(f"bit_reverse {1 << nb}, {np} polynomials", "fft_p::bit_reverse", f"bounded ({1 << nb} rows, {np} polynomials): row i is row rev(i)",
                            perm("bit_reverse", nb, np, lambda c, s, n, nb=nb, np=np: [s[rev(p, nb) * np + k] for p in range(n) for k in range(np)]), NFB_))
    return obls
