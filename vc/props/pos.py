"""C10, C11: Poseidon.  The hash is run symbolically; field operations by contract.  In atom mode every value is a
linear form over atoms (inputs and S-box outputs) and an S-box output is the power of a monic linear form, so two
evaluations agree for every input exactly when their normal forms are the same (the normal form is canonical: equal
forms give equal values; different forms are then separated by a concrete input)."""
from oblig import *
from gl import GL
import os, json, random

FR = "field_gl::Fr"
D = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "poseidon_gl.json")))
GLF = ["starky/src/poseidon_opt.rs", "starky/src/poseidon_constants_opt.rs", "starky/src/constant.rs"] + GL


def textbook(F, st, C, M, rf, rp, alpha):
    t = len(st)
    for r in range(rf + rp):
        st = [a.add(F.const(C[r * t + i])) for i, a in enumerate(st)]
        for i in range(t if r < rf // 2 or r >= rf // 2 + rp else 1):
            x = st[i]
            y = x
            for _ in range(alpha - 1): y = y.mul(x)
            st[i] = y
        st = [lincomb(F, [(M[i][j], st[j]) for j in range(t)]) for i in range(t)]
    return st


def lincomb(F, ts):
    acc = F.const(0)
    for k, v in ts: acc = acc.add(v, k)
    return acc


def separate(F, names, a, b):
    """a concrete input on which the two values differ"""
    rng = random.Random(7)
    for _ in range(4):
        val = {F.atom(("var", n)): rng.randrange(F.p) for n in names}
        inp = {n: val[F.atom(("var", n))] for n in names}
        if a.eval(dict(val)) != b.eval(dict(val)): return inp
    return None


def result_words(eng, o, what):
    v = eng.deref(o.val)
    if not isinstance(v, En) or v.v not in ("Ok", "Err"): raise Undecided(f"{what}: result {v}")
    return v


def same(F, names, got, want, what):
    if len(got) != len(want): raise Fail(f"{what}: {len(got)} words, expected {len(want)}", {n: 0 for n in names})
    for i, (g, w) in enumerate(zip(got, want)):
        if not isinstance(g, FV): raise Undecided(f"{what}: word {i} is not a field value")
        if not g.sub(w).is_const() or g.sub(w).cval() != 0:
            cex = separate(F, names, g, w)
            if cex is None: raise Undecided(f"{what}: word {i}: normal forms differ but no separating input")
            raise Fail(f"{what}: word {i} differs from the textbook permutation", cex)


def c10():
    obls = []

    def hash_run(out):
        def run():
            F = Field(FR, P64, "atom")
            eng = Engine(prog(GLF))
            eng.contracts[FR] = FieldContract(F, FR)
            names = [f"i{k}" for k in range(8)] + [f"c{k}" for k in range(4)]
            inp = [F.var(n) for n in names]
            want = textbook(F, list(inp), D["C"], D["M"], 8, 22, 7)
            f = method_of(eng, "poseidon_opt::Poseidon", "hash")
            n = [0]

            def on(o):
                n[0] += 1
                if o.kind == "panic": raise Fail(f"panics: {o.val}", dict({k: 0 for k in names}, out=out))
                r = result_words(eng, o, "hash")
                if r.v != "Ok": raise Fail("refuses eight elements and a capacity of four", dict({k: 0 for k in names}, out=out))
                try: same(F, names, eng.deref(r.a[0]).e, want[:out], "hash")
                except Fail as x:
                    x.cex = dict(x.cex or {}, out=out); raise
            eng.on_path = on
            eng.explore(lambda: eng.call_fn(f, [Ref(Cell(St("poseidon_opt::Poseidon", {}))), Ref(Cell(V(inp[:8]))), Ref(Cell(V(inp[8:]))), I("usize", out)]))
            return info(eng, n[0])
        return run

    for out in range(13):
        obls.append(Obl(f"Poseidon::hash, {out} words", "poseidon_opt::Poseidon::hash",
                        f"for all i0..i7, c0..c3: Ok(first {out} words of the textbook permutation of (i, c))", hash_run(out), "vc (atom normal form)"))

    def refuses():
        cnt = 0
        F = Field(FR, P64, "atom")
        for ni, nc in [(k, 4) for k in list(range(0, 8)) + [9, 10, 12, 16]] + [(8, k) for k in (0, 1, 2, 3, 5, 8)]:
            eng = Engine(prog(GLF)); eng.contracts[FR] = FieldContract(F, FR)
            f = method_of(eng, "poseidon_opt::Poseidon", "hash")

            def on(o):
                nonlocal cnt
                cnt += 1
                if o.kind == "panic": raise Fail(f"panics on {ni} inputs, capacity {nc}: {o.val}", dict(ni=ni, nc=nc))
                if result_words(eng, o, "hash").v != "Err": raise Fail(f"accepts {ni} inputs, capacity {nc}", dict(ni=ni, nc=nc))
            eng.on_path = on
            eng.explore(lambda: eng.call_fn(f, [Ref(Cell(St("poseidon_opt::Poseidon", {}))), Ref(Cell(V([F.var(f"x{k}") for k in range(ni)]))),
                                                Ref(Cell(V([F.var(f"y{k}") for k in range(nc)]))), I("usize", 4)]))
        return info(eng, cnt)
    obls.append(Obl("Poseidon::hash refuses other lengths", "poseidon_opt::Poseidon::hash", "Err for 0..16 inputs other than 8, capacities other than 4", refuses))
    return obls


def method_of(eng, ty, name):
    f = eng.find_method(ty, name, [])
    if not f: raise rast.Missing(f"{ty}::{name}")
    return f


CURVE = {"bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
         "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513}
RP = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68]


def curve_engine(cv, F):
    files = [f"starky/src/poseidon_{cv}.rs", f"starky/src/poseidon_{cv}_opt.rs", f"starky/src/poseidon_{cv}_constants.rs",
             f"starky/src/poseidon_{cv}_constants_opt.rs", "starky/src/constant.rs", f"starky/src/field_{cv}.rs"]
    eng = Engine(prog(files))
    ty = f"field_{cv}::Fr"
    eng.contracts[ty] = FieldContract(F, ty)

    def from_hex(e, args):
        s = e.deref(args[0])
        if not isinstance(s, Str): raise Unsupported("from_hex of a non-literal")
        h = s.v[2:] if s.v[:2] == "0x" else s.v
        k = int(h, 16)
        return Ok(F.const(k)) if k < F.p else Err(Str("not in field"))
    eng.fncontracts[(None, "from_hex")] = from_hex
    eng.fncontracts[("ff", "from_hex")] = from_hex
    return eng


def spec(name, t):
    if not _spec:
        import gzip
        _spec.update(json.loads(gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "poseidon_curves.json.gz")).read()))
    return _spec[name][str(t)]


_spec = {}
# module -> (curve, parameter set, word returned by hash)
MODS = {"poseidon_bn128": ("bn128", "bn128", 0), "poseidon_bn128_opt": ("bn128", "bn128", 0),
        "poseidon_bls12381": ("bls12381", "bls12381", 0), "poseidon_bls12381_opt": ("bls12381", "bls12381_opt", 1)}


def want(F, ps, st):
    d = spec(ps, len(st))
    return textbook(F, list(st), [int(x, 16) for x in d["C"]], [[int(x, 16) for x in r] for r in d["M"]], 8, d["rp"], 5)


def c11():
    obls = []

    def width(mod, n):
        def run():
            cv, ps, w0 = MODS[mod]
            F = Field(f"field_{cv}::Fr", CURVE[cv], "atom")
            names = ["s"] + [f"i{k}" for k in range(n)]
            inp = [F.var(x) for x in names]
            w = want(F, ps, inp)
            eng = curve_engine(cv, F)
            cnt = [0]
            for which, out in [("hash_ex", n + 1), ("hash", None)] + ([("hash_ex", k) for k in range(n + 1)] if n <= 2 else []):
                f = method_of(eng, mod + "::Poseidon", which)

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Fail(f"{which} panics for {n} inputs: {o.val}", {x: 0 for x in names})
                    r = result_words(eng, o, which)
                    if r.v != "Ok": raise Fail(f"{which} refuses {n} inputs", {x: 0 for x in names})
                    if which == "hash": same(F, names, [eng.deref(r.a[0])], [w[w0]], f"hash of {n} inputs")
                    else: same(F, names, eng.deref(r.a[0]).e, w[:out], f"hash_ex of {n} inputs")
                eng.on_path = on
                a = [Ref(Cell(St(mod + "::Poseidon", {}))), Ref(Cell(V(inp[1:]))), Ref(Cell(inp[0]))]
                if which == "hash_ex": a.append(I("usize", out))
                eng.explore(lambda: eng.call_fn(f, a))
            return info(eng, cnt[0])
        return run

    def refuse(mod):
        def run():
            cv, ps, w0 = MODS[mod]
            F = Field(f"field_{cv}::Fr", CURVE[cv], "atom")
            eng = curve_engine(cv, F)
            cnt = [0]
            for n in [0] + list(range(17, 35)):
                for which in ("hash", "hash_ex"):
                    f = method_of(eng, mod + "::Poseidon", which)

                    def on(o):
                        cnt[0] += 1
                        if o.kind == "panic": raise Fail(f"{which} panics for {n} inputs: {o.val}", dict(n=n))
                        if result_words(eng, o, which).v != "Err": raise Fail(f"{which} accepts {n} inputs", dict(n=n))
                    eng.on_path = on
                    a = [Ref(Cell(St(mod + "::Poseidon", {}))), Ref(Cell(V([F.var(f"i{k}") for k in range(n)]))), Ref(Cell(F.var("s")))]
                    if which == "hash_ex": a.append(I("usize", 1))
                    eng.explore(lambda: eng.call_fn(f, a))
            return info(eng, cnt[0])
        return run
    for mod in MODS:
        for n in range(16, 0, -1):
            obls.append(Obl(f"{mod} {n} inputs", f"{mod}::Poseidon::hash_ex", f"for all inputs and initial state: hash_ex returns all {n + 1} words, hash one word, of the published permutation of width {n + 1} (Grain LFSR constants)", width(mod, n), "vc (atom normal form)"))
        obls.append(Obl(f"{mod} refuses", f"{mod}::Poseidon::hash", "0 or 17..34 inputs give an error", refuse(mod), "vc"))
    return obls
