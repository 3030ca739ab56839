"""C26 (numerals), C18 (JSON of field elements and digests), C23 (joined inputs), C27 (curve points)."""
from oblig import *
from files import *
from seq import AM, SQ, Inv, Family, same, yes, witness, prove_all, amparts, padd, psub, NMAX

P = P64


def explore(eng, thunk, on):
    n = [0]

    def path(o):
        n[0] += 1
        on(o)
    eng.on_path = path
    eng.explore(thunk)
    return info(eng, n[0])


# ------------------------------------------------------------------ C26
def c26():
    obls = []
    F = "starky/src/types.rs"

    def ob(name, what, make):
        def run():
            eng = install(Engine(prog([F])), P, 8)
            m = eng.P.mods["types"]
            st = {}

            def thunk():
                s, st["val"] = make(eng)
                return eng.call_fn((m, None, m.fns["parse_pil_number"], None), [Ref(Cell(s))])

            def on(o):
                cex = dict(val=st["val"] if isinstance(st["val"], int) else None, name=name)
                if o.kind == "panic":
                    raise Fail(f"panics: {o.val}", dict(cex, **model(eng, eng.prove(False), st["val"])))
                r = eng.deref(o.val)
                k = eng.prove(eng.band(eng.cmp(">=", r.e, 0), lambda: eng.cmp("<", r.e, P)))
                if k == "unknown": raise Undecided("solver gave up")
                if k != "ok": raise Fail("not below the modulus", dict(cex, **model(eng, k, st["val"])))
                d = eng.norm(psub(r.e, st["val"]))
                if isinstance(d, int):
                    if d % P: raise Fail(f"{st['val']} is read as {r.e}", cex)
                    return
                q = eng.solver
                t = eng.check(eng.zint(d) % P != 0)
                if t == z3.unknown: raise Undecided("solver gave up")
                if t != z3.unsat: raise Fail("not the value modulo the prime", dict(cex, **model(eng, ("no", eng.solver.model()), st["val"])))
            return explore(eng, thunk, on)
        obls.append(Obl(name, F + " parse_pil_number", what, run))

    def model(eng, k, v):
        if isinstance(v, int): return dict(val=v)
        if isinstance(k, tuple) and k[1] is not None: return dict(val=k[1].eval(eng.zint(v), model_completion=True).as_long())
        return {}
    N = NumStr()
    for neg in (False, True):
        for base in (10, 16):
            def make(eng, neg=neg, base=base):
                x = eng.sym("digits", 0, HUGE)
                return N.new(neg, base, x.e), pscale(x.e, -1) if neg else x.e
            ob(f"{'negative ' if neg else ''}{'hexadecimal' if base == 16 else 'decimal'} numeral", "any value, however large: its remainder modulo the Goldilocks prime", make)
    vals = [0, 1, P - 1, P, P + 1, 2 * P, 2 * P - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 127) - 1, 1 << 127, 1 << 128, 10 ** 60, P * P + 5]
    for v in vals:
        for s in (str(v), "-" + str(v), hex(v), "-" + hex(v), "0x" + hex(v)[2:].upper(), "000" + str(v)):
            x = int(s, 16) if "0x" in s else int(s)
            ob(f"the numeral {s}", "its value modulo the prime", lambda eng, s=s, x=x: (Str(s), x))
    return obls


# ------------------------------------------------------------------ C18
import jsonc
import ext
import stk


def roundtrip(name, fn, what, make):
    """make() -> (engine, type name, thunk for the value, canonical (list of integers of the JSON) , same(got, want))"""
    def run():
        eng, ty, value, canon, same, targs = make()
        jsonc.install(eng)
        for c in list(eng.contracts.values()):
            if hasattr(c, "fromint"):
                c.fromtext = (lambda eng, e, c=c: c.ofint(eng, e) if hasattr(c, "ofint") else c.static(eng, "from", [I("u64", e)]))
                jsonc.hook_from_str(c)
        st = {}

        def thunk():
            st["v"] = v = value()
            j = eng.deref(eng.call_fn(eng.find_method(ty, "serialize", [v]), [Ref(Cell(v)), St("Ser", {})], targs))
            if j.v != "Ok": raise Fail("serialising is refused", dict(k="rt", n=name))
            st["j"] = j.a[0]
            r = eng.deref(eng.call_fn(eng.find_method(ty, "deserialize", []), [St("De", {"j": j.a[0]})], targs))
            st["r"] = r
            return UNIT

        def on(o):
            cex = dict(k="rt", n=name)
            if o.kind == "panic":
                need(eng, False, f"panics: {o.val}", {})
                return
            j = st["j"]
            if j.f not in ("js", "ja"): raise Fail("not a string or a sequence of strings", cex)
            txt = [x.a[0] if isinstance(x, Op) and x.f == "js" else x for x in (j.a if j.f == "ja" else [j.a[0]])]
            want = canon(st["v"])
            if len(want) == 0: raise Undecided("no specification")
            # a scalar may stand for an element whose other coefficients are zero
            ints = []
            for x in txt:
                if not (isinstance(x, Op) and x.f == "dec"): raise Fail("not a decimal number", cex)
                ints.append(x.a[0].e)
            if len(ints) not in (1, len(want)): raise Fail(f"{len(ints)} numbers", cex)
            for i, (a, b) in enumerate(zip(ints + [0] * len(want), want)): need(eng, eng.cmp("==", a, b), f"number {i} of the JSON is not the canonical value", {})
            if st["r"].v != "Ok": raise Fail("what was written is refused", cex)
            same(st["r"].a[0], st["v"], cex)
        return explore(eng, thunk, on)
    return Obl(name, fn, what, run)


def c18():
    obls = []
    SF = "starky/src/serializer.rs"

    def extn(n, dim):
        def make():
            files = ext.files(n) + [SF]
            c = ext.Ctx.__new__(ext.Ctx)
            c.n, c.c = n, ext.CFG[n]
            c.eng = Engine(prog(files), tmo=30000)
            c.F = Field(ext.FR, P64)
            c.fc = FieldContract(c.F, ext.FR)
            c.eng.contracts[ext.FR] = c.fc
            c.ty = c.c["ty"]
            el, co = c.elem("a", dim)

            def same(got, want, cex):
                got = c.eng.deref(got)
                d = c.eng.norm(c.eng.deref(got.f["dim"]).e)
                if d != dim: raise Fail(f"dimension {d} for {dim}", cex)
                for i, (x, y) in enumerate(zip(got.f["cube"].e, co)):
                    if not c.zero(c.eng.deref(x).sub(y)): raise Fail(f"coefficient {i}", cex)
            return c.eng, c.ty, lambda: el, lambda v: [c.fc.asint(c.eng, x).e for x in co], same, None
        return roundtrip(f"{ext.CFG[n]['name']} of dimension {dim}", f"{SF} {ext.CFG[n]['name']}::serialize/deserialize", "all elements: canonical decimals, and back to the same element", make)
    for n in (3, 5):
        for dim in (1, n): obls.append(extn(n, dim))

    def digest(cv):
        def make():
            c = stk.Ctx(cv or "bn128")
            eng = c.eng
            fr = TyRef(c.fr if cv else stk.FR)
            eng.tdefaults = {t: {"N": I("usize", 4), "F": fr} for t in eng.P.impls if t.startswith("digest::")}
            if cv:
                x = c.K.var("x")
                v = c.dig(x)
                can = lambda v: [c.k.asint(eng, x).e]

                def same(got, want, cex): c.same(c.scal(eng.deref(got)), x, "scalar read back", cex)
            else:
                e = c.row(4)
                v = c.mk(e)
                can = lambda v: [c.g.asint(eng, y).e for y in e]

                def same(got, want, cex):
                    for i, (x, y) in enumerate(zip([eng.deref(z) for z in eng.deref(got).f["0"].e], e)):
                        need(eng, eng.cmp("==", c.g.asint(eng, x).e, c.g.asint(eng, y).e), f"word {i} read back", {})
            return eng, stk.DG, lambda: v, can, same, None
        return roundtrip(f"digest {cv or 'goldilocks'}", "starky/src/digest.rs ElementDigest::serialize/deserialize", "all digests of this field: canonical decimals, and back to the same digest", make)
    for cv in (None, "bn128", "bls12381"): obls.append(digest(cv))

    def scalar(cv):
        def make():
            c = stk.Ctx(cv)
            x = c.K.var("x")

            def same(got, want, cex):
                c.same(c.eng.deref(got), x, "element read back", cex)
            # the visitor names the element through its associated type
            return c.eng, c.fr, lambda: x, lambda v: [c.k.asint(c.eng, x).e], same, None
        return roundtrip(f"scalar {cv}", f"starky/src/field_{cv}.rs Fr::serialize/deserialize", "all elements: canonical decimal, and back", make)
    for cv in stk.CV: obls.append(scalar(cv))

    def words(how):
        def run():
            F = "recursion/src/io_utils.rs"
            fs = jsonc.Fs({})
            eng = jsonc.install(Engine(prog([F])), fs)
            jsonc.jsonfns(eng, fs)
            m = eng.P.mods["io_utils"]
            fn = lambda n: (m, None, m.fns[n], None)
            v = Op("words", (I(None, 7),), "Vec")

            def thunk():
                fs.w = {"f": []}
                r = eng.deref(eng.call_fn(fn("write_vec_to_file"), [Ref(Cell(St("fs::File", {"n": Str("f")}))), Ref(Cell(v))]))
                if r.v != "Ok": raise Fail("writing fails", dict(k="vec"))
                return eng.call_fn(fn("read_vec_from_file"), [St("fs::File", {"n": Str("f")})])

            def on(o):
                if o.kind == "panic": raise Fail(f"panics: {o.val}", dict(k="vec"))
                r = eng.deref(o.val)
                if r.v != "Ok" or vkey(eng.deref(r.a[0])) != vkey(v): raise Fail("another vector", dict(k="vec"))
                w = fs.w["f"]
                if len(w) != 1 or vkey(w[0]) != vkey(Op("json", (v,), "str")): raise Fail("the file does not hold the JSON of the vector", dict(k="vec"))
            return explore(eng, thunk, on)
        return run
    obls.append(Obl("vector of words", "recursion/src/io_utils.rs write_vec_to_file/read_vec_from_file", "any vector, of any length: the file holds its JSON, and reading gives it back", words(0)))
    return obls


# ------------------------------------------------------------------ C23
def c23():
    obls = []
    F = "starky/src/zkin_join.rs"
    J = lambda v, *a: En("serde_json::Value", v, a)
    opq = lambda i: Op("value", (I(None, i),), "serde_json::Value")

    def ob(name, m1, m2, what):
        def run():
            fs = jsonc.Fs({})
            eng = jsonc.install(Engine(prog([F])), fs)
            jsonc.jsonfns(eng, fs)
            eng.contracts["str"].notkeys = {"publics", "rootC"} | {k for k, _ in m1 + m2 if isinstance(k, str)}
            m = eng.P.mods["zkin_join"]
            cnt = [0]

            def key(k): return Str(k) if isinstance(k, str) else Op("key", (I(None, k),), "str")

            def mp(l): return St("HashMap", {"m": V([T([key(k), v]) for k, v in l])})

            def thunk():
                fs.w = {}
                fs.files = {"one": Op("json", (mp(m1),), "str"), "two": Op("json", (mp(m2),), "str")}
                return eng.call_fn((m, None, m.fns["join_zkin"], None), [Ref(Cell(Str(x))) for x in ("one", "two", "out")])

            def on(o):
                cex = dict(k="join", n=name)
                if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                if eng.deref(o.val).v != "Ok": raise Fail("refused", cex)
                if set(fs.w) != {"out"} or len(fs.w["out"]) != 1 or not (isinstance(fs.w["out"][0], Op) and fs.w["out"][0].f == "json"): raise Fail("the output file is not one document", cex)
                got = {}
                for e in eng.deref(fs.w["out"][0].a[0]).f["m"].e:
                    k = vkey(e.e[0])
                    if k in got: raise Fail("a key twice", cex)
                    got[k] = vkey(deepd(eng, e.e[1]))
                want = {}
                for pre, l in (("a_", m1), ("b_", m2)):
                    for k, v in l: want[vkey(Str(pre + k) if isinstance(k, str) else Op("fmt", (Str(pre), key(k)), "str"))] = vkey(v)
                for k, v in m1:
                    if k == "rootC": want[vkey(Str(k))] = vkey(v)
                    if k == "publics" and v.v == "Array": want[vkey(Str(k))] = vkey(v if len(v.a[0].e) < 4 else J("Array", V(v.a[0].e[:-4])))
                if got != want: raise Fail(f"entries {sorted(map(str, set(got.items()) ^ set(want.items())))[:4]}"[:300], cex)
            return explore(eng, thunk, on)
        obls.append(Obl(name, F + " join_zkin", what, run))

    def arr(n): return J("Array", V([opq(100 + i) for i in range(n)]))
    W = "every entry under its prefix, unchanged; the first's rootC and publics without the last four; nothing else"
    FA = "starky/src/zkin_join.rs join_zkin"
    for pub in ("array", None, "string", "null", "number", "object", "bool"):
        for root in (True, False):
            obls.append(Obl(f"any documents, publics {pub or 'absent'}, rootC {'present' if root else 'absent'}", FA, "any number of entries and of publics: " + W, c23any(pub, root)))
    for pub2, root2 in ((None, True), ("array", False), (None, False), ("null", True)):
        obls.append(Obl(f"any documents, the second with publics {pub2 or 'absent'}, rootC {'present' if root2 else 'absent'}", FA, "any number of entries and of publics: " + W, c23any("array", True, pub2, root2)))
    base = lambda n: [("publics", arr(n)), ("rootC", opq(1)), (0, opq(2)), (1, opq(3))]
    two = [("publics", arr(3)), ("rootC", opq(11)), (0, opq(12)), (2, opq(13))]
    for n in list(range(0, 13)) + [40]: ob(f"{n} publics", base(n), two, W)
    for n in range(0, 7):
        ks = list(range(n))
        ob(f"{n} other entries each", [(k, opq(20 + k)) for k in ks] + base(5)[:2], two[:2] + [(k + n, opq(40 + k)) for k in ks], W)
    import itertools
    for p in itertools.permutations(range(4)): ob(f"order {p}", [base(6)[i] for i in p], [two[i] for i in p], W)
    ob("no publics", base(0)[1:], two, W)
    ob("no rootC", [base(7)[0], base(7)[2]], two, W)
    ob("empty maps", [], [], W)
    ob("first empty", [], two, W)
    ob("second empty", base(9), [], W)
    ob("publics of another kind", [("publics", J("String", opq(5))), ("rootC", J("Null"))], two, W)
    ob("same entries in both", base(5), base(5), W)
    for names in (["a_publics", "b_publics", "publics_", "Publics"], ["a_rootC", "b_rootC", "root1", ""], ["a_", "b_", "s0_vals1", "evals"]):
        ob(f"names {names}", [(k, opq(60 + i)) for i, k in enumerate(names)] + base(8), [(k, opq(80 + i)) for i, k in enumerate(names)] + two, W)
    return obls


class Doc:
    """a document of any number of entries: publics and rootC at unknown places (or absent), the others any keys but these"""
    def __init__(self, eng, tag, pub, root):
        self.eng, self.tag = eng, tag
        self.n = eng.sym("n" + tag, 0, NMAX).e
        self.len = eng.sym("p" + tag, 0, NMAX).e
        eng.sizes["entries" + tag] = self.n
        elt = Family(eng, lambda e: Op("value", (Str(tag + "p"), I(None, e)), "serde_json::Value"))
        other = Op("value", (Str(tag + "s"),), "serde_json::Value")
        self.spec = []
        if pub:
            if pub == "array": eng.sizes["publics" + tag] = self.len
            self.spec.append(("publics", En("serde_json::Value", "Array", [SQ(self.len, elt)]) if pub == "array" else En("serde_json::Value", *({"string": ("String", [other]), "null": ("Null", []), "number": ("Number", [other]), "object": ("Object", [other]), "bool": ("Bool", [other])}[pub]))))
        if root: self.spec.append(("rootC", Op("value", (Str(tag + "r"),), "serde_json::Value")))
        self.at = [eng.sym(f"at{i}{tag}", 0, NMAX).e for i in range(len(self.spec))]
        for i, e in enumerate(self.at):
            eng.assume(eng.cmp("<", e, self.n))
            if i: eng.assume(eng.cmp("<", self.at[0], e))
        self.fam = Family(eng, lambda e: (Op("key", (Str(tag), I(None, e)), "str"), Op("value", (Str(tag), I(None, e)), "serde_json::Value")))

    def item(self, t):
        for e, (k, v) in zip(self.at, self.spec):
            if self.eng.decide(self.eng.cmp("==", e, t)): return (Str(k), v)
        return self.fam(t)

    def find(self, k):
        if not isinstance(k, Str) or k.v not in ("publics", "rootC"): raise Unsupported("lookup of another key")
        return dict(self.spec).get(k.v)

    def special(self, k, v):
        """what an entry of the first document gives besides its prefixed copy"""
        eng = self.eng
        if not isinstance(k, Str): return []
        if k.v == "publics" and v.v == "Array":
            L = v.a[0]
            if eng.decide(eng.cmp(">=", L.n, 4)): v = En(v.n, "Array", [SQ(eng.norm(psub(L.n, 4)), L.f)])
            return [("publics", v)]
        return [("rootC", v)] if k.v == "rootC" else []


def c23any(pub, root, pub2="array", root2=True):

    def run():
        box = []

        def mkeng():
            fs = jsonc.Fs({})
            eng = jsonc.install(Engine(prog(["starky/src/zkin_join.rs"])), fs)
            jsonc.jsonfns(eng, fs)
            eng.contracts["str"].notkeys = {"publics", "rootC"}
            eng.sizes = {}
            box[:] = [fs]
            return eng

        def go(eng):
            fs, m = box[0], eng.P.mods["zkin_join"]
            st = {}

            def plain(d, pre, extra=()):
                def spec(k, v):
                    key = Str(pre + k.v) if isinstance(k, Str) else Op("fmt", (Str(pre), k), "str")
                    return [(vkey(key), v)] + [(vkey(Str(x)), y) for x, y in st["d"][d].special(k, v) if x in extra]
                kind = (pre,) + extra
                q = Inv("entries of document %d under %s%s" % (d + 1, pre, ", with " + " and ".join(extra) if extra else ""), lambda t, v0: AM(amparts(eng, v0) + (("all", st["d"][d], t, kind),)))

                def ok(v, t, v0):
                    p0, p = amparts(eng, v0), amparts(eng, v)
                    n = len(p0)
                    if len(p) < n + 1 or any(x is not y for x, y in zip(p, p0)) and list(p[:n]) != list(p0): return False
                    if p[n][0] != "all" or p[n][1] is not st["d"][d] or p[n][3] != kind: return False
                    got = {}
                    for x in p[n + 1:]:
                        if x[0] != "kv": return False
                        got[vkey(eng.deref(x[1]))] = x[2]
                    want = dict(spec(*st["d"][d].item(t)))
                    return got.keys() == want.keys() and all(same(eng, got[k], want[k]) for k in got)
                q.ok, q.rel = (lambda eng, v, t, v0: ok(v, t, v0)), True
                q._start = lambda v: isinstance(eng.deref(v), AM) or isinstance(eng.deref(v), St) and "m" in eng.deref(v).f
                return q
            eng.invs = [plain(0, "a_", ("publics", "rootC")), plain(1, "b_"), plain(0, "a_"), plain(0, "a_", ("publics",)), plain(0, "a_", ("rootC",))]

            def thunk():
                st["d"] = [Doc(eng, "1", pub, root), Doc(eng, "2", pub2, root2)]
                fs.w = {}
                fs.files = {x: Op("json", (AM([("all", d, d.n, "entry")]),), "str") for x, d in zip(("one", "two"), st["d"])}
                return eng.call_fn((m, None, m.fns["join_zkin"], None), [Ref(Cell(Str(x))) for x in ("one", "two", "out")])

            def on(o):
                if o.kind == "panic": raise Fail(f"panics: {o.val}", dict(k="join", n="any", sizes=witness(eng)))
                if eng.deref(o.val).v != "Ok": raise Fail("refused", dict(k="join", n="any", sizes=witness(eng)))
                bad = lambda s: Fail(s, dict(k="join", n="any", sizes=witness(eng)))
                if set(fs.w) != {"out"} or len(fs.w["out"]) != 1 or not (isinstance(fs.w["out"][0], Op) and fs.w["out"][0].f == "json"): raise bad("the output file is not one document")
                segs, kv = [], {}
                for x in amparts(eng, fs.w["out"][0].a[0]):
                    if x[0] == "kv": kv[vkey(eng.deref(x[1]))] = x[2]
                    else:
                        if not yes(eng, eng.cmp("==", x[2], x[1].n)): raise bad("a document is not read to its end")
                        segs.append((x[1].tag, x[3]))
                segs.sort()
                if len(segs) != 2 or [(t, k[0]) for t, k in segs] != [("1", "a_"), ("2", "b_")]: raise bad(f"the output is made of {segs}")
                want = {vkey(Str(a)): b for k, v in st["d"][0].spec for a, b in st["d"][0].special(Str(k), v)}
                in1 = {vkey(Str(k)) for k in segs[0][1][1:]}
                if not kv.keys() <= want.keys() or want.keys() - kv.keys() - in1: raise bad("publics or rootC missing, or further entries")
                if not all(same(eng, kv[k], want[k]) for k in kv): raise bad("publics or rootC")
            return explore(eng, thunk, on)
        return prove_all(mkeng, go, "join_zkin")
    return run


def deepd(eng, v):
    v = eng.deref(v)
    if isinstance(v, En): return En(v.n, v.v, [deepd(eng, x) for x in v.a])
    if isinstance(v, V): return V([deepd(eng, x) for x in v.e])
    return v


# ------------------------------------------------------------------ C27
import ark


def c27():
    obls = []
    TR, JU = "recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/json_util.rs"
    C = ark.CONF

    def setup():
        eng = Engine(prog([TR, JU]), tmo=30000)
        jsonc.install(eng)
        cx = ark.install(eng)
        for m in eng.P.mods.values():
            for n in m.structs: eng.tdefaults[f"{m.name}::{n}"] = {"P": TyRef(C), "F": TyRef(ark.A + "Fr")}
        return eng, cx

    def el(cx, i, ty="Fq"):
        return cx.mk(ark.A + ty, cx.eng.sym(f"e{i}", 0, (ark.R if ty == "Fr" else ark.Q) - 1).e)

    def fq2(cx, i): return St(ark.A + "Fq2", {"c0": el(cx, 2 * i), "c1": el(cx, 2 * i + 1)})

    def point(cx, g, i, inf=False):
        """a point of the group, or infinity"""
        eng = cx.eng
        c = eng.contracts[ark.A + g + "Affine"]
        if inf: return cx.inf(ark.A + g + "Affine")
        mk = el if g == "G1" else fq2
        v = St(ark.A + g + "Affine", {"x": mk(cx, 2 * i), "y": mk(cx, 2 * i + 1), "infinity": False})
        eng.assume(c.oncurve(eng, v))
        eng.assume(c.sub(eng, v))
        return v

    def gt(cx):
        n = [0]

        def go(k):
            if k == "Fq":
                n[0] += 1
                return el(cx, n[0])
            sub, m = {"Fq12": ("Fq6", 2), "Fq6": ("Fq2", 3), "Fq2": ("Fq", 2)}[k]
            return St(ark.A + k, {f"c{i}": go(sub) for i in range(m)})
        return go("Fq12")

    def valid(eng, p, cex, what="accepted"):
        """p may be accepted: infinity, or on the curve and in the subgroup"""
        c = eng.contracts[p.n]
        if p.f["infinity"] is True: return
        need(eng, c.oncurve(eng, p), "a point off the curve is accepted", cex)
        need(eng, c.sub(eng, p), "a point outside the subgroup is accepted", cex)

    def same(eng, got, want, cex):
        got = eng.deref(got)
        if isinstance(want, V):
            if len(got.e) != len(want.e): raise Fail(f"{len(got.e)} values for {len(want.e)}", cex)
            for a, b in zip(got.e, want.e): same(eng, a, b, cex)
            return
        need(eng, eng.binop("==", got, want), "another value is read back", cex)

    def fn_of(eng, path, fr=None):
        """the function a serialize_with / deserialize_with attribute (or a call) names -> caller"""
        segs = [s.strip() for s in path.replace("::<", " <").split("<")[0].strip().split("::") if s.strip()]
        if segs[0] in ("P", "Bls12_381"):
            f = eng.find_method(C, segs[1], [])
            if not f: raise Unsupported(path)
            return lambda *a: eng.deref(eng.call_fn(f, list(a), [TyRef("()")] if False else None))
        m = eng.P.mods["json_util"]
        f = m.fns[segs[-1]]
        names = [g["n"] for g in f["gen"]["names"] if g["k"] != "lt"]
        return lambda *a: eng.deref(eng.call_fn((m, None, f, None), list(a), None, {"P": TyRef(C)}))

    def rt(name, anchor, what, ser, de, make):
        def run():
            eng, cx = setup()
            st = {}

            def thunk():
                cx.reset()
                st["v"] = v = make(cx)
                s, d = (fn_of(eng, x) if isinstance(x, str) else x(eng) for x in (ser, de))
                j = s(Ref(Cell(v)), St("Ser", {}))
                if j.v != "Ok": raise Fail("writing is refused", dict(k="gn", n=name))
                st["r"] = d(St("De", {"j": j.a[0]}))
                return UNIT

            def on(o):
                cex = dict(k="gn", n=name)
                if o.kind == "panic": return need(eng, False, f"panics: {o.val}", cex)
                if st["r"].v != "Ok": return need(eng, False, "what was written is refused", cex)
                same(eng, st["r"].a[0], st["v"], cex)
            return explore(eng, thunk, on)
        obls.append(Obl(name, anchor, what, run))

    # round trips of the parts
    for g in ("G1", "G2"):
        for inf in (False, True):
            rt(f"{g} {'infinity' if inf else 'point'} round trip", f"{TR} serialize_{g.lower()}/deserialize_{g.lower()}_element", "the point at infinity" if inf else "every point of the group: written and read back equal",
               f"P::serialize_{g.lower()}", f"P::deserialize_{g.lower()}_element", lambda cx, g=g, inf=inf: point(cx, g, 0, inf))
    rt("target group element round trip", f"{TR} serialize_gt/deserialize_gt_element", "every element", "P::serialize_gt", "P::deserialize_gt_element", gt)
    rt("scalar round trip", f"{TR} serialize_fr/deserialize_fr_element", "every scalar", "P::serialize_fr", "P::deserialize_fr_element", lambda cx: el(cx, 0, "Fr"))
    for n in list(range(0, 9)) + [17]:
        for k in range(0, min(n, 3) + 1):
            rt(f"{n} points of G1, infinity at {'none' if not k else k - 1}", f"{JU} serialize_g1_sequence/deserialize_g1_sequence", f"every sequence of {n} points",
               "serialize_g1_sequence", "deserialize_g1_sequence", lambda cx, n=n, k=k: V([point(cx, "G1", i, i == k - 1) for i in range(n)]))
        J = "json_util::JsonPublicInput"

        def ser(eng): return lambda v, s: eng.deref(eng.call_fn(eng.find_method(J, "serialize", []), [Ref(Cell(St(J, {"values": eng.deref(v)}))), s]))

        def de(eng):
            def f(d):
                r = eng.deref(eng.call_fn(eng.find_method(J, "deserialize", []), [d]))
                return Ok(eng.deref(r.a[0]).f["values"]) if r.v == "Ok" else r
            return f
        rt(f"{n} public inputs", f"{JU} JsonPublicInput", f"every {n} scalars", ser, de, lambda cx, n=n: V([el(cx, i, "Fr") for i in range(n)]))

    # the structs, as their serde attributes wire them (the derive itself is trusted: one entry per field, under its name)
    for S in ("Groth16Proof", "JsonVerificationKey"):
        P0 = prog([TR, JU])
        sd = P0.mods["json_util"].structs.get(S)
        if not sd: raise Missing(f"struct {S}")
        names = []
        for fd in sd["f"]:
            at = " ".join(fd["attrs"])
            import re
            g = lambda k: (re.findall(r"\b" + k + r'\s*=\s*"([^"]*)"', at) or [None])[0]
            ren, s, d = g("rename"), g("serialize_with"), g("deserialize_with")
            names.append(ren or fd["n"])
            odd = re.findall(r"\b(skip\w*|default|flatten|with|alias|getter|borrow)\b(?!\s*_)", re.sub(r'"[^"]*"', "", at))
            t = fd["t"]
            tn = t["p"][-1]["n"] if t["k"] == "path" else None
            if odd: tn = "?"

            def mk(cx, tn=tn, t=t):
                if tn in ("G1Affine", "G2Affine"): return point(cx, tn[:2], 0)
                if tn == "TargetField": return gt(cx)
                if tn == "Vec": return V([point(cx, "G1", i) for i in range(3)])
                raise Unsupported(f"field of type {tn}")
            if s or d or tn == "?":
                def id_ser(eng): return lambda v, s: eng.deref(eng.contracts["Ser"].val(eng, v))
                if not (s and d) or odd:
                    def run(n=fd["n"], at=at): raise Undecided(f"attributes of {n}: {at}")
                    obls.append(Obl(f"{S}.{fd['n']} round trip", JU + " " + S, "as wired", run))
                    continue
                rt(f"{S}.{fd['n']} round trip", JU + " " + S, "the field as its attributes wire it: every valid value", s, d, mk)
                accept(obls, f"{S}.{fd['n']}", JU + " " + S, d, tn, setup, fn_of, valid)

        def run(names=names):
            if len(set(names)) != len(names): raise Fail(f"two fields under one name: {sorted(names)}", dict(k="gn", n="names"))
            return {}
        obls.append(Obl(f"{S} entries are apart", JU + " " + S, "no two fields share a name", run))
    for d, tn in (("P::deserialize_g1_element", "G1Affine"), ("P::deserialize_g2_element", "G2Affine"), ("deserialize_g1_sequence", "Vec"), ("P::deserialize_gt_element", "TargetField"), ("P::deserialize_fr_element", "ScalarField")):
        accept(obls, d.split("::")[-1], TR, d, tn, setup, fn_of, valid)

    # the functions underneath, on unknown text
    for g, k in (("g1", 3), ("g2", 6)):
        for consts in (None, "0", "1"):
            def run(g=g, k=k, consts=consts):
                eng, cx = setup()

                def thunk():
                    cx.reset()
                    xs = [ark.unknown(i) for i in range(k)]
                    if consts is not None:
                        z = [consts] if g == "g1" else [consts, "0"]
                        for i, s in enumerate(z): xs[k - len(z) + i] = Str(s)
                    return eng.call_fn(eng.find_method(C, f"{g}_from_strings_projective", []), [Ref(Cell(x)) for x in xs] + [En("traits::CheckElement", "Yes")])

                def on(o):
                    cex = dict(k="gn", n=f"{g} texts")
                    if o.kind == "panic": return need(eng, False, f"panics: {o.val}", cex)
                    r = eng.deref(o.val)
                    if r.v == "Ok": valid(eng, eng.deref(r.a[0]), cex)
                return explore(eng, thunk, on)
            obls.append(Obl(f"{g}_from_strings_projective, z {consts or 'any'}", TR + f" {g}_from_strings_projective", "any texts: no panic; a point only if on the curve and in the subgroup", run))
    return obls


def accept(obls, name, anchor, d, tn, setup, fn_of, valid):
    """documents of every shape up to a size, all texts unknown: no panic, and only valid points are accepted"""
    import itertools
    S, N = "s", "n"
    L = lambda *a: tuple(a)
    if tn == "G1Affine": docs = [S, N] + [x for n in range(0, 5) for x in itertools.product([S, N, L(S)], repeat=n)][:60] + [(S,) * n for n in range(4, 7)]
    elif tn == "G2Affine":
        prs = [S, N, L(), L(S), L(S, S), L(S, S, S), L(S, N), L(L(S), S)]
        docs = [S, N] + [x for n in range(0, 3) for x in itertools.product(prs, repeat=n)] + [x for x in itertools.product(prs[2:6], repeat=3)] + [x for x in itertools.product(prs, repeat=3) if sum(y == L(S, S) for y in x) >= 2]
        docs += [(L(S, S),) * n for n in range(4, 7)] + [(L(S, S),) * 3 + (x,) for x in prs]
    elif tn == "Vec":
        pts = [S, N, L(), L(S), L(S, S), L(S, S, S), L(S, S, S, S), L(S, S, N)]
        docs = [S, N] + [x for n in range(0, 3) for x in itertools.product(pts, repeat=n)] + [(L(S, S, S),) * n for n in range(3, 5)]
    elif tn == "TargetField":
        q = [L(S, S), L(S), L(S, S, S), S, L()]
        c = [(q[0],) * 3, (q[0],) * 2, (q[0],) * 4, (q[0], q[0], q[1]), (q[2], q[0], q[0]), (q[0], q[3], q[0]), (q[4],) * 3, S, ()]
        docs = [S, N] + [x for n in range(0, 3) for x in itertools.product(c, repeat=n)] + [(c[0],) * 3]
    else: docs = [S, N, (), (S,)]
    groups = [docs[i::4] for i in range(4)] if len(docs) > 40 else [docs]
    for gi, ds in enumerate(groups):
        def run(ds=ds):
            inf = {}
            for doc in ds:
                eng, cx = setup()
                cnt = [0]

                def go(t):
                    if isinstance(t, tuple): return Op("ja", [go(x) for x in t], "Json")
                    cnt[0] += 1
                    return Op("js", (ark.unknown(cnt[0]),), "Json") if t == "s" else Op("jn", (I(None, 7),), "Json")

                def thunk():
                    cx.reset()
                    cnt[0] = 0
                    return fn_of(eng, d)(St("De", {"j": go(doc)}))

                def on(o):
                    cex = dict(k="gn", n=f"{name} reads", doc=str(doc))
                    if o.kind == "panic": return need(eng, False, f"panics on {doc}: {o.val}", cex)
                    r = eng.deref(o.val)
                    if r.v != "Ok": return
                    p = eng.deref(r.a[0])
                    for x in (p.e if isinstance(p, V) else [p]):
                        x = eng.deref(x)
                        if x.n in (ark.A + "G1Affine", ark.A + "G2Affine"): valid(eng, x, cex)
                inf = explore(eng, thunk, on)
            return inf
        obls.append(Obl(f"{name} accepts only valid points ({len(ds)} shapes, {gi})", anchor, "documents of every listed shape, all texts unknown: no panic; only points on the curve and in the subgroup", run))
