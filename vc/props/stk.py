"""C12-C17: leaf hashing, Merkle trees, transcripts, digests.  Poseidon is an uninterpreted function here (C11 and C10
give its meaning); base-field and scalar-field operations by contract; the digest functions by their contracts (C17)."""
from oblig import *
from seq import Inv, Family, SQ, prove_all, yes, same, seqlen, elem, NMAX
from curve import *
from gl import GL
import random

FR = "field_gl::Fr"
DG = "digest::ElementDigest"
CV = {"bn128": dict(lh="linearhash_bn128::LinearHashBN128", mt="merklehash_bn128::MerkleTreeBN128", tr="transcript_bn128::TranscriptBN128", conv="to_bn128", mont="to_bn128_mont", word=0, t="bn"),
      "bls12381": dict(lh="linearhash_bls12381::LinearHashBLS12381", mt="merklehash_bls12381::MerkleTreeBLS12381", tr="transcript_bls12381::TranscriptBLS128", conv="to_bls12381", mont="to_bls12381_mont", word=1, t="bls")}


def files(cv):
    return ["starky/src/" + f for f in (f"linearhash_{cv}.rs", f"merklehash_{cv}.rs", f"transcript_{cv}.rs", "transcript.rs", "digest.rs", "helper.rs", "traits.rs",
                                         "constant.rs", f"field_{cv}.rs", f"poseidon_{cv}_opt.rs", "f3g.rs", "poseidon_opt.rs")] + GL


class Ctx:
    """engine with the contracts of the dependencies"""

    def __init__(self, cv, digest=True):
        self.cv, self.i = cv, CV[cv]
        self.eng = eng = Engine(prog(files(cv)))
        self.G = Field(FR, P64)
        self.g = eng.contracts[FR] = FieldContract(self.G, FR)
        ty = f"field_{cv}::Fr"
        self.fr = ty
        self.K = Field(ty, CURVE[cv])
        self.k = eng.contracts[ty] = CurveField(self.K, ty)
        eng.contracts[ty + "Repr"] = CurveRepr(self.k)
        eng.contracts[BIG] = Big()
        pt = f"poseidon_{cv}_opt::Poseidon"
        self.pos = eng.contracts[pt] = PosContract(pt, self.k, self.i["word"])
        self.ptv = St(pt, {})
        self.lh = St(self.i["lh"], {"h": self.ptv})
        if digest: self.digest()

    def limbs(self, f):
        if f.is_const():
            x = f.cval() * self.k.R % self.K.p
            l = [x >> 64 * j & 2**64 - 1 for j in range(4)]
            if all(y < P64 for y in l): return [self.G.const(y) for y in l]
        return [FV(self.G, {(self.G.oatom(("limb", j, f.key()), f),): 1}) for j in range(4)]

    def mk(self, vals): return St(DG, {"0": V(list(vals)), "1": UNIT})
    def dig(self, f): return self.mk(self.limbs(f))

    def raw(self, d):
        """the representation as_scalar returns"""
        v = [self.eng.deref(x) for x in self.eng.deref(d.f["0"]).e]
        ats = []
        for j, x in enumerate(v):
            if x.pr is None and len(x.d) == 1:
                (m, c), = x.d.items()
                if c == 1 and len(m) == 1 and self.G.atoms[m[0]][0] == "limb" and self.G.atoms[m[0]][1] == j: ats.append(m[0])
        if len(ats) == 4 and len({self.G.atoms[a][2] for a in ats}) == 1: return Op("raw", (self.G.obj[ats[0]],), self.k.rep)
        return St(self.k.rep, {"0": V([self.g.asint(self.eng, x) for x in v], "u64")})

    def scal(self, d):
        """scalar a digest stands for"""
        return self.k.lift(self.eng, self.k.construct(self.eng, [self.raw(d)]))

    def digest(self):
        eng, c = self.eng, eng_c = self.eng, self

        def new(e, a):
            v = e.deref(a[0]).e
            if len(v) < 4: raise Panic("digest of fewer than four words")
            return c.mk([e.deref(x) for x in v[:4]])
        fc = self.eng.fncontracts
        fc[(DG, "new")] = new
        fc[(DG, "as_elements")] = lambda e, a: Ref(a[0].c, a[0].p + (("f", "0"),)) if isinstance(a[0], Ref) else Ref(Cell(a[0].f["0"]))
        fc[(DG, "from_scalar")] = lambda e, a: c.dig(c.k.lift(e, a[0]))
        fc[(DG, "as_scalar")] = lambda e, a: c.raw(e.deref(a[0]))
        fc[(DG, "default")] = lambda e, a: c.mk([c.G.const(0)] * 4)

    # ---- specifications
    def hash(self, init, inp): return self.pos.words(self.eng, init, inp, 17)[self.i["word"]]

    def pack(self, els):
        e = 0
        for j, x in enumerate(els): e = padd(e, pscale(self.g.asint(self.eng, x).e, 1 << 64 * j))
        return self.k.ofint(self.eng, e)

    def sponge(self, v):
        d = self.K.const(0)
        for j in range(0, len(v), 16): d = self.hash(d, v[j:j + 16])
        return d

    def leaf(self, row):
        if len(row) <= 4: return self.pack(row)
        return self.sponge([self.pack(row[j:j + 3]) for j in range(0, len(row), 3)])

    def matrix(self, row):
        v = [self.pack(row[j:j + 3]) for j in range(0, len(row), 3)]
        return self.K.const(0) if not v else v[0] if len(v) == 1 else self.sponge(v)

    def row(self, n, s="e"): return [self.G.var(f"{s}{j}") for j in range(n)]

    def same(self, got, want, what, cex):
        if not isinstance(got, FV): raise Undecided(f"{what}: not a field value")
        d = got.sub(want)
        if not (d.is_const() and d.cval() == 0): raise Fail(f"{what}: differs from the specified value", cex)


def rnd(n, seed=5):
    r = random.Random(seed)
    return [r.randrange(P64) for _ in range(n)]


def okval(eng, o, what, cex):
    if o.kind == "panic": raise Fail(f"{what} panics: {o.val}", cex)
    v = eng.deref(o.val)
    if not isinstance(v, En) or v.v not in ("Ok", "Err"): raise Undecided(f"{what}: result {v}")
    if v.v != "Ok": raise Fail(f"{what}: error", cex)
    return eng.deref(v.a[0])


LEN = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 46, 47, 48, 49, 50, 51, 52, 95, 96, 97, 99, 100, 144, 145, 200]


def c12():
    obls = []
    for cv in CV:
        def arr(n, cv=cv):
            def run():
                c = Ctx(cv)
                f = method(c, c.i["lh"], "hash_element_array")
                row = c.row(n)
                cex = dict(cv=c.i["t"], row=rnd(n))
                cnt = [0]

                def on(o):
                    cnt[0] += 1
                    v = okval(c.eng, o, f"hash of a row of {n}", cex)
                    c.same(c.scal(v), c.leaf(row), f"hash of a row of {n}", cex)
                c.eng.on_path = on
                c.eng.explore(lambda: c.eng.call_fn(f, [Ref(Cell(c.lh)), Ref(Cell(V(row)))]))
                return info(c.eng, cnt[0])
            return run

        def mat(n, split, cv=cv):
            def run():
                c = Ctx(cv)
                f = method(c, c.i["lh"], "hash_element_matrix")
                row = c.row(n)
                cols, k = [], 0
                for s in split:
                    cols.append(V(row[k:k + s])); k += s
                if k < n: cols.append(V(row[k:]))
                cex = dict(cv=c.i["t"], row=rnd(n))
                cnt = [0]

                def on(o):
                    cnt[0] += 1
                    c.same(okval(c.eng, o, "matrix hash", cex), c.matrix(row), f"matrix hash of {n} elements in columns {split}", cex)
                c.eng.on_path = on
                c.eng.explore(lambda: c.eng.call_fn(f, [Ref(Cell(c.lh)), Ref(Cell(V(cols)))]))
                return info(c.eng, cnt[0])
            return run

        def node(cv=cv):
            def run():
                c = Ctx(cv)
                f = method(c, c.i["lh"], "hash_node")
                x = [c.K.var(f"x{j}") for j in range(17)]
                cnt = [0]

                def on(o):
                    cnt[0] += 1
                    c.same(c.scal(okval(c.eng, o, "hash_node", dict(cv=c.i["t"], node=1))), c.hash(x[16], x[:16]), "hash_node", dict(cv=c.i["t"], node=1))
                c.eng.on_path = on
                c.eng.explore(lambda: c.eng.call_fn(f, [Ref(Cell(c.lh)), Ref(Cell(V([c.dig(y) for y in x[:16]]))), Ref(Cell(x[16]))]))
                return info(c.eng, cnt[0])
            return run

        def mont(cv=cv):
            def run():
                c = Ctx(cv)
                f = method(c, c.i["lh"], c.i["mont"])
                row = c.row(4)
                cnt = [0]

                def on(o):
                    cnt[0] += 1
                    cex = dict(cv=c.i["t"], node=1)
                    if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                    c.same(c.scal(c.mk(c.eng.deref(o.val).e)), c.pack(row), c.i["mont"], cex)
                c.eng.on_path = on
                c.eng.explore(lambda: c.eng.call_fn(f, [V(row)]))
                return info(c.eng, cnt[0])
            return run
        obls += [allrows(cv), allrows(cv, True)]
        for n in LEN:
            obls.append(Obl(f"{cv} row of {n}", f"{CV[cv]['lh']}::hash_element_array", f"for all rows of {n} elements: the packed value (at most 4) or the sponge over the packed scalars", arr(n), "vc (normal forms)"))
        for n, sp in [(0, []), (1, [1]), (2, [1, 1]), (3, [2, 1]), (3, [3]), (4, [1, 3]), (5, [5]), (7, [2, 0, 3, 2]), (12, [4, 4, 4]), (47, [20, 27]), (48, [3] * 16), (49, [7] * 7), (100, [33, 33, 34]), (145, [29] * 5)]:
            obls.append(Obl(f"{cv} matrix {n} {len(sp)}", f"{CV[cv]['lh']}::hash_element_matrix", f"for all {n} elements in columns of {sp}: sponge over the packed elements", mat(n, sp), "vc (normal forms)"))
        obls.append(Obl(f"{cv} hash_node", f"{CV[cv]['lh']}::hash_node", "for all sixteen digests and initial state: digest of the permutation of their scalars", node(), "vc (normal forms)"))
        obls.append(Obl(f"{cv} to mont", f"{CV[cv]['lh']}::{CV[cv]['mont']}", "for all four words: the words of the scalar sum w_i 2^(64 i) mod r", mont(), "vc (normal forms)"))
    return obls


def allrows(cv, matrix=False):
    """hash_element_array for every row length: groups g(i) of three (the last may be shorter), S(0) = 0,
    S(b + 1) = hash of groups 16 b.. (at most 16 of them) with capacity S(b)"""
    def mk():
        c = Ctx(cv)
        e, K = c.eng, c.K
        e.loop_bound, e.max_paths = 40, 4000
        nm = lambda s, i: f"{s}[{i if isinstance(i, int) else i.key()}]"
        n = c.n = e.insym("usize", "n", 0, NMAX).e
        e.sizes = {"row": n}
        x = Family(e, lambda i: c.G.var(nm("e", i)))
        M = c.M = e.divc(padd(n, 2), 3)[1]

        def group(i):
            lo = pscale(i, 3)
            k = next((k for k in (1, 2) if e.decide(e.cmp("==", psub(n, lo), k))), 3)
            return c.pack([x(padd(lo, j)) for j in range(k)])
        g = Family(e, group)
        nb = lambda b: psub(M, pscale(b, 16))

        def block(b):
            k = 16 if e.decide(e.cmp(">=", nb(b), 16)) else e.conc(I("usize", nb(b)))
            return [g(padd(pscale(b, 16), j)) for j in range(k)]
        S = Family(e, lambda b: K.const(0) if e.decide(e.cmp("==", b, 0)) else K.var(nm("S", b)))
        B_ = c.B = e.divc(padd(M, 15), 16)[1]
        c.x, c.S = x, S
        zero = K.const(0)
        if matrix:
            C = c.C = e.insym("usize", "columns", 0, NMAX).e
            e.sizes = {"cols": C, "row": n}
            O = Family(e, lambda i: 0 if e.decide(e.cmp("==", i, 0)) else n if e.decide(e.cmp("==", i, C)) else e.sym("O", 0, NMAX).e)
            ln = Family(e, lambda i: e.sym("len", 0, NMAX).e)
            c.cols = lambda i: SQ(ln(i), lambda j: x(padd(O(i), j)))
            md = lambda k, m: e.conc(I("usize", e.divc(k, m)[0])) if not isinstance(k, int) else k % m
            dv = lambda k, m: e.divc(k, m)[1] if not isinstance(k, int) else k // m
            def acc(k):
                m = md(k, 3)
                return c.pack([x(padd(k, j - m)) for j in range(m)]) if m else K.const(0)
            g3 = lambda i: c.pack([x(padd(pscale(i, 3), j)) for j in range(3)])
            full = lambda k: SQ(dv(k, 3), g3)
            def both(name, f):
                return [Inv(name, lambda t: f(padd(O(e.tstack[-1]), t)) if e.tstack else f(O(t)), lambda t: f(padd(padd(O(e.tstack[-1]), t), 1)) if e.tstack else f(padd(O(t), ln(t))))]
            e.invs = both("group under way", acc) + both("groups complete", full) + both("elements in the group under way", lambda k: I("i32", md(k, 3))) + both("elements in the group under way", lambda k: I("usize", md(k, 3))) + both("elements done", lambda k: I("usize", k))
            e.invs += [Inv("state after the full blocks", lambda t: S(dv(t, 16)), lambda t: c.hash(S(dv(t, 16)), [g(padd(pscale(dv(t, 16), 16), j)) for j in range(16)]) if md(t, 16) == 15 else S(dv(t, 16))),
                       Inv("block under way", lambda t: V([g(padd(psub(t, md(t, 16)), j)) for j in range(md(t, 16))]))]
            e.invs += [Inv("state after t blocks", lambda t: S(t), lambda t: c.hash(S(t), block(t))), Inv("t", lambda t: I("usize", t))]
            e.counts = [c.B, M, C]
            c.gg = g
            return c
        filled = lambda t: SQ(M, lambda i: g(i) if e.decide(e.cmp("<", i, t)) else zero)
        e.invs = [Inv("groups packed so far", filled), Inv("list of groups so far", lambda t: SQ(t, g)),
                  Inv("state after t blocks", lambda t: S(t), lambda t: c.hash(S(t), block(t))),
                  Inv("first group of the block", lambda t: I("usize", pscale(t, 16))), Inv("first element of the group", lambda t: I("usize", pscale(t, 3))),
                  Inv("elements of the groups done", lambda t: I("usize", pscale(t, 3) if e.decide(e.cmp("<=", pscale(t, 3), n)) else n)),
                  Inv("groups done", lambda t: I("usize", pscale(t, 16) if e.decide(e.cmp("<=", pscale(t, 16), M)) else M)), Inv("iterations", lambda t: I("usize", t))]
        e.counts = [c.B, M]
        return c

    def run(c):
        e = c.eng
        f = method(c, c.i["lh"], "hash_element_matrix" if matrix else "hash_element_array")
        cnt = [0]

        def on(o):
            cnt[0] += 1
            if o.kind == "panic": raise Undecided(f"panics: {o.val}")
            v = e.deref(o.val)
            if not (isinstance(v, En) and v.v == "Ok"): raise Undecided("an error")
            if matrix:
                b = c.B
                want = c.K.const(0) if e.decide(e.cmp("==", c.M, 0)) else c.gg(0) if e.decide(e.cmp("==", c.M, 1)) else c.S(b)
                got = c.k.lift(e, v.a[0])
                if e.decide(e.cmp(">", c.M, 1)):
                    # the last block: S(B) is the hash of what is left with capacity S(B - 1)
                    k = e.conc(I("usize", psub(c.M, pscale(psub(b, 1), 16))))
                    want = c.hash(c.S(psub(b, 1)), [c.gg(padd(pscale(psub(b, 1), 16), j)) for j in range(k)])
                    if not got.sub(want).is_const() and k == 16: want = c.S(b)
                d = got.sub(want)
                if not (d.is_const() and d.cval() == 0): raise Undecided("another digest")
                return
            got = c.scal(e.deref(v.a[0]))
            k = next((k for k in range(5) if e.decide(e.cmp("==", c.n, k))), None)
            want = c.S(c.B) if k is None else c.pack([c.x(j) for j in range(k)])
            d = got.sub(want)
            if not (d.is_const() and d.cval() == 0): raise Undecided("another digest")
        e.on_path = on
        def th():
            if matrix and e.decide(e.cmp("==", c.C, 0)): e.assume(e.cmp("==", c.n, 0))
            return e.call_fn(f, [Ref(Cell(c.lh)), Ref(Cell(SQ(c.C, c.cols) if matrix else SQ(c.n, c.x)))])
        e.explore(th)
        return info(e, cnt[0])

    def go():
        box = []
        def mkeng():
            box[:] = [mk()]
            return box[0].eng
        return prove_all(mkeng, lambda e: run(box[0]), "hash_element_matrix" if matrix else "hash_element_array", 400)
    if matrix: return Obl(f"{cv} matrices of every shape", f"{CV[cv]['lh']}::hash_element_matrix", "for every number of columns of every length: sponge over the packed elements of the columns in order", go, "vc (normal forms) + z3, loops cut by invariants")
    return Obl(f"{cv} rows of every length", f"{CV[cv]['lh']}::hash_element_array", "for every row of every length: the packed value (at most 4 elements) or the sponge over the packed groups of three, sixteen at a time", go, "vc (normal forms) + z3, loops cut by invariants")


def method(c, ty, name):
    f = c.eng.find_method(ty, name, [])
    if not f: raise rast.Missing(f"{ty}::{name}")
    return f


# ---------------------------------------------------------------- Merkle trees
def treectx(cv, workers=None, minops=None):
    c = Ctx(cv)
    lh = c.i["lh"]

    def harr(e, a):
        row = [e.deref(x) for x in e.deref(a[1]).e]
        return Ok(c.dig(leafatom(c, row)))

    def hnode(e, a):
        x = [c.scal(e.deref(y)) for y in e.deref(a[1]).e]
        if len(x) != 16: raise Panic("hash_node of other than sixteen digests")
        return Ok(c.dig(c.hash(c.k.lift(e, a[2]), x)))
    fc = c.eng.fncontracts
    fc[(lh, "hash_element_array")] = harr
    fc[(lh, "hash_node")] = hnode
    fc[(lh, "new")] = lambda e, a: c.lh
    if workers:
        for k in (None, "constant"): fc[(k, "get_max_workers")] = lambda e, a: I("usize", workers)
    if minops: c.eng.consts[("constant", "MIN_OPS_PER_THREAD")] = I("usize", minops)
    return c


def leafatom(c, row):
    return FV(c.K, {(c.K.atom(("leaf",) + tuple(x.key() for x in row)),): 1})


def levels(c, rows):
    out = [list(rows)]
    while len(out[-1]) > 1:
        l = out[-1]
        while len(l) % 16: l.append(c.K.const(0))
        out.append([c.hash(c.K.const(0), l[j:j + 16]) for j in range(0, len(l), 16)])
    return out


SHAPES = [(1, 1, 1, None), (1, 5, 3, None), (2, 2, 2, None), (3, 1, 1, None), (5, 3, 2, 1), (7, 1, 3, 1), (15, 1, 4, None), (16, 2, 3, 1), (17, 1, 2, None), (18, 3, 5, 2), (33, 1, 7, 1), (40, 2, 3, 3), (64, 1, 3, 1),
          (255, 1, 3, None), (256, 1, 5, 4), (257, 1, 7, 1), (290, 2, 4, 3)]


def c13():
    obls = []
    for cv in CV:
        def build(h, w, wk, mo, cv=cv, before=()):
            def run():
                c = treectx(cv, wk, mo)
                eng = c.eng
                ty = c.i["mt"]
                els = c.row(h * w)
                rows = [leafatom(c, els[j * w:j * w + w]) for j in range(h)]
                lv = levels(c, rows)
                cex = dict(cv=c.i["t"], h=h, w=w, before=list(before))
                cnt = [0]

                def th():
                    new = method(c, ty, "new")
                    t = Cell(eng.call_fn(new, []))
                    for bh, bw in before:
                        eng.call_fn(method(c, ty, "merkelize"), [Ref(t), V(c.row(bh * bw, f"b{bh}_")), I("usize", bw), I("usize", bh)])
                        eng.call_fn(method(c, ty, "root"), [Ref(t)])
                        eng.call_fn(method(c, ty, "get_group_proof"), [Ref(t), I("usize", bh - 1)])
                    r = eng.deref(eng.call_fn(method(c, ty, "merkelize"), [Ref(t), V(els), I("usize", w), I("usize", h)]))
                    if r.v != "Ok": raise Fail("merkelize refuses", cex)
                    root = eng.call_fn(method(c, ty, "root"), [Ref(t)])
                    c.same(c.scal(eng.deref(root)), lv[-1][0], f"root of {h} rows of {w}", cex)
                    idx = range(h) if h <= 40 else sorted({0, 1, 15, 16, h // 2, h - 2, h - 1, h // 16 * 16 - 1, 240 % h})
                    for i in idx:
                        r = eng.deref(eng.call_fn(method(c, ty, "get_group_proof"), [Ref(t), I("usize", i)]))
                        if r.v != "Ok": raise Fail(f"opening row {i} of {h} refused", cex)
                        row, mp = [eng.deref(x) for x in eng.deref(r.a[0]).e]
                        rv = [eng.deref(x) for x in row.e]
                        if [x.key() for x in rv] != [x.key() for x in els[i * w:i * w + w]]: raise Fail(f"opening {i} returns another row", cex)
                        path = [[eng.deref(x) for x in eng.deref(l).e] for l in mp.e]
                        want = [lv[l][(i >> 4 * l) // 16 * 16:][:16] for l in range(len(lv) - 1)]
                        if len(path) != len(want): raise Fail(f"path of row {i} of {h} has {len(path)} levels", cex)
                        for l in range(len(path)):
                            if len(path[l]) != 16: raise Fail(f"path level of {len(path[l])}", cex)
                            for a, b in zip(path[l], want[l]): c.same(c.k.lift(eng, a), b, f"path of row {i} of {h}, level {l}", cex)
                        v = eng.deref(eng.call_fn(method(c, ty, "verify_group_proof"), [Ref(t), Ref(Cell(root)), Ref(Cell(mp)), I("usize", i), Ref(Cell(row))]))
                        if v.v != "Ok": raise Fail(f"verification of row {i} of {h} refused", cex)
                        need(eng, eng.deref(v.a[0]), f"honest opening of row {i} of {h} rejected", {})
                    for i in (h, h + 1, h + 15, 16 * h, 2**32, 2**64 - 1):
                        r = eng.deref(eng.call_fn(method(c, ty, "get_group_proof"), [Ref(t), I("usize", i)]))
                        if r.v != "Err": raise Fail(f"row {i} of {h} opened", cex)
                    return UNIT

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                eng.on_path = on
                try: eng.explore(th)
                except Fail as x:
                    x.cex = cex; raise
                return info(eng, cnt[0])
            return run
        for h, w, wk, mo in SHAPES:
            obls.append(Obl(f"{cv} {h}x{w}, {wk} workers", f"{CV[cv]['mt']}::merkelize", f"bounded: for all contents of {h} rows of {w}, {wk} workers, per-thread minimum {mo or 'as written'}: root, every path, every opening accepted, rows outside refused", build(h, w, wk, mo), "vc (normal forms), bounded"))
        for (h, w), b in (((5, 3), [(2, 2)]), ((3, 1), [(20, 2)]), ((17, 1), [(3, 4), (1, 1)]), ((1, 5), [(18, 1)]), ((5, 2), [(5, 2)])):
            obls.append(Obl(f"{cv} {h}x{w} after {b}", f"{CV[cv]['mt']}::merkelize", f"bounded: for all contents, an object that held trees of the shapes {b} before: the same", build(h, w, 3, None, before=b), "vc (normal forms), bounded"))
    return obls


def c14():
    obls = []
    for cv in CV:
        def ver(depth, idx, w, cv=cv):
            def run():
                c = treectx(cv)
                eng = c.eng
                ty = c.i["mt"]
                row = c.row(w)
                R = c.K.var("root")
                path = [[c.K.var(f"p{l}_{j}") for j in range(16)] for l in range(depth)]
                cex = dict(cv=c.i["t"], depth=depth, idx=idx)
                v, i = leafatom(c, row), idx
                for l in range(depth):
                    x = list(path[l]); x[i % 16] = v
                    v = c.hash(c.K.const(0), x); i //= 16
                cnt = [0]

                def th():
                    t = eng.call_fn(method(c, ty, "new"), [])
                    r = eng.call_fn(method(c, ty, "verify_group_proof"), [Ref(Cell(t)), Ref(Cell(c.dig(R))), Ref(Cell(V([V(list(p)) for p in path]))), I("usize", idx), Ref(Cell(V(row)))])
                    return r

                def on(o):
                    cnt[0] += 1
                    got = okval(eng, o, "verification", cex)
                    want = eng.eq(c.dig(R), c.dig(v))
                    a, b = zb(got), zb(want)
                    if eng.prove(B(a == b)) != "ok": raise Fail(f"verification at index {idx}, {depth} levels, is not equality of the root with the fold of the row digest along the path", cex)
                eng.on_path = on
                eng.explore(th)
                return info(eng, cnt[0])
            return run
        for d, i, w in [(0, 0, 3), (1, 0, 1), (1, 1, 5), (1, 7, 2), (1, 15, 1), (1, 16, 1), (1, 31, 1)] + [(1, k, 1) for k in (2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14)] + [(2, i, 2) for i in (0, 1, 15, 16, 17, 31, 240, 255, 256, 1000, 0x5a)] + [(3, i, 1) for i in (0, 0x123, 0xfff, 0xf0e)] + [(4, 0x1234, 1), (8, 0x89abcdef, 1), (16, 0xfedcba9876543210, 1)]:
            if (d, i, w) == (0, 0, 3): obls.append(everydepth(cv))
            obls.append(Obl(f"{cv} depth {d} index {i}", f"{CV[cv]['mt']}::verify_group_proof", f"bounded: for all rows of {w}, paths of {d} levels and roots, index {i}: true iff the fold of the row digest, put at the index's digit in every level, is the root", ver(d, i, w), "vc (normal forms), bounded"))
    return obls


def everydepth(cv):
    """one obligation for every path length, index, root and row: the fold D(0) = digest of the row, D(t + 1) = the
    permutation of level t with D(t) at the t-th base-16 digit of the index; verification is root = D(length)"""
    def mk():
        c = treectx(cv)
        e, K = c.eng, c.K
        e.loop_bound, e.max_paths = 40, 4000
        nm = lambda s, i: f"{s}[{i if isinstance(i, int) else i.key()}]"
        L = c.L = e.insym("usize", "levels", 0, NMAX).e
        e.sizes = {"levels": L}
        idx = e.insym("usize", "idx", 0, 2**64 - 1).e
        rows = Family(e, lambda t: V([K.var(nm(f"p{j}", t)) for j in range(16)]))
        IX = Family(e, lambda t: idx if e.decide(e.cmp("==", t, 0)) else e.sym("ix", 0, 2**64 - 1).e)
        leaf = K.var("leaf")
        D = Family(e, lambda t: leaf if e.decide(e.cmp("==", t, 0)) else K.var(nm("D", t)))
        row = c.grow = V(c.row(1, "row"))
        def harr(en, a):
            x = [en.deref(y) for y in en.deref(a[1]).e]
            if [y.key() for y in x] != [y.key() for y in row.e]: raise Unsupported("another row is hashed")
            return Ok(c.dig(leaf))
        e.fncontracts[(c.i["lh"], "hash_element_array")] = harr

        def D1(t):
            x = list(rows(t).e)
            x[e.conc(I("usize", e.split(IX(t), 4)[0]))] = D(t)
            return c.hash(K.const(0), x)
        ix1 = lambda t: I("usize", e.split(IX(t), 4)[1])
        e.invs = [Inv("levels done", lambda t: I("usize", t)),
                  Inv("index without the digits done", lambda t: I("usize", IX(t)), ix1),
                  Inv("digest after t levels", lambda t: c.dig(D(t)), lambda t: c.dig(D1(t))),
                  Inv("scalar after t levels", lambda t: D(t), D1),
                  Inv("levels left", lambda t: SQ(psub(L, t), lambda i: rows(padd(i, t)))),
                  Inv("number of levels left", lambda t: I("usize", psub(L, t))),
                  Inv("16^t, bits", lambda t: I("usize", pscale(t, 4)))]
        e.counts = [L]
        e.recpost = (L, lambda: Ok(c.dig(D(L))))
        c.D, c.rows, c.idx = D, rows, idx
        return c

    def run(c):
        e, ty, K = c.eng, c.i["mt"], c.K
        R = K.var("root")
        cnt = [0]

        def th():
            t = e.call_fn(method(c, ty, "new"), [])
            return e.call_fn(method(c, ty, "verify_group_proof"), [Ref(Cell(t)), Ref(Cell(c.dig(R))), Ref(Cell(SQ(c.L, c.rows))), I("usize", c.idx), Ref(Cell(c.grow))])

        def on(o):
            cnt[0] += 1
            if o.kind == "panic": raise Undecided(f"verification panics: {o.val}")
            v = e.deref(o.val)
            if not (isinstance(v, En) and v.v == "Ok"): raise Undecided("verification gives an error")
            a, b = zb(e.deref(v.a[0])), zb(e.eq(c.dig(R), c.dig(c.D(c.L))))
            if e.prove(B(a == b)) != "ok": raise Undecided("verification is not equality of the root with the fold")
        e.on_path = on
        e.explore(th)
        return info(e, cnt[0])
    def go():
        box = []
        def mkeng():
            box[:] = [mk()]
            return box[0].eng
        return prove_all(mkeng, lambda e: run(box[0]), "verify_group_proof")
    return Obl(f"{cv} every depth and index", f"{CV[cv]['mt']}::verify_group_proof", "for every number of levels, index, row, path of 16-digest levels and root: true iff the fold of the row digest, put at the index's base-16 digit in every level, is the root", go, "vc (normal forms) + z3, recursion cut by its contract")


def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b.z


# ---------------------------------------------------------------- transcripts
F3 = "f3g::F3G"


class GPos:
    """the Goldilocks Poseidon: hash as an uninterpreted function of input and capacity (C10 gives its meaning)"""
    assoc = {}

    def __init__(self, c): self.c, self.tname = c, "poseidon_opt::Poseidon"
    def assoc_const(self, eng, n): return None

    def words(self, inp, cap, k):
        key = (tuple(x.key() for x in inp), tuple(x.key() for x in cap))
        return [FV(self.c.G, {(self.c.G.atom(("gpos", i) + key),): 1}) for i in range(k)]

    def static(self, eng, n, args): return St(self.tname, {}) if n in ("new", "default") else NotImplemented

    def method(self, eng, ref, v, n, args):
        if n in ("hash", "hash_ex"):
            inp, cap = ([eng.deref(x) for x in eng.deref(a).e] for a in args[:2])
            k = eng.conc(args[2], "output length")
            if len(inp) != 8 or len(cap) != 4 or not 0 <= k <= 12: return Err(Str("lengths"))
            return Ok(V(self.words(inp, cap, k)))
        return NotImplemented

    def binop(self, eng, op, a, b): return NotImplemented
    def unop(self, eng, op, a): return NotImplemented
    def order(self, eng, a, b): return NotImplemented
    def step(self, eng, v, s): raise Unsupported("poseidon field")
    def upd(self, eng, v, p, x): raise Unsupported("poseidon field")


class CurveTr:
    """specification of the scalar-field transcripts: state, pending, out (scalars), out3 (base elements)"""
    rate = 16

    def __init__(self, cv):
        self.c = c = Ctx(cv)
        self.ty = c.i["tr"]
        self.t = c.i["t"]

    def states(self):
        return [(p, 0, 0) for p in range(16)] + [(0, o, q) for o in range(18) for q in range(4) if o or q]

    def fresh(self, s):
        K, G = self.c.K, self.c.G
        return dict(state=K.var("s"), pending=[K.var(f"p{j}") for j in range(s[0])], out=[K.var(f"o{j}") for j in range(s[1])], out3=[G.var(f"g{j}") for j in range(s[2])])

    def build(self, m):
        return St(self.ty, {"state": m["state"], "poseidon": self.c.ptv, "pending": V(list(m["pending"])), "out": V(list(m["out"])), "out3": V(list(m["out3"]))})

    def read(self, eng, v):
        f = eng.deref(v).f
        g = lambda n: [eng.deref(x) for x in eng.deref(f[n]).e]
        return dict(state=self.c.k.lift(eng, f["state"]), pending=[self.c.k.lift(eng, x) for x in g("pending")], out=[self.c.k.lift(eng, x) for x in g("out")], out3=g("out3"))

    def new(self): return dict(state=self.c.K.const(0), pending=[], out=[], out3=[])

    def update(self, m):
        w = self.c.pos.words(self.c.eng, m["state"], m["pending"] + [self.c.K.const(0)] * (16 - len(m["pending"])), 17)
        m.update(state=w[0], pending=[], out=list(w), out3=[])

    def put(self, m, x):
        m.update(out=[], out3=[], pending=m["pending"] + [x])
        if len(m["pending"]) == 16: self.update(m)

    def word(self, m):
        if not m["out"]: self.update(m)
        return m["out"].pop(0)

    def draw(self, m):
        eng, G = self.c.eng, self.c.G
        if not m["out3"]:
            e = self.c.k.asint(eng, self.word(m)).e
            for _ in range(3):
                l, e = eng.split(e, 64)
                m["out3"].append(self.c.g.fromint(eng, I("u64", eng.divc(eng.norm(l), P64)[0] if not isinstance(eng.norm(l), int) else eng.norm(l) % P64)))
        return m["out3"].pop(0)

    def groups(self, eng):
        """arguments of put with the scalars they stand for"""
        c = self.c
        e = c.G.var("e")
        x = c.K.var("x")
        return [("one", [V([e])], lambda: [c.k.ofint(eng, c.g.asint(eng, e).e)]), ("digest", [V(c.limbs(x))], lambda: [x])]

    def many(self, eng, n):
        c = self.c
        vs, sp = [], []
        for j in range(n):
            if j % 3 == 1:
                x = c.K.var(f"x{j}"); vs.append(V(c.limbs(x))); sp.append(x)
            else:
                e = c.G.var(f"e{j}"); vs.append(V([e])); sp.append(c.k.ofint(eng, c.g.asint(eng, e).e))
        return vs, sp


class GLTr:
    rate = 8

    def __init__(self):
        self.c = c = Ctx("bn128")
        self.ty, self.t = "transcript::TranscriptGL", "gl"
        self.pos = c.eng.contracts["poseidon_opt::Poseidon"] = GPos(c)

    def states(self): return [(p, 0, 0) for p in range(8)] + [(0, o, 0) for o in range(1, 13)]

    def fresh(self, s):
        G = self.c.G
        return dict(state=[G.var(f"s{j}") for j in range(4)], pending=[G.var(f"p{j}") for j in range(s[0])], out=[G.var(f"o{j}") for j in range(s[1])])

    def build(self, m): return St(self.ty, {"state": V(list(m["state"])), "poseidon": St("poseidon_opt::Poseidon", {}), "pending": V(list(m["pending"])), "out": V(list(m["out"]))})

    def read(self, eng, v):
        f = eng.deref(v).f
        return {k: [eng.deref(x) for x in eng.deref(f[k]).e] for k in ("state", "pending", "out")}

    def new(self): return dict(state=[self.c.G.const(0)] * 4, pending=[], out=[])

    def update(self, m):
        w = self.pos.words(m["pending"] + [self.c.G.const(0)] * (8 - len(m["pending"])), m["state"], 12)
        m.update(state=w[:4], pending=[], out=list(w))

    def put(self, m, x):
        m.update(out=[], pending=m["pending"] + [x])
        if len(m["pending"]) == 8: self.update(m)

    def draw(self, m):
        if not m["out"]: self.update(m)
        return m["out"].pop(0)
    word = draw

    def groups(self, eng):
        G = self.c.G
        xs = [G.var(f"e{j}") for j in range(5)]
        return [("one", [V([xs[0]])], lambda: xs[:1]), ("none", [V([])], lambda: []), ("five", [V(xs[:2]), V(xs[2:])], lambda: xs)]

    def many(self, eng, n):
        G = self.c.G
        vs, sp = [], []
        for j in range(n):
            x = [G.var(f"e{j}_{k}") for k in range(j % 4)]
            vs.append(V(x)); sp += x
        return vs, sp


def samefield(tr, eng, a, b, what, cex):
    """two field values: normal forms, then (values made from integers) equality of the integers"""
    d = a.sub(b)
    if d.is_const() and d.cval() == 0: return
    ia, ib = intof(tr, eng, a), intof(tr, eng, b)
    if ia is not None and ib is not None:
        r = eng.prove(eng.cmp("==", ia, ib))
        if r == "ok": return
        if r == "unknown": raise Undecided(what)
    raise Fail(f"{what}: differs from the specified value", cex)


def intof(tr, eng, a):
    if a.is_const(): return a.cval()
    if a.pr is None and len(a.d) == 1:
        (m, c), = a.d.items()
        if c == 1 and len(m) == 1: return eng.__dict__.get("ints", {}).get((a.F.name, m[0]))
    return None


def samestate(tr, eng, v, m, what, cex):
    got = tr.read(eng, v)
    for k, w in m.items():
        g = got[k]
        if isinstance(w, list):
            if len(g) != len(w): raise Fail(f"{what}: {len(g)} values in {k}, specified {len(w)}", cex)
            for i, (x, y) in enumerate(zip(g, w)): samefield(tr, eng, x, y, f"{what}: {k}[{i}]", cex)
        else: samefield(tr, eng, g, w, f"{what}: {k}", cex)


def mktr(cv): return GLTr() if cv == "gl" else CurveTr(cv)


def c15():
    obls = []
    for cv in ("bn128", "bls12381", "gl"):
        def step(op, cv=cv):
            """op from every control state, all contents symbolic"""
            def run():
                tr = mktr(cv)
                c, eng = tr.c, tr.c.eng
                total = 0
                for s in tr.states():
                    jobs = []
                    if op == "put":
                        for nm, vs, sp in tr.groups(eng): jobs.append((nm, vs, sp))
                    elif op == "put many": jobs = [("many", n, None) for n in (0, 2, 7, 17, 20)]
                    else: jobs = [(op, None, None)]
                    for nm, vs, sp in jobs:
                        cex = dict(cv=tr.t, op=nm, n=vs if isinstance(vs, int) else 0, pending=s[0], out=s[1], out3=s[2])
                        what = f"{op} {nm} with {s[0]} pending, {s[1]} and {s[2]} buffered"
                        cell = Cell()
                        cnt = [0]

                        def th():
                            m = tr.fresh(s)
                            cell.v = tr.build(m)
                            if op.startswith("put"):
                                vv, xs = tr.many(eng, vs) if isinstance(vs, int) else (vs, sp())
                                r = eng.deref(eng.call_fn(method(c, tr.ty, "put"), [Ref(cell), Ref(Cell(V(list(vv))))]))
                                if r.v != "Ok": raise Fail(f"{what}: refused", cex)
                                for x in xs: tr.put(m, x)
                            elif op == "get_fields1":
                                r = eng.deref(eng.call_fn(method(c, tr.ty, "get_fields1"), [Ref(cell)]))
                                if r.v != "Ok": raise Fail(f"{what}: error", cex)
                                samefield(tr, eng, eng.deref(r.a[0]), tr.draw(m), f"{what}: challenge", cex)
                            else:
                                f = method(c, tr.ty, "get_field")
                                r = eng.deref(eng.call_fn(f, [Ref(cell)], [TyRef(F3)]))
                                w = [tr.draw(m) for _ in range(3)]
                                g = [eng.deref(x) for x in eng.deref(r.f["cube"]).e] if isinstance(r, St) else []
                                if len(g) != 3: raise Undecided("get_field result")
                                for x, y in zip(g, w): samefield(tr, eng, x, y, f"{what}: challenge", cex)
                            samestate(tr, eng, cell.v, m, what, cex)
                            return UNIT

                        def on(o):
                            cnt[0] += 1
                            if o.kind == "panic": raise Fail(f"{what} panics: {o.val}", cex)
                        eng.on_path = on
                        eng.explore(th)
                        if not cnt[0]: raise Undecided(f"{what}: no path")
                        total += cnt[0]
                return info(eng, total)
            return run

        def new(cv=cv):
            def run():
                tr = mktr(cv)
                eng = tr.c.eng
                cnt = [0]

                def on(o):
                    cnt[0] += 1
                    cex = dict(cv=tr.t, op="new", n=0, pending=0, out=0, out3=0)
                    if o.kind == "panic": raise Fail(f"new panics: {o.val}", cex)
                    samestate(tr, eng, o.val, tr.new(), "new", cex)
                eng.on_path = on
                eng.explore(lambda: eng.call_fn(method(tr.c, tr.ty, "new"), []))
                return info(eng, cnt[0])
            return run
        ty = "transcript::TranscriptGL" if cv == "gl" else CV[cv]["tr"]
        obls.append(Obl(f"{cv} new", f"{ty}::new", "the initial state: zero state, nothing pending, nothing buffered", new(), "vc (normal forms)"))
        for op, txt in (("put", "absorbing a value appends it, discards every buffered challenge, permutes when the rate is reached"),
                        ("put many", "absorbing up to 20 groups equals absorbing them one after the other"),
                        ("get_fields1", "the next word: a buffered one, else of the permutation of the zero-padded pending block chained on the state"),
                        ("get_field", "the next three words")):
            obls.append(Obl(f"{cv} {op}", f"{ty}::{op.split()[0]}", f"for every reachable combination of pending and buffered lengths and all contents: {txt}", step(op), "vc (normal forms) + z3"))
    return obls


def c16():
    obls = []
    for cv in ("bn128", "bls12381", "gl"):
        W = 63 if cv == "gl" else 253

        def perm(n, nb, s=(0, 0, 0), cv=cv, W=W):
            def run():
                tr = mktr(cv)
                c, eng = tr.c, tr.c.eng
                eng.merge_on = True
                fld, fc = (c.G, c.g) if cv == "gl" else (c.K, c.k)
                bits = 64 if cv == "gl" else fld.p.bit_length()

                def asint(e, a):
                    a = e.deref(a)
                    if a.is_const(): return I("u64", a.cval())
                    k = ("asint", fld.name, a.key())
                    if k not in e.splits:
                        x = 0
                        for b in range(bits): x = padd(x, pscale(e.sym("b", 0, 1).e, 1 << b))
                        e.splits[k] = x
                    return I("u64", e.splits[k])
                fc.asint = asint
                cex = dict(cv=tr.t, op="perm", n=n, nb=nb)
                cell = Cell()
                cnt = [0]

                def th():
                    m = tr.fresh(s)
                    cell.v = tr.build(m)
                    r = eng.deref(eng.call_fn(method(c, tr.ty, "get_permutations"), [Ref(cell), I("usize", n), I("usize", nb)]))
                    if r.v != "Ok": raise Fail(f"{n} positions of {nb} bits: error", cex)
                    got = [eng.deref(x) for x in eng.deref(r.a[0]).e]
                    if len(got) != n: raise Fail(f"{len(got)} positions instead of {n}", cex)
                    ws = [tr.word(m) for _ in range(-(-n * nb // W))]
                    bit = []
                    for w in ws:
                        e = eng.norm(asint(eng, w).e)
                        for _ in range(W):
                            l, e = eng.split(e, 1); bit.append(l)
                    for i in range(n):
                        x = 0
                        for j in range(nb): x = padd(x, pscale(bit[i * nb + j], 1 << j))
                        d = eng.norm(psub(got[i].e, x))
                        if d != 0: need(eng, eng.cmp("==", d, 0), f"position {i} of {n} ({nb} bits)", {})
                    samestate(tr, eng, cell.v, m, f"{n} positions of {nb} bits", cex)
                    return UNIT

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Fail(f"{n} positions of {nb} bits: panics: {o.val}", cex)
                eng.on_path = on
                try: eng.explore(th)
                except Fail as x:
                    x.cex = cex; raise
                return info(eng, cnt[0])
            return run
        def fresh(cv=cv):
            """the next word, from every state (the contract of the calls in get_permutations)"""
            def run():
                tr = mktr(cv)
                c, eng = tr.c, tr.c.eng
                f = eng.find_method(tr.ty, "get_fields1" if cv == "gl" else "get_fields253", [])
                if not f: raise Undecided("no function that gives the next word")
                total = 0
                for s in tr.states():
                    cell, cnt = Cell(), [0]
                    cex = dict(cv=tr.t, op="perm", n=1, nb=20)

                    def th():
                        m = tr.fresh(s)
                        cell.v = tr.build(m)
                        r = eng.deref(eng.call_fn(f, [Ref(cell)]))
                        if r.v != "Ok": raise Fail(f"no word from {s}", cex)
                        x = eng.deref(r.a[0])
                        samefield(tr, eng, x if cv == "gl" else c.k.lift(eng, x), tr.word(m), f"word from {s}", cex)
                        samestate(tr, eng, cell.v, m, f"word from {s}", cex)
                        return UNIT

                    def on(o):
                        cnt[0] += 1
                        if o.kind == "panic": raise Fail(f"word from {s}: panics: {o.val}", cex)
                    eng.on_path = on
                    eng.explore(th)
                    if not cnt[0]: raise Undecided("no path")
                    total += cnt[0]
                return info(eng, total)
            return run

        def anyperm(nb, cv=cv, W=W):
            """n positions of nb bits, any n >= 1: the calls for the next word by contract (word k is the k-th fresh word)"""
            box = []

            def mkeng():
                tr = mktr(cv)
                eng = tr.c.eng
                eng.merge_on = True
                eng.loop_bound, eng.max_paths, eng.unroll = 600, 20000, 70
                box[:] = [tr]
                return eng

            def run(eng):
                tr = box[0]
                c = tr.c
                n = eng.insym("usize", "n", 1, NMAX).e
                eng.sizes = {"n": n, "nb": nb}
                fld, fc = (c.G, c.g) if cv == "gl" else (c.K, c.k)
                size = 64 if cv == "gl" else fld.p.bit_length()
                pool, used, seen = [], [None, 0], {}

                def mkword(k):
                    """an element and its bits; symbols of earlier paths are used again"""
                    if used[0] is not eng.solver: used[:] = [eng.solver, 0]
                    if used[1] == len(pool): pool.append((fld.var(f"word{used[1]}"), [eng.sym("b", 0, 1).e for _ in range(size)]))
                    used[1] += 1
                    return pool[used[1] - 1]
                word = Family(eng, mkword)

                def draw(k):
                    x, b = word(k)
                    if x.key() not in seen: seen[x.key()] = mk({next(iter(y.d)): 1 << j for j, y in enumerate(b)})
                    return x

                def asint(e, a):
                    x = seen.get(e.deref(a).key())
                    if x is None: raise Unsupported("an integer that is no drawn word")
                    return I("u64", x)
                fc.asint = asint

                def nextword(e, args):
                    r = args[0]
                    v = e.deref(r)
                    k = v.f["drawn"].e
                    e.store(*e.through((r.c, r.p)), me(e.norm(padd(k, 1))))
                    return Ok(draw(k))
                eng.fncontracts[(tr.ty, "get_fields1" if cv == "gl" else "get_fields253")] = nextword
                me = lambda k: St(tr.ty, {"drawn": I("usize", k)})
                big = lambda x: St("num_bigint::BigUint", {"v": I(None, x)})
                pos = Family(eng, lambda t: eng.sym("pos", 0, (1 << nb) - 1).e)

                def split(t):
                    """(word, bit) where position t starts: nb*t = W*word + bit, the bit on each path a number"""
                    if t == 0: return 0, 0
                    l, h = eng.divc(pscale(t, nb), W) if not isinstance(t, int) else (t * nb % W, t * nb // W)
                    if not isinstance(l, int):
                        lo, hi = 0, W - 1
                        while lo < hi:
                            mid = (lo + hi) // 2
                            if eng.decide(eng.cmp("<=", l, mid)): hi = mid
                            else: lo = mid + 1
                        eng.assume(eng.cmp("==", l, lo))
                        return h, lo
                    return h, l

                def spec(t):
                    q, r = split(t)
                    x = 0
                    for j in range(nb): x = padd(x, pscale(word(eng.norm(padd(q, (r + j) // W)))[1][(r + j) % W], 1 << j))
                    return x

                def took(v, t):
                    v = eng.deref(v)
                    if not isinstance(v, (SQ, V)) or not yes(eng, eng.cmp("==", seqlen(eng, v), padd(t, 1))): return False
                    x = eng.deref(elem(eng, v, t))
                    d = eng.norm(psub(x.e, spec(t)))
                    if d != 0 and not yes(eng, eng.cmp("==", d, 0)): return False
                    if t == 0: return True
                    j = eng.sym("j", 0, NMAX).e
                    eng.assume(eng.cmp("<", j, t))
                    return same(eng, elem(eng, v, j), I("usize", pos(j)))
                usz = lambda e: I("usize", e)
                eng.invs = [Inv("the words drawn so far", lambda t: SQ(t, lambda k: asbig(k))),
                            Inv("the number of words drawn", me),
                            Inv("the positions so far", lambda t: SQ(t, lambda j: usz(pos(j)), (), "usize"), start=lambda v: isinstance(eng.deref(v), (SQ, V)) and yes(eng, eng.cmp("==", seqlen(eng, eng.deref(v)), 0)), ok=took),
                            Inv("the word position t starts in", lambda t: usz(split(t)[0])),
                            Inv("the bit position t starts at", lambda t: usz(split(t)[1])),
                            Inv("the bits used", lambda t: usz(eng.norm(pscale(t, nb))))]

                def asbig(k): return big(asint(eng, draw(k)).e)
                cnt, st = [0], {}

                def th():
                    st["c"] = Cell(me(0))
                    return eng.call_fn(method(c, tr.ty, "get_permutations"), [Ref(st["c"]), usz(n), usz(nb)])

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Undecided(f"positions of {nb} bits: panics: {o.val}")
                    r = eng.deref(o.val)
                    if r.v != "Ok": raise Undecided("error")
                    if not same(eng, r.a[0], SQ(n, lambda j: usz(pos(j)))): raise Undecided("not n positions")
                    k = eng.deref(Ref(st["c"])).f["drawn"].e
                    # as many words as the bits need
                    if not (yes(eng, eng.cmp(">=", pscale(k, W), pscale(n, nb))) and yes(eng, eng.cmp("<", pscale(k, W), padd(pscale(n, nb), W)))): raise Undecided("not the words the bits need")
                eng.on_path = on
                eng.explore(th)
                return info(eng, cnt[0])
            return lambda: prove_all(mkeng, run, "get_permutations")
        ty = "transcript::TranscriptGL" if cv == "gl" else CV[cv]["tr"]
        obls.append(Obl(f"{cv} the next word", f"{ty}::{'get_fields1' if cv == 'gl' else 'get_fields253'}", "from every state: the next buffered word, else the first of a new permutation", fresh(), "vc (normal forms)"))
        for nb in range(1, 65 if cv == "gl" else 33):
            obls.append(Obl(f"{cv} any number of {nb} bits", f"{ty}::get_permutations", f"any number of positions: position i is bits {nb}i.. of the fresh words' low {W} bits; as many words as needed are drawn", anyperm(nb), "vc (loop invariants, z3)"))
        grid = [(1, 1), (1, 2), (1, 63), (2, 32), (3, 21), (63, 1), (64, 1), (4, 16), (8, 20), (7, 9), (9, 7), (16, 19), (5, 64 if cv != "gl" else 63), (11, 23), (22, 24), (128, 6), (23, 11), (253, 1), (254, 1), (32, 8), (36, 21)]
        for n, nb in grid:
            obls.append(Obl(f"{cv} {n} of {nb} bits", f"{ty}::get_permutations", f"bounded ({n} positions of {nb} bits): for all transcript words, position i is bits i*{nb}.. of the fresh words' low {W} bits", perm(n, nb), "vc (normal forms), bounded"))
        for s in ([(3, 0, 0), (0, 1, 0), (0, 12, 0), (7, 0, 0)] if cv == "gl" else [(3, 0, 0), (0, 1, 0), (0, 1, 2), (0, 17, 0), (0, 0, 1)]):
            obls.append(Obl(f"{cv} 6 of 50 bits from {s}", f"{ty}::get_permutations", f"bounded: the same with {s[0]} pending and {s[1]} buffered words", perm(6, 50, s), "vc (normal forms), bounded"))
    return obls


# ---------------------------------------------------------------- digests
def rawsc(c, tag="l"):
    """a scalar by its four raw words, as integer symbols below the modulus in total"""
    ls = [c.eng.sym(f"{tag}{j}", 0, 2**64 - 1, "u64") for j in range(4)]
    return ls, St(c.fr, {"0": St(c.k.rep, {"0": V(ls, "u64")})})


def c17():
    obls = []
    for cv in CV:
        def scalar(panics, cv=cv):
            """storing a scalar and reading it back"""
            def run():
                c = Ctx(cv, digest=False)
                eng = c.eng
                eng.tdefaults = {DG: {"N": I("usize", 4), "F": TyRef(c.fr)}}
                ls, f = rawsc(c)
                X = 0
                for j, l in enumerate(ls): X = padd(X, pscale(l.e, 1 << 64 * j))
                ins = {f"l{j}": l for j, l in enumerate(ls)}
                ins["cv"] = I(None, 0 if c.i["t"] == "bn" else 1)
                cnt = [0]

                def th():
                    eng.assume(eng.cmp("<", X, c.K.p))
                    if not panics:
                        for l in ls: eng.assume(eng.cmp("<", l.e, P64))
                    d = eng.call_fn(method(c, DG, "from_scalar"), [Ref(Cell(f))], [TyRef(c.fr)])
                    r = eng.call_fn(method(c, DG, "as_scalar"), [Ref(Cell(d))], [TyRef(c.fr)])
                    return T([d, r])

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic":
                        need(eng, False, "KF:digest-limb a scalar with a raw word not below the Goldilocks modulus panics when stored as a digest", ins)
                        return
                    d, r = o.val.e
                    el = [eng.deref(x) for x in eng.deref(d).f["0"].e]
                    if len(el) != 4: raise Fail("not four words", {})
                    w = [eng.deref(x) for x in eng.deref(eng.deref(r).f["0"]).e]
                    for j in range(4):
                        need(eng, eng.cmp("==", c.g.asint(eng, el[j]).e, ls[j].e), f"word {j} stored", ins)
                        need(eng, eng.cmp("==", w[j].e, ls[j].e), f"word {j} read back", ins)
                eng.on_path = on
                eng.explore(th)
                return info(eng, cnt[0])
            return run

        def words(cv=cv):
            def run():
                c = Ctx(cv, digest=False)
                eng = c.eng
                eng.tdefaults = {DG: {"N": I("usize", 4), "F": TyRef(c.fr)}}
                cnt = [0]
                e = c.row(4)

                def th():
                    d = Cell(eng.call_fn(method(c, DG, "new"), [Ref(Cell(V(e)))]))
                    a = eng.call_fn(method(c, DG, "as_elements"), [Ref(d)])
                    s = eng.call_fn(method(c, DG, "as_scalar"), [Ref(d)], [TyRef(c.fr)])
                    z = eng.call_fn(method(c, DG, "is_dim_1"), [Ref(d)])
                    z = eng.decide(z)
                    one = all(eng.decide(c.g.feq(eng, x, c.G.const(0))) for x in e[1:])
                    if z != one: need(eng, False, "is_dim_1", {})
                    n = eng.deref(eng.call_fn(method(c, DG, "default"), [], None))
                    return T([a, s, n])

                def on(o):
                    cnt[0] += 1
                    cex = dict(cv=c.i["t"])
                    if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                    a, s, n = [eng.deref(x) for x in o.val.e]
                    for x, y in zip(a.e, e):
                        if eng.deref(x).key() != y.key(): raise Fail("as_elements", cex)
                    for x, y in zip(eng.deref(s.f["0"]).e, e):
                        if vkey(I("u64", x.e)) != vkey(I("u64", c.g.asint(eng, y).e)): raise Fail("as_scalar", cex)
                    z = [eng.deref(x) for x in eng.deref(n.f["0"]).e]
                    if len(z) != 4 or any(not x.is_const() or x.cval() for x in z): raise Fail("default", cex)
                eng.on_path = on
                eng.explore(th)
                return info(eng, cnt[0])
            return run

        def conv(cv=cv):
            def run():
                c = Ctx(cv, digest=False)
                eng = c.eng
                cnt = [0]
                e = c.row(4)
                r = eng.P.find(eng.P.mods["digest"], [c.i["conv"]], "fns")
                if not r: raise rast.Missing(c.i["conv"])
                X = 0
                for j, x in enumerate(e): X = padd(X, pscale(c.g.asint(eng, x).e, 1 << 64 * j))
                ins = {f"e{j}": I("u64", c.g.asint(eng, x).e) for j, x in enumerate(e)}
                ins["cv"] = I(None, 0 if c.i["t"] == "bn" else 1)

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic":
                        need(eng, eng.cmp(">=", X, c.K.p), "refuses four words whose value is below the modulus", ins)
                        return
                    need(eng, eng.cmp("<", X, c.K.p), "accepts four words whose value is not below the modulus", ins)
                    v = eng.deref(o.val)
                    if not isinstance(v, FV): raise Undecided("result")
                    d = v.sub(c.k.ofint(eng, X))
                    if not (d.is_const() and d.cval() == 0): need(eng, False, "value of four words", ins)
                eng.on_path = on
                eng.explore(lambda: eng.call_fn((r[0], None, r[1], None), [Ref(Cell(V(e)))]))
                return info(eng, cnt[0])
            return run

        def helper(cv=cv):
            def run():
                c = Ctx(cv, digest=False)
                eng = c.eng
                cnt = [0]
                x = c.K.var("x")
                f = lambda n: (eng.P.mods["helper"], None, eng.P.mods["helper"].fns[n], None)
                cex = dict(cv=c.i["t"])

                def th():
                    b = eng.call_fn(f("fr_to_biguint"), [Ref(Cell(x))])
                    y = eng.call_fn(f("biguint_to_fr"), [Ref(Cell(b))], [TyRef(c.fr)])
                    return T([b, y])

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                    b, y = [eng.deref(v) for v in o.val.e]
                    need(eng, eng.cmp("==", b.f["v"].e, c.k.asint(eng, x).e), "fr_to_biguint", {})
                    c.same(y, x, "biguint_to_fr(fr_to_biguint(x))", cex)
                eng.on_path = on
                eng.explore(th)
                return info(eng, cnt[0])
            return run

        def tree(cv=cv):
            def run():
                c = Ctx(cv)
                eng = c.eng
                cnt = [0]
                x = c.K.var("x")
                cex = dict(cv=c.i["t"])

                def th():
                    d = eng.call_fn(method(c, c.i["mt"], "from_basefield"), [Ref(Cell(x))])
                    return T([d, eng.call_fn(method(c, c.i["mt"], "to_basefield"), [Ref(Cell(d))])])

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                    d, v = [eng.deref(y) for y in o.val.e]
                    c.same(c.scal(d), x, "from_basefield", cex)
                    if len(v.e) != 1: raise Fail("to_basefield", cex)
                    c.same(c.k.lift(eng, v.e[0]), x, "to_basefield", cex)
                eng.on_path = on
                eng.explore(th)
                return info(eng, cnt[0])
            return run
        obls += [Obl(f"{cv} scalar round trip", f"{DG}::from_scalar", "for all scalars whose four raw words are below the Goldilocks modulus: stored word by word, read back equal", scalar(False), "vc + z3"),
                 Obl(f"{cv} every scalar can be stored", f"{DG}::from_scalar", "for all scalars: storing does not panic", scalar(True), "vc + z3"),
                 Obl(f"{cv} words", f"{DG}::{{new, as_elements, as_scalar, is_dim_1, default}}", "for all four words: kept as they are, position by position", words(), "vc (normal forms) + z3"),
                 Obl(f"{cv} packing", f"digest::{CV[cv]['conv']}", "for all four words: sum w_i 2^(64 i) when below the modulus, refused otherwise", conv(), "vc (normal forms) + z3"),
                 Obl(f"{cv} integers", "helper::{fr_to_biguint, biguint_to_fr}", "for all scalars: the integer it stands for, and back", helper(), "vc (normal forms) + z3"),
                 Obl(f"{cv} tree nodes", f"{CV[cv]['mt']}::{{from_basefield, to_basefield}}", "for all scalars: the node holding it, and back", tree(), "vc (normal forms)")]

    def red():
        c = Ctx("bn128", digest=False)
        eng = c.eng
        cnt = [0]
        top = 1 << 4096
        x = eng.sym("x", 0, top)

        def on(o):
            cnt[0] += 1
            if o.kind == "panic": raise Fail(f"panics: {o.val}", {"big": 1})
            v = c.g.asint(eng, eng.deref(o.val)).e
            k = intof(None, eng, eng.deref(o.val))
            want = eng.divc(x.e, P64)[0]
            need(eng, eng.cmp("==", k if k is not None else v, want), "biguint_to_be is reduction modulo the prime", {})
        eng.on_path = on
        eng.explore(lambda: eng.call_fn((eng.P.mods["helper"], None, eng.P.mods["helper"].fns["biguint_to_be"], None), [Ref(Cell(big(x.e)))]))
        return info(eng, cnt[0])
    obls.append(Obl("reduction", "helper::biguint_to_be", "for all integers up to 2^4096: the residue modulo the Goldilocks prime", red, "vc + z3"))
    return obls
