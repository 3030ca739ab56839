"""C19 for files of every length and content.  Each reader of r1cs_file.rs is checked against its contract on an
unknown file (SFile: bytes by offset), its callers against those contracts.  What the format says is read off the
file's bytes by the families below; the code must accept exactly that and return exactly that."""
from alg import *
import seq
from seq import SM, SSQ, SIt, witness, Any, ANY

OFFMAX = 1 << 48


class File:
    """what an R1CS file over field f says"""

    def __init__(self, f):
        self.f = f
        c = self.c = Ctx(f)
        e = self.e = c.eng
        e.loop_bound, e.max_paths, e.unroll, e.few, e.invs = 0, 8000, 100, 0, []
        F = self.F = SFile(e)
        e.contracts[SRD] = SReader(F)
        e.sizes = {"len": F.n}
        self.B = c.n
        self.U = 4 + c.n
        flag = lambda s: Family(e, lambda p: e.sym(s, 0, 1).e)
        def after(s, k):
            def mk_(p):
                q = e.sym(s, 0, OFFMAX).e
                e.assume(e.cmp(">=", q, padd(p, k)))
                e.assume(e.cmp("<=", q, F.n))
                return q
            return Family(e, mk_)
        self.vok, self.vend = flag("vok"), after("vend", 4)             # one linear combination at p
        self.sok, self.send = flag("sok"), after("send", 1)             # a text ended by a zero byte at p
        self.cok, self.cend = flag("cok"), after("cend", 0)             # the constraints at p
        self.gok, self.gend = flag("gok"), after("gend", 4)             # the list of custom gates at p
        self.uok = flag("uok")                                          # the uses of custom gates at p
        self.mod = e.P.mods["r1cs_file"]

    def true(self, b): return self.e.decide(self.e.cmp("==", b, 1))
    def num(self, p, k): return self.F.num(p, k)
    def rd(self, p): return St(SRD, {"pos": I("u64", self.e.norm(p))})

    # ---- the reader argument of a contract
    def place(self, a):
        e = self.e
        c, p = e.through((a.c, a.p)) if isinstance(a, Ref) else (None, None)
        v = e.deref(a)
        if not (isinstance(v, St) and v.n == SRD): raise Unsupported("the reader is something else")
        at = e.norm(v.f["pos"].e)
        if e.prove(e.cmp("<=", at, self.F.n)) != "ok": raise Unsupported("reading past the end")

        def move(q):
            if c is None: raise Unsupported("a reader that is not passed on")
            e.store(c, p, self.rd(q))
        return at, move

    def fail(self, move):
        move(self.e.sym("anywhere", 0, OFFMAX).e)
        return Err(Op("refused", (), "io"))

    def terms(self, p): return Op("terms", (I("u64", p),), "terms")

    def k_vec(self, e, a):
        p, move = self.place(a[0])
        if not self.true(self.vok(p)): return self.fail(move)
        move(self.vend(p))
        return Ok(self.terms(p))

    def k_text(self, e, a):
        p, move = self.place(a[0])
        if not self.true(self.sok(p)): return self.fail(move)
        move(self.send(p))
        return Ok(Op("text", (I("u64", p),), "text"))

    def field(self, h, k): return self.e.norm(self.e.deref(self.e.deref(h).f[k]).e)

    def k_cons(self, e, a):
        p, move = self.place(a[0])
        if e.prove(e.cmp("==", self.field(a[2], "n_constraints"), self.nc)) != "ok": raise Unsupported("another number of constraints")
        if not self.true(self.cok(p)): return self.fail(move)
        move(self.cend(p))
        return Ok(Op("constraints", (I("u64", p),), "cons"))

    def mapped(self, p, n): return SQ(n, lambda i: I("u64", self.num(padd(p, pscale(i, 8)), 8)))

    def mapwf(self, p, size, nw):
        e = self.e
        if not e.decide(e.cmp("==", size, pscale(nw, 8))) or not e.decide(e.cmp(">=", nw, 1)): return False
        return e.decide(e.cmp("<=", padd(p, size), self.F.n)) and e.decide(e.cmp("==", self.num(p, 8), 0))

    def k_map(self, e, a):
        p, move = self.place(a[0])
        nw = self.field(a[2], "n_wires")
        if not self.mapwf(p, e.norm(a[1].e), nw): return self.fail(move)
        move(padd(p, pscale(nw, 8)))
        return Ok(self.mapped(p, nw))

    def k_gates(self, e, a):
        p, move = self.place(a[0])
        if not self.true(self.gok(p)): return self.fail(move)
        move(self.gend(p))
        return Ok(Op("gates", (I("u64", p),), "gates"))

    def k_uses(self, e, a):
        p, move = self.place(a[0])
        s = e.norm(a[1].e)
        if e.prove(e.cmp("<=", padd(p, s), self.F.n)) != "ok": raise Unsupported("a section longer than the file")
        if not self.true(self.uok(p)): return self.fail(move)
        move(e.sym("anywhere", 0, OFFMAX).e)
        return Ok(Op("uses", (I("u64", p), I("u64", s)), "uses"))

    def contract(self, **kw):
        for n, h in kw.items():
            for k in (None, "r1cs_file"): self.e.fncontracts[(k, n)] = h

    def header(self, **known):
        e = self.e
        it = self.mod.structs["Header"]
        d = e.default(TyRef(it.get("qn", "Header"))) if False else None
        f = {k: I(t, e.insym(t, k).e) for k, t in (("field_size", "u32"), ("n_wires", "u32"), ("n_pub_out", "u32"), ("n_pub_in", "u32"), ("n_prv_in", "u32"), ("n_labels", "u64"), ("n_constraints", "u32"))}
        f.update({"prime_size": V(le(self.c.p, self.B), "u8"), "use_custom_gates": False})
        f.update(known)
        return Ref(Cell(St("Header", f)))

    def call(self, n, args):
        """with the reader (a reference) first"""
        fn = self.c.fn("r1cs_file", n)
        ts = [g["n"] for g in fn[2]["gen"]["names"] if g["k"] != "lt"]
        return self.e.call_fn(fn, args, [TyRef(SRD) if t == "R" else TyRef(E) for t in ts])


def every(f, what, text, mk, name):
    """mk(file) sets the invariants and returns (run, on)"""
    def go():
        box = []

        def mkeng():
            box[:] = [File(f)]
            return box[0].e

        def run(e):
            th, on = mk(box[0])
            cnt = [0]

            def path(o):
                cnt[0] += 1
                try:
                    if o.kind == "panic" and what != "load_r1cs_from_bin": raise Undecided(f"{what} panics: {o.val}")
                    on(o)
                except Undecided as u:
                    u.wit = witness(e)
                    raise
            e.on_path = path
            e.explore(th)
            return info(e, cnt[0])
        return prove_all(mkeng, run, what)
    return Obl(f"{f} {name}", f"algebraic-gpu/src/{'reader' if what[:4] == 'load' else 'r1cs_file'}.rs {what}", text, go, "vc (normal forms) + z3, loops cut by invariants")


def got(e, v, want, what):
    if not same(e, v, want):
        if seq.DBG: print("GOT", what, v, want, e.pc[-12:])
        raise Undecided(f"{what} is not as specified")


def bad(msg): raise Undecided(msg)


def pos_is(e, v, p):
    v = e.deref(v)
    return isinstance(v, St) and v.n == SRD and yes(e, e.cmp("==", v.f["pos"].e, p))


def inside(R, at, step):
    """the reader stands at at(t), and everything before is in the file"""
    e = R.e

    def give(t):
        p = e.norm(at(t))
        e.assume(e.cmp("<=", p, R.F.n))
        return R.rd(p)

    def ok(v, t):
        p = step(t)
        return pos_is(e, v, p) and yes(e, e.cmp("<=", p, R.F.n))
    return Inv("place in the file", give, ok=ok, start=lambda v: pos_is(e, v, at(0)) and yes(e, e.cmp("<=", at(0), R.F.n)))


def c19():
    out = []
    for f in PR:
        # ---- one linear combination
        def vec(R):
            e = R.e
            p = e.insym("u64", "p", 0, OFFMAX).e
            n = lambda: R.num(p, 4)
            at = lambda t: padd(p, padd(4, pscale(t, R.U)))
            coef = lambda t: R.num(padd(at(t), 4), R.B)
            term = lambda t: T([I("usize", R.num(at(t), 4)), fe(coef(t))])

            def ok(srt):
                def k(v, t):
                    return yes(e, e.cmp("<", coef(t), R.c.p)) and same(e, v, (SSQ if srt else lambda s: s)(SQ(padd(t, 1), term)))
                return k
            e.invs = [inside(R, at, lambda t: at(padd(t, 1))),
                      Inv("the terms so far, sorted by wire", lambda t: SSQ(SQ(t, term)), ok=ok(True)),
                      Inv("the terms so far", lambda t: SQ(t, term), ok=ok(False))]
            cell = []

            def th():
                e.assume(e.cmp("<=", p, R.F.n))
                cell[:] = [Cell(R.rd(p))]
                return R.call("read_constraint_vec", [Ref(cell[0]), R.header()])

            def on(o):
                v = result(e, o, "a linear combination", {})
                head = e.decide(e.cmp("<=", padd(p, 4), R.F.n))
                if v.v == "Ok":
                    if not head: bad("a linear combination past the end")
                    got(e, v.a[0], SSQ(SQ(n(), term)), "the linear combination")
                    if not pos_is(e, cell[0].v, at(n())): bad("the place after it")
                elif head:
                    for t in e.cutts:
                        if not e.decide(e.cmp("<=", at(padd(t, 1)), R.F.n)) or not e.decide(e.cmp("<", coef(t), R.c.p)): return
                    bad("a well-formed linear combination is refused")
            return th, on
        out.append(every(f, "read_constraint_vec", "at every place of every file: read exactly when its terms are in the file and its coefficients in the field; the terms, stably sorted by wire", vec, "linear combination of any length"))

        # ---- the constraints
        def cons(R):
            e = R.e
            R.contract(read_constraint_vec=R.k_vec)
            p = e.insym("u64", "p", 0, OFFMAX).e
            nc = e.insym("u32", "nc").e
            e.sizes["nc"] = nc
            P_ = Family(e, lambda t: p if e.decide(e.cmp("==", t, 0)) else e.sym("at", 0, OFFMAX).e)
            step = lambda t: R.vend(R.vend(R.vend(P_(t))))

            def con(t):
                a = P_(t)
                b = R.vend(a)
                return T([R.terms(a), R.terms(b), R.terms(R.vend(b))])
            oks = lambda t: (R.vok(P_(t)), R.vok(R.vend(P_(t))), R.vok(R.vend(R.vend(P_(t)))))
            e.invs = [inside(R, P_, step),
                      Inv("the constraints so far", lambda t: SQ(t, con), ok=lambda v, t: same(e, v, SQ(padd(t, 1), con)) and all(yes(e, e.cmp("==", x, 1)) for x in oks(t)))]
            cell = []

            def th():
                e.assume(e.cmp("<=", p, R.F.n))
                cell[:] = [Cell(R.rd(p))]
                return R.call("read_constraints", [Ref(cell[0]), I("u64", e.insym("u64", "size").e), R.header(n_constraints=I("u32", nc))])

            def on(o):
                v = result(e, o, "the constraints", {})
                if v.v == "Ok":
                    got(e, v.a[0], SQ(nc, con), "the constraints")
                    if not pos_is(e, cell[0].v, P_(nc)): bad("the place after them")
                else:
                    for t in e.cutts:
                        for x in oks(t):
                            if not R.true(x): return
                    bad("well-formed constraints are refused")
            return th, on
        out.append(every(f, "read_constraints", "any number of constraints: exactly the three combinations of each, one after the other", cons, "any number of constraints"))

        # ---- the wire map
        def wmap(R):
            e = R.e
            p, size, nw = [e.insym("u64", "p", 0, OFFMAX).e, e.insym("u64", "size").e, e.insym("u32", "nw").e]
            e.sizes["nw"] = nw
            at = lambda t: padd(p, pscale(t, 8))
            e.invs = [inside(R, at, lambda t: at(padd(t, 1))), Inv("the map so far", lambda t: R.mapped(p, t))]
            cell = []

            def th():
                e.assume(e.cmp("<=", p, R.F.n))
                cell[:] = [Cell(R.rd(p))]
                return R.call("read_map", [Ref(cell[0]), I("u64", size), R.header(n_wires=I("u32", nw))])

            def on(o):
                v = result(e, o, "the wire map", {})
                for t in e.cutts:
                    if v.v == "Err" and not e.decide(e.cmp("<=", at(padd(t, 1)), R.F.n)): return
                wf = R.mapwf(p, size, nw)
                if (v.v == "Ok") != wf: bad("a well-formed map is refused" if wf else "a malformed map is accepted")
                if wf:
                    got(e, v.a[0], R.mapped(p, nw), "the map")
                    if not pos_is(e, cell[0].v, at(nw)): bad("the place after it")
            return th, on
        out.append(every(f, "read_map", "any number of wires: exactly the entries, wire 0 mapped to 0, a section of exactly that size", wmap, "wire map of any size"))

        # ---- texts
        def text(R):
            e = R.e
            p = e.insym("u64", "p", 0, OFFMAX).e
            byte = lambda i: R.F.byte(padd(p, i))

            def took(v, t): return same(e, v, SQ(padd(t, 1), byte)) and yes(e, e.bnot(e.cmp("==", byte(t).e, 0)))
            one = lambda v: isinstance(e.deref(v), V) and len(e.deref(v).e) == 1
            at = lambda t: padd(p, t)
            e.invs = [inside(R, at, lambda t: at(padd(t, 1))), Inv("the bytes so far, none zero", lambda t: SQ(t, byte), ok=took),
                      Inv("some byte", lambda t: V([e.insym("u8", "last")], "u8"), start=one, ok=lambda v, t: one(v)),
                      Inv("some byte itself", lambda t: e.insym("u8", "last"), start=lambda v: isinstance(e.deref(v), I), ok=lambda v, t: isinstance(e.deref(v), I))]
            e.counts = [psub(R.F.n, p)]
            cell = []

            def th():
                e.assume(e.cmp("<=", p, R.F.n))
                cell[:] = [Cell(R.rd(p))]
                return R.call("read_to_string", [Ref(cell[0])])

            def on(o):
                v = result(e, o, "a text", {})
                if v.v == "Err":
                    if not pos_is(e, cell[0].v, R.F.n): bad("a text that ends is refused")
                    return
                s = e.deref(v.a[0])
                if not isinstance(s, St) or s.n != "lossy": raise Unsupported("another reading of the bytes")
                b = s.f["b"]
                k = e.norm(seqlen(e, b))
                got(e, b, SQ(k, byte), "the text")
                if not yes(e, e.cmp("==", byte(k).e, 0)): bad("the text ends before its end")
                if not pos_is(e, cell[0].v, padd(at(k), 1)): bad("the place after it")
            return th, on
        if f == "bn": out.append(every(f, "read_to_string", "a text of any length: the bytes before the first zero byte, or refused when there is none", text, "text of any length"))

        # ---- custom gates
        def gates(R):
            e = R.e
            R.contract(read_to_string=R.k_text)
            p = e.insym("u64", "p", 0, OFFMAX).e
            n = lambda: R.num(p, 4)
            G_ = Family(e, lambda t: padd(p, 4) if e.decide(e.cmp("==", t, 0)) else e.sym("at", 0, OFFMAX).e)
            base = lambda t: padd(R.send(G_(t)), 4)
            cnt = lambda t: R.num(R.send(G_(t)), 4)
            par = lambda t, j: padd(base(t), pscale(j, R.B))
            coef = lambda t, j: R.num(par(t, j), R.B)
            vals = lambda t, k: SQ(k, lambda j: fe(coef(t, j)))
            gate = lambda t: St("circom_circuit::CustomGates", {"template_name": Op("text", (I("u64", G_(t)),), "text"), "parameters": vals(t, cnt(t))})
            step = lambda t: par(t, cnt(t))

            def took(v, t):
                return same(e, v, SQ(padd(t, 1), gate)) and yes(e, e.cmp("==", R.sok(G_(t)), 1))

            def ptook(v, j): return same(e, v, vals(outer(), padd(j, 1))) and yes(e, e.cmp("<", coef(outer(), j), R.c.p))
            outer = lambda: e.tstack[0]

            def deep(i):
                """an invariant of the inner loop"""
                def at(t): return i.at(t) if e.tstack else ANY
                return Inv(i.name, at, start=lambda v: bool(e.tstack) and i.start(e, v), ok=lambda v, t: len(e.tstack) > 0 and i.ok(e, v, t))
            e.invs = [inside(R, G_, step), Inv("the gates so far", lambda t: SQ(t, gate), ok=took),
                      deep(inside(R, lambda j: par(outer(), j), lambda j: par(outer(), padd(j, 1)))),
                      deep(Inv("the parameters so far", lambda j: vals(outer(), j), ok=ptook))]
            cell = []

            def th():
                e.assume(e.cmp("<=", p, R.F.n))
                cell[:] = [Cell(R.rd(p))]
                return R.call("read_custom_gates_list", [Ref(cell[0]), I("u64", e.insym("u64", "size").e), R.header()])

            def on(o):
                v = result(e, o, "custom gates", {})
                head = e.decide(e.cmp("<=", padd(p, 4), R.F.n))
                if v.v == "Ok":
                    if not head: bad("custom gates past the end")
                    got(e, v.a[0], SQ(n(), gate), "the custom gates")
                    if not pos_is(e, cell[0].v, G_(n())): bad("the place after them")
                elif head:
                    if not e.cutts: bad("refused")
                    t = e.cutts[0]
                    if not R.true(R.sok(G_(t))): return
                    if not e.decide(e.cmp("<=", base(t), R.F.n)): return
                    for j in e.cutts[1:]:
                        if not e.decide(e.cmp("<=", par(t, padd(j, 1)), R.F.n)) or not e.decide(e.cmp("<", coef(t, j), R.c.p)): return
                    bad("well-formed custom gates are refused")
            return th, on
        out.append(every(f, "read_custom_gates_list", "any number of gates and of parameters: exactly their texts and parameters", gates, "any number of custom gates"))

        # ---- uses of custom gates
        def uses(R):
            e = R.e
            p, size = e.insym("u64", "p", 0, OFFMAX).e, e.insym("u64", "size", 0, OFFMAX).e
            low, sz = lambda: e.split(size, 2)[0], lambda: e.split(size, 2)[1]
            word = lambda i: I("u32", R.num(padd(p, pscale(i, 4)), 4))
            n = lambda: word(0).e
            W_ = Family(e, lambda t: 1 if e.decide(e.cmp("==", t, 0)) else e.sym("w", 0, OFFMAX).e)
            cnt = lambda t: word(padd(W_(t), 1)).e
            sg = lambda t, j: padd(W_(t), padd(2, pscale(j, 2)))
            sig = lambda t, j: I("u64", padd(word(sg(t, j)).e, pscale(word(padd(sg(t, j), 1)).e, 1 << 32)))
            sigs = lambda t, k: SQ(k, lambda j: sig(t, j))
            use = lambda t: St("circom_circuit::CustomGatesUses", {"id": I("u64", word(W_(t)).e), "signals": sigs(t, cnt(t))})
            step = lambda t: sg(t, cnt(t))
            outer = lambda: e.tstack[0]

            def left(w):
                w = e.norm(w)
                e.assume(e.cmp("<=", w, sz()))
                return SIt(e.norm(psub(sz(), w)), lambda i: word(e.norm(padd(w, i))))

            def rest(at, stp, deep=False):
                def isat(v, w):
                    v = e.deref(v)
                    return isinstance(v, SIt) and yes(e, e.cmp("<=", w, sz())) and same(e, v, SIt(e.norm(psub(sz(), w)), lambda i: word(e.norm(padd(w, i)))))
                return Inv("words left", lambda t: left(at(t)), start=lambda v: bool(e.tstack) == deep and isat(v, at(0)), ok=lambda v, t: isat(v, stp(t)))
            e.invs = [inside(R, lambda t: padd(p, pscale(t, 4)), lambda t: padd(p, pscale(padd(t, 1), 4))),
                      Inv("the words so far", lambda t: SQ(t, word)),
                      rest(W_, step), Inv("the uses so far", lambda t: SQ(t, use)),
                      rest(lambda j: sg(outer(), j), lambda j: sg(outer(), padd(j, 1)), True),
                      Inv("the signals so far", lambda j: sigs(outer(), j), start=lambda v: bool(e.tstack) and same(e, v, V([])))]
            cell = []

            def th():
                e.assume(e.cmp("<=", padd(p, size), R.F.n))
                cell[:] = [Cell(R.rd(p))]
                return R.call("read_custom_gates_uses_list", [Ref(cell[0]), I("u64", size), R.header()])

            def on(o):
                v = result(e, o, "uses of custom gates", {})
                def wf():
                    if not e.decide(e.cmp("==", low(), 0)) or not e.decide(e.cmp(">=", sz(), 1)): return False
                    if v.v == "Err" and e.cutts:
                        t = e.cutts[0]
                        if not e.decide(e.cmp("<=", padd(W_(t), 2), sz())): return False
                        for j in e.cutts[1:]:
                            if not e.decide(e.cmp("<=", padd(sg(t, j), 2), sz())): return False
                        return True
                    return e.decide(e.cmp("==", W_(n()), sz()))
                ok = wf()
                if ok != (v.v == "Ok"): bad("well-formed uses are refused" if ok else "malformed uses are accepted")
                if ok: got(e, v.a[0], SQ(n(), use), "the uses")
            return th, on
        if f == "bn": out.append(every(f, "read_custom_gates_uses_list", "any number of uses and signals: exactly their numbers, and nothing left over", uses, "any number of uses"))

        # ---- the whole file
        def whole(R):
            e, F = R.e, R.F
            R.contract(read_constraints=R.k_cons, read_map=R.k_map, read_custom_gates_list=R.k_gates, read_custom_gates_uses_list=R.k_uses)
            S_ = Family(e, lambda t: 12 if e.decide(e.cmp("==", t, 0)) else e.sym("sec", 0, OFFMAX).e)
            typ = lambda t: R.num(S_(t), 4)
            size = lambda t: R.num(padd(S_(t), 4), 8)
            body = lambda t: padd(S_(t), 12)
            step = lambda t: padd(body(t), size(t))

            def known(t):
                """the last section of each type among the first t: is there one, where, how long"""
                def mk_(k):
                    o, s = e.sym(f"off{k}", 0, OFFMAX).e, e.sym(f"size{k}", 0, OFFMAX).e
                    e.assume(e.cmp("<=", padd(o, s), F.n))
                    return (False if isinstance(t, int) and t == 0 else e.cmp("==", e.sym(f"has{k}", 0, 1).e, 1), o, s)
                return Family(e, mk_)
            K_ = Family(e, known)

            class Base:
                def __init__(self, t, what): self.t, self.what, self.key = t, what, (what, t if isinstance(t, int) else e.norm(t).key() if not isinstance(e.norm(t), int) else e.norm(t))
                def get(self, k):
                    k = e.norm(e.deref(k).e)
                    if not isinstance(k, int): raise Unsupported("a lookup of an unknown section")
                    b, o, s = K_(e.norm(self.t))(k)
                    return b, self.what(o, s)
            woff = lambda o, s: I("u64", o)
            wsize = lambda o, s: I("u64", s)
            wboth = lambda o, s: T([I("u64", o), I("u64", s)])
            wboth2 = lambda o, s: T([I("u64", s), I("u64", o)])

            def smap(name, what):
                def empty(v):
                    v = e.deref(v)
                    return isinstance(v, St) and v.n == "HashMap" and not v.f["m"].e

                def ok(v, t):
                    v = e.deref(v)
                    if not isinstance(v, SM) or v.base.key != Base(t, what).key: return isinstance(v, St) and t == 0 and put(v.f["m"].e, t)
                    return put([T(x) for x in v.ups], t)

                def put(ups, t):
                    return len(ups) == 1 and same(e, ups[0].e[0], I("u32", typ(t))) and same(e, ups[0].e[1], what(body(t), size(t))) and yes(e, e.cmp("<=", step(t), F.n))
                return Inv(name, lambda t: SM(Base(t, what)), start=empty, ok=ok)
            e.invs = [inside(R, S_, step), smap("where the last section of each type is", woff), smap("its size", wsize), smap("both", wboth), smap("both, size first", wboth2)]
            e.counts = []
            cell = []
            num = R.num

            def th():
                R.nc = None
                cell[:] = [Cell(F.reader())]
                return R.call("from_reader", [Ref(cell[0])])

            class Nc:
                pass

            def spec():
                """what the file says, or None when it is malformed"""
                if not e.decide(e.cmp(">=", F.n, 12)): return None
                if not e.decide(e.cmp("==", num(0, 4), int.from_bytes(b"r1cs", "little"))) or not e.decide(e.cmp("==", num(4, 4), 1)): return None
                n = num(8, 4)
                for t in e.cutts:
                    if not e.decide(e.cmp("<=", body(t), F.n)) or not e.decide(e.cmp("<=", step(t), F.n)): return None
                K = K_(e.norm(n))
                sec = {}
                for k in (1, 2, 3, 4, 5):
                    b, o, s = K(k)
                    if e.decide(b): sec[k] = (o, s)
                    elif k < 4: return None
                o, s = sec[1]
                if not e.decide(e.cmp("==", s, 32 + R.B)) or not e.decide(e.cmp("==", num(o, 4), R.B)): return None
                if not e.decide(e.cmp("==", num(padd(o, 4), R.B), R.c.p)): return None
                h = head(o)
                if not e.decide(e.cmp("<=", padd(padd(h["n_pub_out"], h["n_pub_in"]), 1), h["n_wires"])): return None
                o, s = sec[2]
                if not R.true(R.cok(o)) or not e.decide(e.cmp("==", R.cend(o), padd(o, s))): return None
                if not R.mapwf(*sec[3], h["n_wires"]): return None
                if 4 in sec and (not R.true(R.gok(sec[4][0])) or not e.decide(e.cmp("==", R.gend(sec[4][0]), padd(*sec[4])))): return None
                if 5 in sec and not R.true(R.uok(sec[5][0])): return None
                return sec, h

            def head(o):
                q = padd(padd(o, 4), num(o, 4))     # the field size, which is R.B here
                return {k: num(padd(q, d), w) for k, d, w in (("n_wires", 0, 4), ("n_pub_out", 4, 4), ("n_pub_in", 8, 4), ("n_prv_in", 12, 4), ("n_labels", 16, 8), ("n_constraints", 24, 4))}

            def k_cons(en, a):
                R.nc = head(K_(e.norm(num(8, 4)))(1)[1])["n_constraints"]
                return R.k_cons(en, a)
            R.contract(read_constraints=k_cons)

            def on(o):
                v = result(e, o, "any bytes", {})
                w = spec()
                if (w is not None) != (v.v == "Ok"): bad("a malformed file is read without an error" if w is None else "a well-formed file is refused")
                if w is None: return
                sec, h = w
                r = e.deref(v.a[0]).f
                got(e, r["version"], I("u32", 1), "the version")
                rh = e.deref(r["header"]).f
                for k, x in h.items(): got(e, rh[k], I(rh[k].ty, x), k)
                got(e, rh["field_size"], I("u32", R.B), "the field size")
                got(e, rh["prime_size"], V(le(R.c.p, R.B), "u8"), "the prime")
                got(e, r["constraints"], Op("constraints", (I("u64", sec[2][0]),), "cons"), "the constraints")
                got(e, r["wire_mapping"], R.mapped(sec[3][0], h["n_wires"]), "the wire map")
                got(e, r["custom_gates"], Op("gates", (I("u64", sec[4][0]),), "gates") if 4 in sec else V([]), "the custom gates")
                got(e, r["custom_gates_uses"], Op("uses", tuple(I("u64", x) for x in sec[5]), "uses") if 5 in sec else V([]), "the uses of custom gates")
            return th, on
        out.append(every(f, "from_reader", "every byte string of every length: read exactly when it is a well-formed file over the field, wherever its sections stand, and then exactly what it says; otherwise refused without a panic", whole, "any file"))

        # ---- into a circuit
        def load(R):
            e = R.e
            nw, npo, npi = [e.insym("u32", s).e for s in ("n_wires", "n_pub_out", "n_pub_in")]
            e.assume0 = None
            okf = e.insym("u8", "fine", 0, 1).e
            mp = Family(e, lambda i: I("u64", e.sym("label", 0, (1 << 64) - 1).e))

            def k_file(en, a):
                if not e.decide(e.cmp("==", okf, 1)): return Err(Op("refused", (), "io"))
                h = e.deref(R.header(n_wires=I("u32", nw), n_pub_out=I("u32", npo), n_pub_in=I("u32", npi)))
                return Ok(St("R1CSFile", {"version": I("u32", 1), "header": h, "constraints": Op("constraints", (), "cons"), "wire_mapping": SQ(nw, mp), "custom_gates": Op("gates", (), "gates"), "custom_gates_uses": Op("uses", (), "uses")}))
            R.contract(from_reader=k_file)
            e.invs = [Inv("the map so far", lambda t: SQ(t, lambda i: I("usize", mp(i).e)))]

            def th():
                e.assume(e.cmp("<=", padd(padd(npo, npi), 1), nw))
                fn = R.c.fn("reader", "load_r1cs_from_bin")
                return e.call_fn(fn, [Ref(Cell(R.F.reader()))], [TyRef(SRD), TyRef(E)] if fn[2]["gen"]["names"][0]["n"] == "R" else [TyRef(E), TyRef(SRD)])

            def on(o):
                fine = e.decide(e.cmp("==", okf, 1))
                if o.kind == "panic":
                    if fine: bad(f"loading a well-formed file panics: {o.val}")
                    return
                if not fine: bad("a malformed file is loaded")
                r, wm = e.deref(o.val).e
                r = e.deref(r).f
                ni = padd(padd(npo, npi), 1)
                for k, x in (("num_inputs", ni), ("num_aux", psub(nw, ni)), ("num_variables", nw), ("num_outputs", npo)): got(e, r[k], I("usize", x), k)
                got(e, r["constraints"], Op("constraints", (), "cons"), "the constraints")
                got(e, r["custom_gates"], Op("gates", (), "gates"), "the custom gates")
                got(e, r["custom_gates_uses"], Op("uses", (), "uses"), "their uses")
                got(e, wm, SQ(nw, lambda i: I("usize", mp(i).e)), "the wire map")
            return th, on
        out.append(every(f, "load_r1cs_from_bin", "whatever file was read: its constraints, counts and wire map; a refused file is not loaded", load, "loaded circuit of any size"))
    return out
