"""C13 for trees of every height and width.  A tree over h rows has levels t = 0..L with n(t) digests, n(0) = h,
n(t+1) = ceil(n(t)/16), n(L) = 1; level t starts at off(t), off(t+1) = off(t) + 16 n(t+1); N(t, i) is digest i of level t:
N(0, i) the digest of row i, N(t+1, i) the permutation of children 16i..16i+15, absent ones being zero.  Each function
below is checked against its contract, callers against the contracts of what they call."""
from stk import *
import seq
from seq import NMAX, witness

HMAX, WMAX = 1 << 32, 1 << 24


class Tree:
    def __init__(self, cv):
        c = self.c = treectx(cv)
        e = self.e = c.eng
        e.loop_bound, e.max_paths, e.invs, e.few = 0, 6000, [], 0
        self.mt, self.mod = c.i["mt"], c.i["mt"].split("::")[0]
        K = c.K
        nm = lambda s, *i: s + "".join(f"[{x if isinstance(x, int) else x.key()}]" for x in i)
        self.nm = nm
        self.h = h = e.insym("usize", "height", 1, HMAX).e
        self.w = w = e.insym("usize", "width", 1, WMAX).e
        self.L = L = e.insym("usize", "levels", 0, 40).e
        self.NN = NN = e.insym("usize", "nodes", 1, HMAX * 3).e
        e.sizes = {"h": h, "w": w}
        zero = lambda t: isinstance(t, int) and t == 0 or e.decide(e.cmp("==", t, 0))
        self.n_ = Family(e, lambda t: h if zero(t) else e.sym("n", 1, HMAX).e)
        self.off_ = Family(e, lambda t: 0 if zero(t) else e.sym("off", 0, HMAX * 3).e)
        self.N_ = Family(e, lambda t: Family(e, lambda i: K.var(nm("N", t, i))))
        self.leafv = Family(e, lambda r: K.var(nm("leaf", r)))
        self.idx = {}
        self.El = Family(e, self.mkel)
        self.TT = Family(e, lambda i: K.var(nm("node", i)))
        self.bad = set()
        fc = e.fncontracts
        mw = e.insym("usize", "workers", 1, 1 << 16).e
        for k in (None, "constant"): fc[(k, "get_max_workers")] = lambda en, a: I("usize", mw)
        fc[(c.i["lh"], "hash_element_array")] = self.harr

    def contract(self, *names):
        fc = self.e.fncontracts
        if "nodes" in names:
            for k in (None, self.mod): fc[(k, "get_n_nodes")] = self.k_nodes
        if "level" in names: fc[(self.mt, "merklize_level")] = self.k_level
        if "block" in names: fc[(self.mt, "do_merklize_level")] = self.k_block

    # ---- levels
    def f(self, x): return padd(self.e.split(psub(x, 1), 4)[1], 1)

    def facts(self, t):
        """what is known of level t, and of level t + 1 when there is one; true by definition and by the lemma on offsets"""
        e, L, NN = self.e, self.L, self.NN
        key = (id(e.solver), t if isinstance(t, int) else t.key())
        if key in self.bad: return
        self.bad.add(key)
        n, off = self.n_(t), self.off_(t)
        if e.decide(e.cmp("<", t, L)):
            e.assume(e.cmp(">", n, 1))
            n1 = self.f(n)
            o1 = padd(off, pscale(n1, 16))
            e.assume(e.cmp("<=", padd(o1, n1), NN))
            if e.decide(e.cmp("<", padd(t, 1), L)): e.assume(e.cmp(">", n1, 1)); e.assume(e.cmp("<", padd(o1, n1), NN))
            else: e.assume(e.cmp("==", n1, 1)); e.assume(e.cmp("==", padd(o1, 1), NN))
        else:
            e.assume(e.cmp("==", n, 1))
            e.assume(e.cmp("==", padd(off, 1), NN))

    def n(self, t): self.facts(t); return self.e.norm(self.n_(t))
    def off(self, t): self.facts(t); return self.e.norm(self.off_(t))
    def n1(self, t): return self.f(self.n(t))
    def off1(self, t): return padd(self.off(t), pscale(self.n1(t), 16))

    # ---- digests
    def N(self, t, i):
        e = self.e
        if isinstance(t, int) and t == 0 or e.decide(e.cmp("==", t, 0)): return self.leafv(i)
        return self.N_(t)(i)

    def child(self, t, i):
        e = self.e
        return self.N(t, e.norm(i)) if e.decide(e.cmp("<", i, self.n(t))) else self.c.K.const(0)

    def H(self, t, i):
        """digest i of level t + 1 from level t"""
        return self.c.hash(self.c.K.const(0), [self.child(t, padd(pscale(i, 16), j)) for j in range(16)])

    def dig(self, v): return self.c.dig(v)

    def level(self, t):
        """the nodes after t levels are hashed (t = 0: the row digests only)"""
        e = self.e
        n, off = self.n(t), self.off(t)

        def f(i):
            if e.decide(e.cmp("<", i, off)): return self.dig(self.TT(i))
            if e.decide(e.cmp("<", i, padd(off, n))): return self.dig(self.N(t, e.norm(psub(i, off))))
            return self.dig(self.c.K.const(0))
        return SQ(self.NN, f)

    def level1(self, t):
        e = self.e
        n1, off, off1 = self.n1(t), self.off(t), self.off1(t)

        def f(i):
            if e.decide(e.cmp("<", i, off)): return self.dig(self.TT(i))
            if e.decide(e.cmp("<", i, off1)): return self.dig(self.child(t, psub(i, off)))
            if e.decide(e.cmp("<", i, padd(off1, n1))): return self.dig(self.H(t, e.norm(psub(i, off1))))
            return self.dig(self.c.K.const(0))
        return SQ(self.NN, f)

    def tree(self):
        """the nodes of the finished tree, seen from the level under consideration"""
        e = self.e

        def f(i):
            t = e.tstack[-1] if e.tstack else self.L
            if e.decide(e.cmp("<", t, self.L)):
                if e.decide(e.cmp(">=", i, self.off(t))) and e.decide(e.cmp("<", i, self.off1(t))): return self.dig(self.child(t, psub(i, self.off(t))))
            elif e.decide(e.cmp("==", i, self.off(t))): return self.dig(self.N(t, 0))
            return self.dig(self.TT(i))
        return SQ(self.NN, f)

    # ---- rows
    def mkel(self, i):
        s = self.nm("el", i)
        self.idx[s] = i
        return self.c.G.var(s)

    def elements(self): return SQ(pmul(self.h, self.w), self.El)

    def harr(self, e, a):
        """the digest of row r, when the argument is row r"""
        v = e.deref(a[1])
        if e.prove(e.cmp("==", seqlen(e, v), self.w)) != "ok": raise Unsupported("a row of another length is hashed")
        q = e.sym("q", 0, WMAX).e
        e.assume(e.cmp("<", q, self.w))
        x = e.deref(elem(e, v, q))
        i = self.idx.get(self.c.G.atoms[next(iter(x.d))[0]][1] if x.pr is None else None) if isinstance(x, FV) else None
        if i is None: raise Unsupported("something else than a row is hashed")
        r = e.norm(psub(i, q))
        if not isinstance(r, int):
            (v,), D = tuple(pvars(self.w)), {}
            for m, c in r.d.items():
                if v not in m: raise Unsupported("the hashed elements do not start a row")
                m = list(m); m.remove(v); D[tuple(m)] = c
            r = mk(D)
        elif r: raise Unsupported("the hashed elements do not start a row")
        return Ok(self.dig(self.leafv(r)))

    # ---- contracts
    def k_nodes(self, e, a):
        if e.prove(e.cmp("==", e.deref(a[0]).e, self.h)) != "ok": raise Unsupported("get_n_nodes of something else")
        return I("usize", self.NN)

    def groups(self, old, lo):
        """i -> hash of old[lo + 16i .. lo + 16i + 16]"""
        e, c = self.e, self.c
        return lambda i: c.hash(c.K.const(0), [c.scal(e.deref(elem(e, old, e.norm(padd(padd(lo, pscale(i, 16)), j))))) for j in range(16)])

    def k_level(self, e, a):
        p_in, n, p_out = [e.norm(e.deref(x).e) for x in a[1:]]
        c, p = e.through((a[0].c, a[0].p))
        p = p + (("f", "nodes"),)
        old = e.load(c, p)
        if e.prove(e.cmp(">=", n, 1)) != "ok" or e.prove(e.cmp("<=", padd(p_in, pscale(n, 16)), seqlen(e, old))) != "ok" or e.prove(e.cmp("<=", padd(p_out, n), seqlen(e, old))) != "ok":
            raise Unsupported("merklize_level outside its precondition")
        g = self.groups(old, p_in)
        e.store(c, p, SQ(old.n, lambda i: self.dig(g(e.norm(psub(i, p_out)))) if e.decide(e.cmp("<=", p_out, i)) and e.decide(e.cmp("<", i, padd(p_out, n))) else elem(e, old, i)))
        return Ok(UNIT)

    def k_block(self, e, a):
        b = e.deref(a[1])
        l, m = e.split(seqlen(e, b), 4)
        if e.prove(e.cmp("==", l, 0)) != "ok": raise Unsupported("a block of part of a group")
        g = self.groups(b, 0)
        return Ok(SQ(e.norm(m), lambda i: self.dig(g(i))))


def every(cv, what, text, mk, name):
    """mk(tree) sets the invariants and returns (run, on)"""
    def go():
        box = []

        def mkeng():
            box[:] = [Tree(cv)]
            return box[0].e

        def run(e):
            th, on = mk(box[0])
            cnt = [0]

            def thunk():
                box[0].bad.clear()
                e.chunks = e.chunklog = e.divs = (None, None)
                return th()

            def path(o):
                cnt[0] += 1
                if o.kind == "panic":
                    u = Undecided(f"{what} panics: {o.val}")
                    u.wit = witness(e)
                    raise u
                try: on(e.deref(o.val))
                except Undecided as u:
                    u.wit = witness(e)
                    raise
            e.on_path = path
            e.explore(thunk)
            return info(e, cnt[0])
        return prove_all(mkeng, run, what)
    return Obl(f"{cv} {name}", f"{CV[cv]['mt']}::{what}", text, go, "vc (normal forms) + z3, loops cut by invariants")


def got(e, v, want, what):
    if not same(e, v, want):
        if seq.DBG: print("GOT", v, want, e.pc[-12:])
        raise Undecided(f"{what} is not as specified")


def c13():
    out = []
    for cv in CV:
        def nodes(T):
            e = T.e

            def done(t):
                if e.decide(e.cmp("<", t, T.L)): return T.off1(t) if e.decide(e.cmp("<", padd(t, 1), T.L)) else padd(T.off1(t), 0)
                return padd(T.off(t), 1)

            def acc(t):
                """space for the levels up to t + 1, or all of it"""
                return I("usize", T.off1(t) if e.decide(e.cmp("<", t, T.L)) else T.NN)

            def acc1(t):
                n1 = T.n1(t)
                return I("usize", padd(T.off1(t), pscale(T.f(n1), 16)) if e.decide(e.cmp("<", padd(t, 1), T.L)) else T.NN)
            e.invs = [Inv("digests of level t", lambda t: I("usize", T.n(t)), lambda t: I("usize", T.n1(t))),
                      Inv("digests of level t + 1", lambda t: I("usize", T.n1(t)), lambda t: I("usize", T.f(T.n1(t)))),
                      Inv("nodes counted", acc, acc1),
                      Inv("offset of level t", lambda t: I("usize", T.off(t)), lambda t: I("usize", T.off1(t)))]
            e.counts = [T.L]
            m = e.P.mods[T.mod]

            def th():
                T.facts(0)
                return e.call_fn((m, None, m.fns["get_n_nodes"], None), [I("usize", T.h)])
            return th, lambda v: got(e, v, I("usize", T.NN), "the number of nodes")
        out.append(every(cv, "get_n_nodes", "for every height: space for all levels, each padded to whole groups, and the root", nodes, "number of nodes"))

        def block(T):
            e = T.e
            m = e.insym("usize", "groups", 0, NMAX).e
            old = Family(e, lambda i: T.c.K.var(T.nm("b", i)))
            B_ = SQ(pscale(m, 16), lambda i: T.dig(old(i)))
            g = T.groups(B_, 0)
            Z = T.dig(T.c.K.const(0))
            e.invs = [Inv("digests of the first t groups, then zero", lambda t: SQ(m, lambda i: T.dig(g(i)) if e.decide(e.cmp("<", i, t)) else Z)),
                      Inv("digests of the first t groups", lambda t: SQ(t, lambda i: T.dig(g(i)))),
                      Inv("groups", lambda t: I("usize", t))]

            def th():
                t = Cell(e.call_fn(method(T.c, T.mt, "new"), []))
                return e.call_fn(method(T.c, T.mt, "do_merklize_level"), [Ref(t), Ref(Cell(B_)), I("usize", 0), I("usize", 0)])

            def on(v):
                if v.v != "Ok": raise Undecided("an error")
                got(e, v.a[0], SQ(m, lambda i: T.dig(g(i))), "the block of digests")
            return th, on
        out.append(every(cv, "do_merklize_level", "for every number of groups: one digest per group of sixteen, in order", block, "block of any size"))

        def lev(T):
            e = T.e
            T.contract("block")
            n, pi, po, size = [e.insym("usize", s, a, b).e for s, a, b in (("ops", 1, HMAX), ("p_in", 0, HMAX * 3), ("p_out", 0, HMAX * 3), ("size", 1, HMAX * 4))]
            old = Family(e, lambda i: T.c.K.var(T.nm("o", i)))
            O = SQ(size, lambda i: T.dig(old(i)))
            g = T.groups(O, pi)

            def blocks(t):
                ch = e.chunklog[1] if e.chunklog[0] is e.solver else []
                if not ch: raise Unsupported("no chunks")
                return ch[0][:2]

            def acc(t):
                x = done(t)
                return SQ(x, lambda i: T.dig(g(i)))

            def done(t):
                if isinstance(t, int) and t == 0: return 0
                a, k = blocks(t)
                x = e.norm(pmul(k, t))          # elements of p_in.. in t blocks
                x = x if e.decide(e.cmp("<=", x, a)) else a
                return e.split(x, 4)[1]
            e.invs = [Inv("digests of the first t blocks", acc),
                      Inv("written nodes", lambda t: SQ(size, lambda i: T.dig(g(e.norm(psub(i, po)))) if e.decide(e.cmp("<=", po, i)) and e.decide(e.cmp("<", i, padd(po, t))) else T.dig(old(i)))),
                      Inv("blocks", lambda t: I("usize", t))]
            cell = []

            def th():
                e.assume(e.cmp("<=", padd(pi, pscale(n, 16)), size))
                e.assume(e.cmp("<=", padd(po, n), size))
                t = e.call_fn(method(T.c, T.mt, "new"), [])
                cell[:] = [Cell(St(t.n, dict(t.f, nodes=O)))]
                return e.call_fn(method(T.c, T.mt, "merklize_level"), [Ref(cell[0]), I("usize", pi), I("usize", n), I("usize", po)])

            def on(v):
                if v.v != "Ok": raise Undecided("an error")
                got(e, e.load(cell[0], (("f", "nodes"),)), SQ(size, lambda i: T.dig(g(e.norm(psub(i, po)))) if e.decide(e.cmp("<=", po, i)) and e.decide(e.cmp("<", i, padd(po, n))) else T.dig(old(i))), "the level")
            return th, on
        out.append(every(cv, "merklize_level", "for every number of groups, offsets and workers: the groups' digests in order, everything else unchanged", lev, "level of any size"))

        def build(T):
            e = T.e
            T.contract("nodes", "level")

            def rows(t):
                """the digests of the rows in the chunks done so far"""
                ch = e.chunklog[1] if e.chunklog[0] is e.solver else []
                if not ch: raise Unsupported("no chunks")
                k = ch[0][1]
                x = padd(pmul(k, e.tstack[-1]), t) if e.tstack else pmul(k, t)
                x = e.norm(x)
                return SQ(T.NN, lambda i: T.dig(T.leafv(i)) if e.decide(e.cmp("<", i, x)) and e.decide(e.cmp("<", i, T.h)) else T.dig(T.c.K.const(0)))
            e.invs = [Inv("digests of the rows of the first t chunks", rows),
                      Inv("nodes of the levels up to t", T.level, T.level1),
                      Inv("digests of level t", lambda t: I("usize", T.n(t)), lambda t: I("usize", T.n1(t))),
                      Inv("digests of level t + 1", lambda t: I("usize", T.n1(t)), lambda t: I("usize", T.f(T.n1(t)))),
                      Inv("offset of level t", lambda t: I("usize", T.off(t)), lambda t: I("usize", T.off1(t))),
                      Inv("offset of level t + 1", lambda t: I("usize", T.off1(t)), lambda t: I("usize", padd(T.off1(t), pscale(T.f(T.n1(t)), 16))))]
            e.counts = [T.L]
            cell = []
            was = [e.insym("usize", s, 0, HMAX).e for s in ("oldnodes", "oldelements", "oldwidth", "oldheight")]
            oldn = Family(e, lambda i: T.c.K.var(T.nm("on", i)))
            olde = Family(e, lambda i: T.c.G.var(T.nm("oe", i)))

            def th():
                T.facts(0)
                e.assume(e.cmp("<=", T.h, T.NN))
                t = e.call_fn(method(T.c, T.mt, "new"), [])
                # the object may hold an earlier tree
                cell[:] = [Cell(St(t.n, dict(t.f, nodes=SQ(was[0], lambda i: T.dig(oldn(i))), elements=SQ(was[1], olde), width=I("usize", was[2]), height=I("usize", was[3]))))]
                return e.call_fn(method(T.c, T.mt, "merkelize"), [Ref(cell[0]), T.elements(), I("usize", T.w), I("usize", T.h)])

            def on(v):
                if v.v != "Ok": raise Undecided("an error")
                t = e.load(cell[0], ())
                got(e, t.f["nodes"], T.level(T.L), "the tree")
                got(e, t.f["elements"], T.elements(), "the rows kept")
                got(e, t.f["width"], I("usize", T.w), "the width kept")
                got(e, t.f["height"], I("usize", T.h), "the height kept")
            return th, on
        out.append(every(cv, "merkelize", "for every height, width and number of workers: the specified digest at every node", build, "tree of any size"))

        def index(T):
            e = T.e
            T.ix = e.insym("usize", "idx", 0, 2**64 - 1).e
            e.sizes["idx"] = T.ix
            T.IX_ = Family(e, lambda t: T.ix if isinstance(t, int) and t == 0 or e.decide(e.cmp("==", t, 0)) else e.sym("ix", 0, HMAX - 1).e)

            def IX(t):
                """the index of the row's ancestor in level t: below n(t), as idx is below h and both are divided alike"""
                x = T.IX_(t)
                e.assume(e.cmp("<", x, T.n(t)))
                return e.norm(x)
            T.IX = IX
            T.IX1 = lambda t: e.split(IX(t), 4)[1]

            def group(t):
                """the group of the ancestor in level t"""
                d = e.conc(I("usize", e.split(IX(t), 4)[0]))
                return [T.N(t, IX(t)) if j == d else T.child(t, padd(pscale(T.IX1(t), 16), j)) for j in range(16)]
            T.group = group

            def path(t):
                if e.tstack and e.prove(e.cmp("==", t, e.tstack[-1])) == "ok":
                    t = e.tstack[-1]
                    return V(group(t))
                return V([T.c.K.var(T.nm(f"sib{j}", t)) for j in range(16)])
            T.rows = Family(e, path)
            T.row = SQ(T.w, lambda i: T.El(e.norm(padd(pmul(T.w, T.ix), i))))

            def tree():
                t = e.call_fn(method(T.c, T.mt, "new"), [])
                return Ref(Cell(St(t.n, dict(t.f, nodes=T.tree(), elements=T.elements(), width=I("usize", T.w), height=I("usize", T.h)))))
            T.made = tree

        def openrow(T):
            e = T.e
            index(T)
            e.invs = [Inv("index of the ancestor in level t", lambda t: I("usize", T.IX(t)), lambda t: I("usize", T.IX1(t))),
                      Inv("offset of level t", lambda t: I("usize", T.off(t)), lambda t: I("usize", T.off1(t))),
                      Inv("digests of level t", lambda t: I("usize", T.n(t)), lambda t: I("usize", T.n1(t))),
                      Inv("path of the levels up to t", lambda t: SQ(t, T.rows)),
                      Inv("elements of the row", lambda t: SQ(t, T.row.f))]
            e.counts = [T.L]
            e.recpost = (T.L, lambda t: SQ(psub(T.L, t), lambda i: T.rows(e.norm(padd(i, t)))), True)

            def th():
                T.facts(0)
                # idx < h: idx + 1 <= h, times the width
                e.assume(B(z3.Implies(e.cmp("<", T.ix, T.h).z, e.zint(psub(padd(pmul(T.w, T.ix), T.w), pmul(T.w, T.h))) <= 0)))
                return e.call_fn(method(T.c, T.mt, "get_group_proof"), [T.made(), I("usize", T.ix)])

            def on(v):
                inside = e.decide(e.cmp("<", T.ix, T.h))
                if v.v != ("Ok" if inside else "Err"): raise Undecided("a row of the tree is refused" if inside else "a row outside the tree is opened")
                if not inside: return
                row, mp = [e.deref(x) for x in e.deref(v.a[0]).e]
                got(e, row, T.row, "the row returned")
                got(e, mp, SQ(T.L, T.rows), "the path")
            return th, on
        out.append(every(cv, "get_group_proof", "for every height, width and index: the row's elements and, for every level, the group of sixteen digests the row's ancestor is in; refused from the height on", openrow, "opening of any row"))

        def rootof(T):
            e = T.e
            index(T)
            def th():
                T.facts(0); T.facts(T.L)
                return e.call_fn(method(T.c, T.mt, "root"), [T.made()])
            return th, lambda v: got(e, v, T.dig(T.N(T.L, 0)), "the root")
        out.append(every(cv, "root", "for every height: the one digest of the last level", rootof, "root of any tree"))

        def honest(T):
            e, c = T.e, T.c
            index(T)
            D = lambda t: T.N(t, T.IX(t))
            D1 = lambda t: c.hash(c.K.const(0), T.group(t))
            e.invs = [Inv("levels done", lambda t: I("usize", t)),
                      Inv("index of the ancestor in level t", lambda t: I("usize", T.IX(t)), lambda t: I("usize", T.IX1(t))),
                      Inv("digest of the ancestor in level t", lambda t: T.dig(D(t)), lambda t: T.dig(D1(t))),
                      Inv("scalar of the ancestor in level t", D, D1),
                      Inv("levels left", lambda t: SQ(psub(T.L, t), lambda i: T.rows(e.norm(padd(i, t))))),
                      Inv("number of levels left", lambda t: I("usize", psub(T.L, t))),
                      Inv("16^t, bits", lambda t: I("usize", pscale(t, 4)))]
            e.counts = [T.L]
            e.recpost = (T.L, lambda: Ok(T.dig(D(T.L))))

            def th():
                T.facts(0); T.facts(T.L)
                e.assume(e.cmp("<", T.ix, T.h))
                return e.call_fn(method(c, T.mt, "verify_group_proof"), [T.made(), Ref(Cell(T.dig(T.N(T.L, 0)))), Ref(Cell(SQ(T.L, T.rows))), I("usize", T.ix), Ref(Cell(T.row))])

            def on(v):
                if v.v != "Ok": raise Undecided("an error")
                b = e.deref(v.a[0])
                if b is not True and (b is False or e.prove(b) != "ok"): raise Undecided("an honest opening is rejected")
            return th, on
        out.append(every(cv, "verify_group_proof", "for every height, width and index below the height: the row and path of the tree are accepted with its root", honest, "honest opening accepted"))
    out.append(Obl("levels of a tree", "lemma on n(t+1) = ceil(n(t)/16), off(t+1) = off(t) + 16 n(t+1)", "the number of digests falls to one; every level lies inside the nodes counted; ancestors' indices stay inside their levels", lemma, "z3"))
    return out


def lemma():
    z = {k: z3.Int(k) for k in ("n", "q", "r", "n2", "off", "NN", "x", "y", "s")}
    n, q, r, n2, off, NN, x, y, s = z.values()
    # n1 = q + 1 with n - 1 = 16 q + r
    base = [n >= 2, n - 1 == 16 * q + r, r >= 0, r < 16]
    n1 = q + 1
    off1 = off + 16 * n1
    goals = [
        (base, z3.And(n1 >= 1, n1 < n)),                                   # the levels end
        (base + [off1 + n1 <= NN], off + n < NN),                          # inside: from level t + 1 to level t, strictly
        ([n == 1, off + 1 == NN], off + n <= NN),                          # the last level
        (base + [x >= 0, x < n, x == 16 * y + s, s >= 0, s < 16], z3.And(y >= 0, y < n1)),     # index of the parent
    ]
    for hyp, g in goals:
        S = z3.Solver()
        S.add(*hyp, z3.Not(g))
        if S.check() != z3.unsat: raise Undecided("lemma")
    # at most nine levels for 2^32 rows, and fewer than three nodes a row and a few: by running the recurrence on the bound
    a, L, o = HMAX, 0, 0
    while a > 1: a = (a - 1) // 16 + 1; o += 16 * a; L += 1
    if not (L <= 40 and o + 1 <= 3 * HMAX): raise Undecided("bounds")
    return {"paths": len(goals), "smt_queries": len(goals), "smt_seconds": 0.0, "executed": [], "callee_contracts": []}
