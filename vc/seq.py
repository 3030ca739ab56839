"""Sequences and loops of arbitrary length.

SQ is a sequence whose length is an integer expression and whose elements are given by a function of the index;
SIt is an iterator over such a sequence or over a symbolic range.  A loop over an SIt is cut by an invariant:
every cell the body writes is matched with a candidate `Inv` supplied by the property (its value before
iteration t as a function of t).  Three obligations result: the value at loop entry is the invariant at 0; one
arbitrary iteration from the invariant at t gives the invariant at t+1; after the loop the invariant holds at
the iteration count.  No iteration is ever unrolled."""
import z3
from eng import *

NMAX = 1 << 40
DBG = 0


class SQ:
    __slots__ = ("n", "f", "w", "ty")

    def __init__(self, n, f, w=(), ty=None): self.n, self.f, self.w, self.ty = n, f, w, ty
    def __repr__(self): return "SQ"

    def read(self, eng, e):
        for i, v in reversed(self.w):
            if eng.decide(eng.cmp("==", e, i)): return v
        return self.f(e)


class SIt:
    """n items; at(t) is item t"""
    __slots__ = ("n", "at")

    def __init__(self, n, at): self.n, self.at = n, at


class AM:
    """a map of unknown size, as the list of what went into it: ("all", D, t, kind) the first t entries of document D,
    ("kv", k, v) one entry.  A document has n entries; item(t) is entry t, find(literal) the place of a named one."""
    __slots__ = ("parts",)

    def __init__(self, parts): self.parts = tuple(parts)

    def doc(self):
        if len(self.parts) == 1 and self.parts[0][0] == "all" and self.parts[0][3] == "entry": return self.parts[0][1]
        raise Unsupported("reading a map that was put together")


def amparts(eng, v):
    v = eng.deref(v)
    return v.parts if isinstance(v, AM) else tuple(("kv", x.e[0], x.e[1]) for x in v.f["m"].e)


def m_am(eng, ref, v, n, args):
    if isinstance(v, SM): return m_sm(eng, ref, v, n, args)
    if n == "insert":
        eng.store(ref.c, ref.p, AM(v.parts + (("kv", eng.deref(args[0]), eng.deref(args[1])),)))
        return Op("replaced", (), "Option")
    if n in ("clone", "to_owned"): return v
    if n == "extend":
        it = to_sit(eng, args[0])
        if it is None:
            for t in eng.iterate(args[0]):
                t = eng.deref(t)
                eng.mcall(ref, "insert", [eng.deref(t.e[0]), eng.deref(t.e[1])], None)
            return UNIT
        return am_extend(eng, ref, it)
    D = v.doc()
    if n == "len": return I("usize", D.n)
    if n == "is_empty": return eng.cmp("==", D.n, 0)
    if n in ("get", "contains_key"):
        r = D.find(eng.deref(args[0]))
        if n == "contains_key": return r is not None
        return NONE if r is None else Some(Ref(Cell(r)))
    if n in ("iter", "into_iter"): return am_it(eng, v, n == "iter")
    if n in ("keys", "into_keys"): return SIt(D.n, lambda t: Ref(Cell(D.item(t)[0])))
    if n in ("values", "into_values"): return SIt(D.n, lambda t: Ref(Cell(D.item(t)[1])))
    return NotImplemented


def am_it(eng, v, refs):
    D = v.doc()
    w = (lambda x: Ref(Cell(x))) if refs else (lambda x: x)
    return SIt(D.n, lambda t: T([w(x) for x in D.item(t)]))


def am_extend(eng, ref, it):
    def body(x):
        x = eng.deref(x)
        eng.mcall(ref, "insert", [eng.deref(x.e[0]), eng.deref(x.e[1])], None)
    ck = cellkey(eng, eng.cursc, ref.c, ref.p, None)
    cut(eng, it, body, ("extend", str(ck), len(amparts(eng, eng.load(ref.c, ref.p)))), extra={"<map>": ref.c} if ck is None else None)
    return UNIT


class SM(AM):
    """a map of which only lookups are known: base.get(key) -> (is it there, value), then the entries put in since"""
    __slots__ = ("base", "ups")

    def __init__(self, base, ups=()): self.parts, self.base, self.ups = (), base, tuple(ups)
    def doc(self): raise Unsupported("the entries of a map known by lookups")

    def look(self, eng, k):
        k = eng.deref(k)
        for kk, v in reversed(self.ups):
            if eng.decide(eng.eq(kk, k)): return v
        b, v = self.base.get(k)
        return v if eng.decide(b) else None


def m_sm(eng, ref, v, n, args):
    if n == "insert":
        eng.store(ref.c, ref.p, SM(v.base, v.ups + ((eng.deref(args[0]), eng.deref(args[1])),)))
        return Op("replaced", (), "Option")
    if n in ("get", "contains_key"):
        r = v.look(eng, args[0])
        if n == "contains_key": return r is not None
        return NONE if r is None else Some(Ref(Cell(r)))
    if n == "clone": return v
    return NotImplemented


class SSQ(SQ):
    """the stable sort of s by the first component, then the elements of pend"""
    __slots__ = ("s", "pend")

    def __init__(self, s, pend=()):
        def f(e): raise Unsupported("an element of a sorted sequence")
        SQ.__init__(self, s.n if not pend else padd(s.n, len(pend)), f)
        self.s, self.pend = s, tuple(pend)

    def put(self, eng, x): return SSQ(self.s, self.pend + (x,))

    def sorted(self, eng):
        # sorting (sorted s) ++ pend stably is sorting s ++ pend stably
        return SSQ(SQ(self.n, self.s.f, self.s.w + tuple((eng.norm(padd(self.s.n, i)), x) for i, x in enumerate(self.pend))))


def byfirst(eng, n, args):
    """is the order that of the first component?"""
    rf = lambda x: Ref(Cell(x))
    x, y = [I("usize", eng.sym("key", 0, (1 << 64) - 1).e) for _ in range(2)]
    a, b = T([x, ANY]), T([y, ANY])
    if n == "sort_by": r = eng.call_val(args[0], [rf(a), rf(b)]).v
    elif n in ("sort_by_key", "sort_by_cached_key"): r = eng.order(eng.call_val(args[0], [rf(a)]), eng.call_val(args[0], [rf(b)]))
    else: return False
    return yes(eng, eng.cmp({"Less": "<", "Equal": "==", "Greater": ">"}[r], x.e, y.e))


class Any:
    """a value the specification leaves open"""
ANY = Any()


class Retry(Exception):
    pass


class Inv:
    """candidate invariant of one written cell.  at(t): its value before iteration t; step(t): its value after
    iteration t, in terms of what at(t) is made of; ok(v, t): v is the value after iteration t; start(v): v is at(0)."""

    rel = False     # at and ok also get the value at loop entry

    def __init__(self, name, at, step=None, start=None, ok=None):
        self.name, self.at, self.step, self._start, self._ok = name, at, step, start, ok

    def start(self, eng, v):
        try: return self._start(v) if self._start else same(eng, v, self.at(0))
        except Unsupported: return False

    def ok(self, eng, v, t):
        if self._ok: return self._ok(v, t)
        return same(eng, v, self.step(t) if self.step else self.at(padd(t, 1)))


def seqlen(eng, v):
    return len(v.e) if isinstance(v, V) else v.n


def elem(eng, v, e):
    """element e of a sequence (0 <= e < length known)"""
    if isinstance(v, SQ): return v.read(eng, e)
    e = eng.norm(e)
    if isinstance(e, int): return v.e[e]
    for k in range(len(v.e)):
        if k == len(v.e) - 1 or eng.decide(eng.cmp("==", e, k)): return v.e[k]


def tolist(eng, v, most=64):
    """the elements, one path per length; None when longer than most"""
    v = eng.deref(v)
    if isinstance(v, V): return v.e
    if not eng.decide(eng.cmp("<=", v.n, most)): return None
    n = 0
    while not eng.decide(eng.cmp("==", v.n, n)): n += 1
    return [v.read(eng, k) for k in range(n)]


def yes(eng, b):
    """b holds on this path"""
    return eng.prove(b) == "ok"


def same(eng, a, b):
    a, b = eng.deref(a), eng.deref(b)
    if b is ANY: return True
    if isinstance(a, SIt) and isinstance(b, SIt): a, b = SQ(a.n, a.at), SQ(b.n, b.at)
    if isinstance(a, SM) and isinstance(b, SM):
        return a.base.key == b.base.key and len(a.ups) == len(b.ups) and all(same(eng, x, y) for p, q in zip(a.ups, b.ups) for x, y in zip(p, q))
    if isinstance(a, (SQ, V)) and isinstance(b, (SQ, V)) and (isinstance(a, SSQ) or isinstance(b, SSQ)):
        if not yes(eng, eng.cmp("==", seqlen(eng, a), seqlen(eng, b))): return False
        n = eng.norm(seqlen(eng, a))
        if not eng.decide(eng.cmp(">", n, 0)): return True
        return isinstance(a, SSQ) and isinstance(b, SSQ) and not a.pend and not b.pend and same(eng, a.s, b.s)
    if isinstance(a, (SQ, V)) and isinstance(b, (SQ, V)) and (isinstance(a, SQ) or isinstance(b, SQ)):
        if not yes(eng, eng.cmp("==", seqlen(eng, a), seqlen(eng, b))): return False
        n = eng.norm(seqlen(eng, a))
        if n == 0: return True
        if not eng.decide(eng.cmp(">", n, 0)): return True
        if isinstance(a, V) or isinstance(b, V):
            return all(same(eng, elem(eng, a, k), elem(eng, b, k)) for k in range(len((a if isinstance(a, V) else b).e)))
        # the written places first, each by its own index expression
        ws = (a.w if isinstance(a, SQ) else ()) + (b.w if isinstance(b, SQ) else ())
        for i, _ in ws:
            eng.cutno += 1
            if eng.decide(B(z3.Bool(f"at{eng.cutno}"))):
                if not eng.decide(eng.cmp("<", i, n)): return True
                return same(eng, elem(eng, a, i), elem(eng, b, i))
        j = eng.sym("j", 0, NMAX).e
        eng.assume(eng.cmp("<", j, n))
        for i, _ in ws: eng.assume(eng.bnot(eng.cmp("==", i, j)))
        return same(eng, elem(eng, a, j), elem(eng, b, j))
    if isinstance(a, (V, T)) and type(a) is type(b):
        return len(a.e) == len(b.e) and all(same(eng, x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, St) and isinstance(b, St):
        return a.n == b.n and a.f.keys() == b.f.keys() and all(same(eng, a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, En) and isinstance(b, En):
        return a.v == b.v and len(a.a) == len(b.a) and all(same(eng, x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, I) and isinstance(b, I): return yes(eng, eng.cmp("==", a.e, b.e))
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)): return yes(eng, eng.binop("==", a, b))
    try:
        if vkey(a) == vkey(b): return True
    except Unsupported: pass
    if DBG > 1: print("SAME?", str(vkey(a))[:300] if not isinstance(a,SQ) else a, "|||", str(vkey(b))[:300] if not isinstance(b,SQ) else b, eng.solver.assertions()[-12:] if hasattr(eng.solver,"assertions") else "", eng.cutpick)
    if isinstance(a, Op) and isinstance(b, Op) and a.f == b.f and len(a.a) == len(b.a):
        return all(same(eng, x, y) for x, y in zip(a.a, b.a))
    return False


class Family:
    """values indexed by an integer expression: equal indices (on the path) give the same value"""

    def __init__(self, eng, make):
        self.eng, self.make = eng, make
        self.path, self.seen = None, []

    def __call__(self, e):
        eng = self.eng
        e = eng.norm(e)
        if self.path is not eng.solver: self.path, self.seen = eng.solver, []
        k = e if isinstance(e, int) else e.key()
        for kk, x, v in self.seen:
            if kk == k: return v
        for kk, x, v in self.seen:
            c = eng.cmp("==", e, x)
            if c is True or (c is not False and eng.prove(c) == "ok"): return v
        v = self.make(e)
        self.seen.append((k, e, v))
        return v


# ------------------------------------------------------------------------------ engine hooks
def sub(a, b): return psub(a, b)


def slice_view(eng, v, lo, hi):
    n = eng.norm(psub(hi, lo))
    if isinstance(n, int) and n <= 64: return V([elem(eng, v, eng.norm(padd(lo, k))) for k in range(n)], v.ty)
    if isinstance(v, SQ) and eng.norm(lo) == 0: return SQ(n, v.f, v.w, v.ty)
    return SQ(n, lambda e: elem(eng, v, eng.norm(padd(lo, e))), (), v.ty)


def slice_put(eng, v, lo, hi, x):
    if not yes(eng, eng.cmp("==", seqlen(eng, x), psub(hi, lo))): raise Unsupported("slice resized")
    n = seqlen(eng, v)
    if isinstance(x, SQ) and eng.norm(lo) == 0 and yes(eng, eng.cmp("==", hi, n)): return SQ(n, x.f, x.w, v.ty)

    def f(e):
        if eng.decide(eng.cmp("<=", lo, e)) and eng.decide(eng.cmp("<", e, hi)): return elem(eng, x, eng.norm(psub(e, lo)))
        return elem(eng, v, e)
    return SQ(n, f, (), v.ty)


def bounds_ok(eng, e, n):
    if not eng.decide(eng.cmp("<", e, n)): raise Panic("index out of bounds")


def to_sit(eng, v):
    """symbolic iterator of an iterable value, or None"""
    if isinstance(v, SIt): return v
    if isinstance(v, Ref):
        c, p = eng.through((v.c, v.p))
        x = eng.load(c, p)
        if isinstance(x, SQ): return SIt(x.n, lambda t: Ref(c, p + (("i", t),)))
        if isinstance(x, V): return SIt(len(x.e), lambda t: Ref(c, p + (("i", eng.conc(I("usize", t))),)))
        v = x
        if isinstance(v, AM): return am_it(eng, v, True)
        if isinstance(v, SIt): return v
    if isinstance(v, AM): return am_it(eng, v, False)
    if isinstance(v, SQ): return SIt(v.n, lambda t: v.read(eng, t))
    if isinstance(v, Rng) and v.hi is not None:
        ty = v.lo.ty or v.hi.ty
        lo, hi = eng.norm(v.lo.e), eng.norm(padd(v.hi.e, 1 if v.incl else 0))
        if not eng.decide(eng.cmp("<=", lo, hi)): return SIt(0, None)
        return SIt(eng.norm(psub(hi, lo)), lambda t: I(ty, eng.norm(padd(lo, t))))
    if isinstance(v, It) and isinstance(v.items, list):
        L = v.items[v.pos:]
        return SIt(len(L), lambda t: L[eng.conc(I("usize", t))])
    return None


def symbolic(eng, v):
    """does iterating v need a cut?"""
    if isinstance(v, SIt): return True
    if isinstance(v, Ref): v = eng.load(*eng.through((v.c, v.p)))
    if isinstance(v, (SIt, SQ, AM)): return True
    if eng.invs is not None and isinstance(v, Rng) and v.hi is not None and v.lo is not None:
        lo, hi = eng.norm(v.lo.e), eng.norm(v.hi.e)
        d = eng.norm(psub(hi, lo))
        return not isinstance(d, int) or d > getattr(eng, "unroll", 1 << 60)
    return False


def m_sit(eng, ref, v, n, args, h, targs=()):
    if n == "next":
        if not eng.decide(eng.cmp(">", v.n, 0)): return NONE
        eng.store(ref.c, ref.p, SIt(eng.norm(psub(v.n, 1)), lambda t: v.at(eng.norm(padd(t, 1)))))
        return Some(v.at(0))
    if n in ("into_iter", "iter", "by_ref", "with_min_len", "fuse", "into_par_iter", "par_iter"): return v
    if n == "rev": return SIt(v.n, lambda t: v.at(eng.norm(psub(psub(v.n, 1), t))))
    if n == "enumerate": return SIt(v.n, lambda t: T([I("usize", t), v.at(t)]))
    if n in ("cloned", "copied"): return SIt(v.n, lambda t: eng.deref(v.at(t)))
    if n == "map": return SIt(v.n, lambda t: eng.call_val(args[0], [v.at(t)]))
    if n in ("len", "count"): return I("usize", v.n)
    if n == "zip":
        o = to_sit(eng, args[0])
        if o is None:
            if isinstance(args[0], Rng) and args[0].hi is None: o = SIt(v.n, lambda t: I(args[0].lo.ty, eng.norm(padd(args[0].lo.e, t))))
            else: raise Unsupported("zip")
        m = v.n if eng.decide(eng.cmp("<=", v.n, o.n)) else o.n
        return SIt(m, lambda t: T([v.at(t), o.at(t)]))
    if n == "skip":
        k = args[0].e
        if not eng.decide(eng.cmp("<=", k, v.n)): return SIt(0, None)
        return SIt(eng.norm(psub(v.n, k)), lambda t: v.at(eng.norm(padd(t, k))))
    if n == "take":
        k = args[0].e
        return SIt(eng.norm(k), v.at) if eng.decide(eng.cmp("<=", k, v.n)) else v
    if n == "step_by":
        k = eng.conc(args[0])
        m = eng.divc(padd(v.n, k - 1), k)[1] if not isinstance(v.n, int) else -(-v.n // k)
        return SIt(m, lambda t: v.at(eng.norm(pscale(t, k)) if not isinstance(t, int) else t * k))
    if n == "for_each":
        cut(eng, v, lambda x: eng.call_val(args[0], [x]), ("fe", id(getattr(args[0], "body", None))))
        return UNIT
    if n == "try_for_each":
        r = cut(eng, v, lambda x: _tryb(eng, args[0], x), ("tfe", id(getattr(args[0], "body", None))))
        return r[0] if r else Ok(UNIT)
    if n == "fold":
        acc = Cell(args[0])
        def body(x): eng.store(acc, (), eng.call_val(args[1], [eng.load(acc, ()), x]))
        cut(eng, v, body, ("fold", id(getattr(args[1], "body", None))), extra={"<acc>": acc})
        return eng.load(acc, ())
    if n == "reduce" and len(args) == 2:        # rayon: an associative operation with an identity
        acc = Cell(eng.call_val(args[0], []))
        def rbody(x): eng.store(acc, (), eng.call_val(args[1], [eng.load(acc, ()), x]))
        cut(eng, v, rbody, ("reduce", id(getattr(args[1], "body", None))), extra={"<acc>": acc})
        return eng.load(acc, ())
    if n in ("collect", "collect_vec"):
        t = targs[0] if targs else h
        if t is not None and isinstance(t, TyRef) and t.n in ("Result", "Option", "HashMap", "BTreeMap", "String"): return collect_result(eng, v, t)
        def at(e):
            s0, wl = Cell.serial(), eng.wlog
            eng.wlog = []
            try:
                x = v.at(e)
                if any(c.id < s0 for c, p in eng.wlog): raise Unsupported("a mapped closure writes outside itself")
            finally: eng.wlog = wl
            return x
        return SQ(v.n, at)
    if n in ("all", "any"):
        r = cut(eng, v, lambda x: _allb(eng, args[0], x, n), ("all", id(getattr(args[0], "body", None))))
        return r[0] if r else n == "all"
    return NotImplemented


def collect_result(eng, v, t):
    if t.n in ("HashMap", "BTreeMap"):
        r = Ref(Cell(St("HashMap", {"m": V([])})))
        am_extend(eng, r, v)
        return eng.load(r.c, r.p)
    raise Unsupported("collect into " + t.n)


def _tryb(eng, f, x):
    r = eng.call_val(f, [x])
    if r.v in ("Err", "None"): raise Brk(r, None)


def _allb(eng, f, x, n):
    r = eng.decide(eng.deref(eng.call_val(f, [x])))
    if r != (n == "all"): raise Brk(r, None)


def m_sq(eng, ref, v, n, args, h):
    c, p = ref.c, ref.p
    if n == "len": return I("usize", v.n)
    if n == "is_empty": return eng.cmp("==", v.n, 0)
    if n in ("iter", "iter_mut", "par_iter", "par_iter_mut"): return SIt(v.n, lambda t: Ref(c, p + (("i", t),)))
    if n in ("into_iter", "into_par_iter"): return SIt(v.n, lambda t: v.read(eng, t))
    if n in ("clone", "to_vec", "to_owned", "into_vec"): return v
    if n in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "deref"): return Ref(c, p)
    if isinstance(v, SSQ) and n in ("push", "push_back"):
        eng.store(c, p, v.put(eng, args[0])); return UNIT
    if n in ("sort_by", "sort_by_key", "sort_by_cached_key") and byfirst(eng, n, args):
        eng.store(c, p, v.sorted(eng) if isinstance(v, SSQ) else SSQ(v)); return UNIT
    if n in ("push", "push_back"):
        eng.store(c, p, SQ(eng.norm(padd(v.n, 1)), v.f, v.w + ((v.n, args[0]),), v.ty)); return UNIT
    if n in ("first", "last"):
        if not eng.decide(eng.cmp(">", v.n, 0)): return NONE
        return Some(Ref(c, p + (("i", 0 if n == "first" else eng.norm(psub(v.n, 1))),)))
    if n in ("get", "get_mut"):
        e = eng.norm(eng.deref(args[0]).e)
        return Some(Ref(c, p + (("i", e),))) if eng.decide(eng.cmp("<", e, v.n)) else NONE
    if n in ("chunks", "par_chunks", "chunks_mut", "par_chunks_mut", "chunks_exact"):
        k = eng.norm(args[0].e)
        if not isinstance(k, int) and eng.bounds(k)[0] < 1 and not eng.decide(eng.cmp(">", k, 0)): k = 0
        if k == 0: raise Panic("chunk size 0")
        if isinstance(k, int): m = eng.divc(padd(v.n, k - 1 if "exact" not in n else 0), k)[1] if not isinstance(v.n, int) else -(-v.n // k)
        elif "exact" in n: raise Unsupported("exact chunks of unknown size")
        else: m = nchunks(eng, v.n, k)

        if eng.chunklog[0] is not eng.solver: eng.chunklog = (eng.solver, [])
        eng.chunklog[1].append((v.n, k, m))

        def at(t):
            lo = eng.norm(pmul(t, k))
            if not isinstance(k, int): eng.assume(eng.cmp("<", lo, v.n))       # t < m
            hi = eng.norm(padd(lo, k))
            if not eng.decide(eng.cmp("<=", hi, v.n)): hi = v.n
            return Ref(c, p + (("s", lo, hi),))
        return SIt(m, at)
    if n in ("copy_from_slice", "clone_from_slice"):
        s = eng.deref(args[0])
        if not eng.decide(eng.cmp("==", seqlen(eng, s), v.n)): raise Panic("copy_from_slice length")
        eng.store(c, p, s); return UNIT
    if n in ("extend_from_slice", "extend", "append"):
        s = eng.deref(args[0])
        if isinstance(s, (SIt, It)): raise Unsupported("extend by an iterator")
        n0 = v.n
        eng.store(c, p, SQ(eng.norm(padd(n0, seqlen(eng, s))), lambda e: v.read(eng, e) if eng.decide(eng.cmp("<", e, n0)) else elem(eng, s, eng.norm(psub(e, n0))), (), v.ty))
        if n == "append": eng.store(args[0].c, args[0].p, V([], v.ty))
        return UNIT
    if n == "concat": raise Unsupported("concat")
    if n == "try_into": return Ok(v)
    return NotImplemented


def nchunks(eng, n, k):
    """the number m of chunks of k >= 1 that n elements make: m k >= n > m k - k, m = 0 for n = 0; more for more elements"""
    # a factor both have does not matter
    while not isinstance(n, int) and not isinstance(k, int):
        v = next((v for v in sorted(pvars(k)) if eng.syms.lo[v] >= 1 and all(v in m for m in n.d) and all(v in m for m in k.d)), None)
        if v is None: break
        f = lambda e: mk({tuple(x for i, x in enumerate(m) if i != m.index(v)): c for m, c in e.d.items()})
        n, k = f(n), f(k)
    if isinstance(k, int): return eng.divc(padd(n, k - 1), k)[1] if not isinstance(n, int) else -(-n // k)
    if eng.chunks[0] is not eng.solver: eng.chunks = (eng.solver, [])
    for a, b, m in eng.chunks[1]:
        if psub(a, n) == 0 and psub(b, k) == 0: return m
    m = eng.sym("m", 0, eng.bounds(n)[1]).e
    mk_ = pmul(m, k)
    eng.assume(eng.cmp(">=", mk_, n))
    if eng.decide(eng.cmp(">", n, 0)): eng.assume(eng.cmp("<", psub(mk_, k), n)); eng.assume(eng.cmp(">=", m, 1))
    else: eng.assume(eng.cmp("==", m, 0))
    for a, b, m2 in eng.chunks[1]:
        if psub(b, k) == 0:
            if yes(eng, eng.cmp("<=", n, a)): eng.assume(eng.cmp("<=", m, m2))
            elif yes(eng, eng.cmp(">=", n, a)): eng.assume(eng.cmp(">=", m, m2))
    eng.chunks[1].append((n, k, m))
    return m


def cellkey(eng, sc, c, p, extra):
    """a name for a cell that survives re-execution: the variable that holds it, or refers to it"""
    for k, x in (extra or {}).items():
        if x is c: return (k, False, p)
    s = sc
    while s is not None:
        for nm, x in s.d.items():
            if x is c: return (nm, False, p)
        s = s.up
    s = sc
    while s is not None:
        for nm, x in s.d.items():
            v = x.v if isinstance(x, Cell) else None
            if isinstance(v, Ref):
                while isinstance(v, Ref) and v.c is not c and isinstance(v.c.v, Ref): v = v.c.v
                if v.c is c: return (nm, True, p)
        s = s.up
    return None


def findcell(eng, sc, key, extra):
    nm, isref, p = key
    if extra and nm in extra: return extra[nm]
    c = sc.get(nm)
    if c is None: return None
    if isref:
        v = c.v
        while isinstance(v, Ref) and isinstance(v.c.v, Ref): v = v.c.v
        return v.c
    return c


def discover(eng, log, s0, hv, cells, sc, extra):
    for c, p in log:
        if c.id >= s0: continue
        p = tuple(p)
        for i, s in enumerate(p):
            if s[0] in ("i", "s"): p = p[:i]; break
        if any(c is d and p[:len(ck[2])] == ck[2] for ck, d, _ in hv): continue
        ck = cellkey(eng, sc, c, p, extra)
        if ck is None: raise Unsupported("a cell written in the loop has no name")
        cells[:] = [x for x in cells if not (findcell(eng, sc, x, extra) is c and x[2][:len(p)] == p)]
        cells.append(ck)
        raise Retry()


def written(eng, cells, sc, extra=None):
    hv = []
    for ck in cells:
        c = findcell(eng, sc, ck, extra)
        if c is None: raise Unsupported("a written cell is gone")
        v0 = eng.load(c, ck[2])
        hv.append((ck, c, v0))
    return hv


def entered(eng, key, hv, picks):
    for (ck, c, v0), q in zip(hv, picks):
        if not q.start(eng, v0):
            eng.cutfail = (key, ck, f"no invariant starts as {ck[0]} does", True)
            eng.cutw0.append(witness(eng))
            raise Retry()
    raise Infeasible()


def kept(eng, key, hv, picks, t):
    for (ck, c, v0), q in zip(hv, picks):
        if not (q.ok(eng, eng.load(c, ck[2]), t, v0) if q.rel else q.ok(eng, eng.load(c, ck[2]), t)):
            eng.cutfail = (key, ck, f"the loop does not keep the invariant {q.name} of {ck[0]}", False)
            eng.cutw.append(witness(eng))
            raise Retry()


def wcut(eng, key, cond, body, sc, lab=None):
    """a while or loop loop: t iterations done, t <= N for one of the counts the property names"""
    cells = eng.cutcells.setdefault(key, [])
    if not eng.counts: raise Unsupported("a while loop without a count")
    hv = written(eng, cells, sc)
    if key not in eng.cutorder: eng.cutorder.append(key)
    cur = eng.cutpick.get(key, {})
    picks = [eng.invs[cur.get(ck, 0)] for ck, _, _ in hv]
    N = eng.counts[cur.get(("N",), 0)]
    eng.cutno += 1
    no = eng.cutno
    if hv and eng.decide(B(z3.Bool(f"enter{no}"))): entered(eng, key, hv, picks)
    t = eng.sym("t", 0, NMAX).e
    eng.assume(eng.cmp("<=", t, N))
    if eng.decide(eng.cmp("==", t, 0)): t = 0
    for (ck, c, v0), q in zip(hv, picks): eng.store(c, ck[2], q.at(t))
    s0, wl = Cell.serial(), eng.wlog
    eng.wlog = []
    eng.tstack.append(t)
    try:
        s2 = Scope(sc)
        if cond and not eng.decide(cond(s2)): r = (UNIT,)
        else: r = eng.loop_ctl(lambda: body(s2), lab)
    finally:
        eng.tstack.pop()
        log, eng.wlog = eng.wlog, (wl + eng.wlog if wl is not None else None)
    discover(eng, log, s0, hv, cells, sc, None)
    if r: return r
    if not yes(eng, eng.cmp("<", t, N)):
        eng.cutfail = (key, ("N",), "the loop may run longer than expected", False)
        eng.cutw.append(witness(eng))
        raise Retry()
    kept(eng, key, hv, picks, t)
    raise Infeasible()


def cut(eng, it, body, key, lab=None, extra=None, sc=None):
    """runs body over every item of it; returns None, or (value,) when the body broke out of the loop"""
    N = eng.norm(it.n)
    if not eng.cutall and not isinstance(N, int) and yes(eng, eng.cmp("<=", N, eng.few)):
        k = 0
        while not eng.decide(eng.cmp("==", N, k)): k += 1
        N = k
    if not eng.cutall and isinstance(N, int) and N <= eng.few:
        for t in range(N):
            r = eng.loop_ctl(lambda: body(it.at(t)), lab)
            if r: return r
        return None
    if not eng.invs: raise Unsupported("a loop of symbolic length without invariants")
    sc = sc or eng.cursc
    cells = eng.cutcells.setdefault(key, [])
    hv = written(eng, cells, sc, extra)
    order = eng.cutorder
    if key not in order: order.append(key)
    cur = eng.cutpick.get(key, {})
    picks = [eng.invs[cur.get(ck, 0)] for ck, _, _ in hv]
    eng.cutno = getattr(eng, "cutno", 0) + 1
    eng.cutit = it
    if hv and eng.decide(B(z3.Bool(f"enter{eng.cutno}"))):
        entered(eng, key, hv, picks)
    if eng.decide(B(z3.Bool(f"cut{eng.cutno}"))):
        t = eng.tmake(it, N) if eng.tmake else eng.sym("t", 0, min(NMAX, max(eng.bounds(N)[1] - 1, 0))).e
        eng.assume(eng.cmp("<", t, N))
        if eng.tmake: eng.assume(eng.cmp(">=", t, 0))
        if eng.cutall: eng.cutall(t, N)
        first = not eng.tmake and eng.decide(eng.cmp("==", t, 0))
        if first: t = 0
        for (ck, c, v0), q in zip(hv, picks):
            eng.store(c, ck[2], q.at(t, v0) if q.rel else q.at(t))
        s0, wl = Cell.serial(), eng.wlog
        eng.wlog = []
        eng.tstack.append(t)
        eng.cutts.append(t)
        try:
            r = eng.loop_ctl(lambda: body(it.at(t)), lab)
        finally:
            eng.tstack.pop()
            log, eng.wlog = eng.wlog, (wl + eng.wlog if wl is not None else None)
        if r: return r
        discover(eng, log, s0, hv, cells, sc, extra)
        eng.cutit = it
        kept(eng, key, hv, picks, t)
        raise Infeasible()
    for (ck, c, v0), q in zip(hv, picks):
        eng.store(c, ck[2], q.at(N, v0) if q.rel else q.at(N))
    return None


def rec(eng, key, args, run):
    """recursion cut: the call's arguments are at(0) of their invariants, every call inside gets at(t + 1), and the
    result is the same eng.recpost() at every depth t <= N (the measure N - t decreases)"""
    N, post = eng.recpost[:2]
    at = post if len(eng.recpost) > 2 else lambda t: post()      # a third entry: the result depends on the depth
    if key in eng.recact:
        if key not in eng.recset:
            eng.recset.add(key)
            raise Retry()
        t, args0, picks = eng.recact[key]
        if not yes(eng, eng.cmp("<", t, N)): raise Unsupported("recursion past the end")
        for i, (a, a0) in enumerate(zip(args, args0)):
            q = picks[i]
            if not (keep(eng, a, a0) if q is None else q.ok(eng, eng.deref(a), t)):
                eng.cutfail = (key, ("arg", i), f"the recursion does not keep {q.name if q else 'argument'} {i}", False)
                eng.cutw.append(witness(eng))
                raise Retry()
        return at(padd(t, 1))
    if key not in eng.recset: return None
    if key not in eng.cutorder: eng.cutorder.append(key)
    cells = eng.cutcells.setdefault(key, [("arg", i) for i in range(len(args))])
    cur = eng.cutpick.get(key, {})
    picks = [None if not cur.get(c, 0) else eng.invs[cur[c] - 1] for c in cells]
    eng.cutno += 1
    if eng.decide(B(z3.Bool(f"enter{eng.cutno}"))):
        for i, (a, q) in enumerate(zip(args, picks)):
            if q is not None and not q.start(eng, eng.deref(a)):
                eng.cutfail = (key, ("arg", i), f"no invariant starts as argument {i} does", True)
                raise Retry()
        raise Infeasible()
    if eng.decide(B(z3.Bool(f"cut{eng.cutno}"))):
        t = eng.sym("t", 0, NMAX).e
        eng.assume(eng.cmp("<=", t, N))
        if eng.decide(eng.cmp("==", t, 0)): t = 0
        s0, wl = Cell.serial(), eng.wlog
        eng.wlog = []
        eng.tstack.append(t)
        try: v = run([a if q is None else Ref(Cell(q.at(t))) if isinstance(a, Ref) else q.at(t) for a, q in zip(args, picks)], (t, args, picks))
        finally: log, eng.wlog = eng.wlog, (wl + eng.wlog if wl is not None else None)
        if any(c.id < s0 for c, p in log): raise Unsupported("the recursion writes outside itself")
        good = same(eng, v, at(t))
        eng.tstack.pop()
        if not good:
            eng.cutfail = (key, ("arg", 0), "the recursion does not give the specified value", False)
            eng.cutw.append(witness(eng))
            raise Retry()
        raise Infeasible()
    return at(0)


def keep(eng, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref) and a.c is b.c and a.p == b.p: return True
    return same(eng, a, b)


def witness(eng):
    """small values of the named sizes on the present path"""
    names, best = getattr(eng, "sizes", {}), None
    z = {k: eng.zint(e) for k, e in names.items() if not isinstance(e, int)}
    for top in (8, 64, 1024, 16384, 1 << 20):
        if eng.check(z3.And(*[v <= top for v in z.values()])) == z3.sat:
            m = eng.solver.model()
            return {k: (m.eval(z[k], model_completion=True).as_long() if k in z else e) for k, e in names.items()}
    return None


def prove_all(mkeng, run, what, most=200):
    """run(eng) explores one function with eng.invs set; retries until the written cells and their invariants fit.
    The choice of invariants is the same on every path of one exploration."""
    cells, pick, dead, last, order, wit, wit0, recset = {}, {}, {}, None, [], [], [], set()

    def give_up(msg):
        u = Unsupported(msg)
        ws = [w for w in wit if w] or [w for w in wit0 if w]
        u.cex = {"sizes": [w for i, w in enumerate(ws) if w not in ws[:i]][:8]}
        raise u
    for _ in range(most):
        eng = mkeng()
        eng.cutcells, eng.cutpick, eng.cutorder, eng.cutfail = cells, pick, order, None
        eng.wlog, eng.cutw, eng.cutw0 = [], wit, wit0
        eng.recset, eng.recact, eng.tstack = recset, {}, []
        try: return run(eng)
        except Retry: pass
        except (Undecided, Unsupported) as u:
            wit.append(getattr(u, "wit", None))
            give_up(str(u))
        if eng.cutfail is None:
            continue        # a written cell was found
        key, ck, why, start = eng.cutfail
        last = last if start and last else f"{what}: {why}"
        p, d = pick.setdefault(key, {}), dead.setdefault(key, {})
        if start: d.setdefault(ck, set()).add(p.get(ck, 0))
        for k in order[order.index(key) + 1:]:
            pick.pop(k, None)
            dead.pop(k, None)
        del order[order.index(key) + 1:]
        n = len(eng.invs) + (1 if key in recset and key[0] != "while" else 0)
        cs = list(cells[key]) + ([("N",)] if key[0] == "while" else [])
        while True:         # the next choice for the cells of this loop
            for c in cs:
                p[c] = p.get(c, 0) + 1
                if p[c] < (len(eng.counts) if c == ("N",) else n): break
                p[c] = 0
            else: give_up(last)
            if not any(p.get(c, 0) in d.get(c, ()) for c in cs): break
    give_up(last or f"{what}: no invariant found")
