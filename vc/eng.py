"""Symbolic executor for the real Rust bodies (syntax trees from rastdump).

Every obligation is generated by running a function of /repo on symbolic arguments, over all feasible
paths; callees that carry a contract are replaced by it (Engine.contracts), all others are executed.
Machine integers have release-mode (wrapping) semantics.  Anything outside the supported subset raises
Unsupported: the obligation is then undecided, never proved.
"""
import sys, time
import z3
import sys
sys.set_int_max_str_digits(0)
from poly import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


class Panic(Exception):
    pass


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    def __init__(self, v, lab): self.v, self.lab = v, lab


class Cont(Exception):
    def __init__(self, lab): self.lab = lab


# ------------------------------------------------------------------ values
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def signed(t): return t[0] == "i"


def trange(t):
    b = BITS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed(t) else (0, (1 << b) - 1)


class I:
    """integer: ty may be None (untyped literal)"""
    __slots__ = ("ty", "e")

    def __init__(self, ty, e): self.ty, self.e = ty, e
    def __repr__(self): return f"{self.e if isinstance(self.e, int) else 'sym'}{self.ty or ''}"


class B:
    """symbolic boolean; s: 0/1 polynomial with (B <=> s = 1), when known"""
    __slots__ = ("z", "s", "k")

    def __init__(self, z, s=None, k=None): self.z, self.s, self.k = z, s, k   # k: (is equality, expression, constant)


class St:
    __slots__ = ("n", "f")

    def __init__(self, n, f): self.n, self.f = n, f
    def __repr__(self): return f"{self.n}{self.f}"


class T:
    __slots__ = ("e",)

    def __init__(self, e): self.e = tuple(e)
    def __repr__(self): return f"{self.e}"


UNIT = T(())


class V:
    """Vec, array or slice contents"""
    __slots__ = ("e", "ty")

    def __init__(self, e, ty=None): self.e, self.ty = e if isinstance(e, list) else list(e), ty
    def __repr__(self): return f"V{self.e}"


class En:
    __slots__ = ("n", "v", "a")

    def __init__(self, n, v, a=()): self.n, self.v, self.a = n, v, tuple(a)
    def __repr__(self): return f"{self.v}{self.a}"


def Some(x): return En("Option", "Some", (x,))
NONE = En("Option", "None")
def Ok(x): return En("Result", "Ok", (x,))
def Err(x): return En("Result", "Err", (x,))
ORD = {k: En("Ordering", k) for k in ("Less", "Equal", "Greater")}


class Cell:
    __slots__ = ("v", "id")
    _n = 0

    def __init__(self, v=None):
        self.v = v
        self.id = Cell._n = Cell._n + 1

    @staticmethod
    def serial(): return Cell._n + 1


class Ref:
    __slots__ = ("c", "p")

    def __init__(self, c, p=()): self.c, self.p = c, tuple(p)
    def __repr__(self): return f"&{self.p}"


class Clo:
    def __init__(self, params, body, env, fr): self.params, self.body, self.env, self.fr = params, body, env, fr


class PyFn:
    def __init__(self, f): self.f = f


class FnV:
    def __init__(self, segs, fr): self.segs, self.fr = segs, fr


class It:
    """iterator over a finite list (or an infinite generator function)"""

    def __init__(self, items): self.items, self.pos = items, 0


class Rng:
    __slots__ = ("lo", "hi", "incl")

    def __init__(self, lo, hi, incl): self.lo, self.hi, self.incl = lo, hi, incl


class Str:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __repr__(self): return repr(self.v)


class Raw:
    """in-memory words of a value taken by contract: path below it (e.g. .0 .0 [0])"""
    __slots__ = ("v", "p")

    def __init__(self, v, p): self.v, self.p = v, p


class Ite:
    __slots__ = ("s", "a", "b")

    def __init__(self, s, a, b): self.s, self.a, self.b = s, a, b


class Xor:
    """xor of opaque 64-bit words"""
    __slots__ = ("k",)

    def __init__(self, k): self.k = k


class PW:
    """x^e for a fixed abstract x of a commutative monoid (used for exponentiation contracts)"""
    __slots__ = ("ty", "e")

    def __init__(self, ty, e): self.ty, self.e = ty, e


class Op:
    """uninterpreted term"""
    __slots__ = ("f", "a", "ty", "_k")

    def __init__(self, f, a=(), ty=None): self.f, self.a, self.ty, self._k = f, tuple(a), ty, None

    def __repr__(self): return f"{self.f}({','.join(map(str, self.a))})"


class TyRef:
    """a type with its arguments, as resolved in some frame"""
    __slots__ = ("n", "a", "ln")

    def __init__(self, n, a=(), ln=None): self.n, self.a, self.ln = n, tuple(a), ln
    def __repr__(self): return self.n + (f"<{','.join(map(repr, self.a))}>" if self.a else "")


def vkey(v):
    """hashable key; equal keys mean equal values"""
    if isinstance(v, I):
        return ("i", v.e if isinstance(v.e, int) else v.e.key())
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, FV):
        return ("f", v.F.name, v.key())
    if isinstance(v, St):
        return ("s", v.n, tuple((k, vkey(x)) for k, x in sorted(v.f.items())))
    if isinstance(v, T):
        return ("t",) + tuple(vkey(x) for x in v.e)
    if isinstance(v, V):
        return ("v",) + tuple(vkey(x) for x in v.e)
    if isinstance(v, En):
        return ("e", v.v) + tuple(vkey(x) for x in v.a)
    if isinstance(v, Str):
        return ("str", v.v)
    if isinstance(v, PW):
        return ("pw", v.ty, v.e if isinstance(v.e, int) else v.e.key())
    if isinstance(v, Raw):
        return ("raw", vkey(v.v), v.p)
    if isinstance(v, Op):
        if v._k is None:
            v._k = ("op", v.f) + tuple(vkey(x) for x in v.a)
        return v._k
    if isinstance(v, Xor):
        return ("xor", v.k)
    if isinstance(v, (str, int)) or v is None:
        return ("py", v)
    if isinstance(v, TyRef):
        return ("ty", repr(v))
    raise Unsupported(f"no key for {type(v).__name__}")


class Frame:
    """static context of the running function: module, Self, generics, expected return type"""

    def __init__(self, mod, tenv, ret=None): self.mod, self.tenv, self.ret = mod, tenv, ret


class Scope:
    __slots__ = ("d", "up")

    def __init__(self, up=None): self.d, self.up = {}, up

    def get(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d[n]
            s = s.up
        return None


class Outcome:
    def __init__(self, kind, val, pc, facts, cells=None):
        self.kind, self.val, self.pc, self.facts, self.cells = kind, val, pc, facts, cells


NOBOUND, HUGE = 1 << 40000, 1 << 60000


class Engine:
    def __init__(self, prog, contracts=None, tmo=20000):
        self.P = prog
        self.contracts = contracts or {}     # type name -> Contract
        self.fncontracts = {}                # (type name|module, fn name) -> python callable(eng, args)
        self.syms = Syms()
        self.zs = []
        self.splits = {}
        self.facts_of = {}
        self.tmo = tmo
        self.stat = {"paths": 0, "queries": 0, "ztime": 0.0, "fns": {}}
        self.merge_on = False
        self.loop_bound = 4096
        self.nonzero = None
        self.mono = {}
        self.consts = {}
        self.steps = 0
        self.max_steps = 60_000_000
        self.max_paths = 4000
        self.used_contracts = set()
        self.reset()

    # -------------------------------------------------------------- symbols and solver
    def reset(self):
        self.solver = z3.SolverFor("QF_LIA") if False else z3.Solver()
        self.solver.set("timeout", self.tmo)
        self.pc, self.asserted, self.ffacts = [], set(), []
        self.sub = {}
        self.trail = None
        self.pb = {}
        self.globs = {}
        self.cutno, self.cutts = 0, []

    def sym(self, name, lo, hi, ty=None):
        i = self.syms.new(name, lo, hi)
        self.zs.append(z3.Int(f"{name}_{i}"))
        return I(ty, Poly.sym(i))

    def insym(self, ty, name, lo=None, hi=None):
        a, b = trange(ty)
        return self.sym(name, a if lo is None else lo, b if hi is None else hi, ty)

    def zint(self, e):
        if isinstance(e, int):
            return z3.IntVal(e)
        out = []
        for m, c in e.d.items():
            if m == ():
                out.append(z3.IntVal(c))
            else:
                out.append(c * self.zmono(m))
        return z3.Sum(out) if len(out) > 1 else out[0]

    def zmono(self, m):
        for s in m:
            if s not in self.asserted:
                self.asserted.add(s)
                self.solver.add(*self.within(self.zs[s], self.syms.lo[s], self.syms.hi[s]))
                for f in self.facts_of.get(s, ()):
                    self.solver.add(f(self))
        if len(m) == 1:
            return self.zs[m[0]]
        if m not in self.mono:
            self.mono[m] = z3.Int("m_" + "_".join(map(str, m)))
        z = self.mono[m]
        if m not in self.asserted:
            self.asserted.add(m)
            lo, hi = self.mbounds(m)
            self.solver.add(*self.within(z, lo, hi))
        return z

    def within(self, z, lo, hi):
        """a bound of 2^40000 and beyond stands for no bound: no program constant comes near"""
        return [z >= lo] * (abs(lo) < NOBOUND) + [z <= hi] * (abs(hi) < NOBOUND)

    def mbounds(self, m):
        lo, hi = 1, 1
        for s in m:
            a, b = self.syms.lo[s], self.syms.hi[s]
            c = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(c), max(c)
        return lo, hi

    def bounds(self, e):
        if isinstance(e, int):
            return e, e
        lo = hi = 0
        for m, c in e.d.items():
            a, b = self.mbounds(m)
            a, b = c * a, c * b
            lo += min(a, b); hi += max(a, b)
        r = self.pb.get(e.key())
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def note(self, e, lo, hi):
        """lo <= e <= hi holds on this path"""
        if not isinstance(e, int):
            k = e.key()
            r = self.pb.get(k)
            if r: lo, hi = max(lo, r[0]), min(hi, r[1])
            self.pb[k] = (lo, hi)
        return e

    def ib(self, v):
        """interval of an integer value: its expression's and its type's"""
        e = self.norm(v.e)
        lo, hi = self.bounds(e)
        if v.ty in BITS:
            a, b = trange(v.ty)
            lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    def arith(self, op, a, b):
        """a op b before wrapping, with the interval of the operands"""
        x, y = self.norm(a.e), self.norm(b.e)
        (al, ah), (bl, bh) = self.ib(a), self.ib(b)
        if op == "*":
            if al == ah: x = al
            if bl == bh: y = bl
        if op == "+": return self.note(padd(x, y), al + bl, ah + bh)
        if op == "-": return self.note(psub(x, y), al - bh, ah - bl)
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return self.note(pmul(x, y), min(c), max(c))

    def check(self, *zs):
        self.stat["queries"] += 1
        t = time.time()
        r = self.solver.check(*zs)
        self.stat["ztime"] += time.time() - t
        return r

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise Infeasible()
            return
        if isinstance(b, B):
            if b.s is not None and not isinstance(b.s, int):
                v = sorted(pvars(b.s))
                if len(v) == 1 and self.syms.lo[v[0]] == 0 and self.syms.hi[v[0]] == 1:
                    self.sub[v[0]] = 1 if peval(b.s, {v[0]: 1}) == 1 else 0
            if b.k and b.k[0]: self.note(b.k[1], b.k[2], b.k[2])
            b = b.z
        self.pc.append(b)
        self.solver.add(b)

    def norm(self, e):
        return psubst(e, self.sub) if self.sub else e

    def bnot(self, b):
        if isinstance(b, bool):
            return not b
        return B(z3.Not(b.z), None if b.s is None else psub(1, b.s), b.k and (not b.k[0], b.k[1], b.k[2]))

    def decide(self, b):
        if isinstance(b, bool):
            return b
        if not isinstance(b, B):
            raise Unsupported(f"branch on {type(b).__name__}")
        if b.s is not None:
            s = self.norm(b.s)
            if isinstance(s, int):
                return s == 1
        pos = self.dpos
        if pos < len(self.trace):
            # replay: same decision as before (forced ones are recorded too)
            d, _ = self.trace[pos]
            self.dpos += 1
            self.assume(b if d else self.bnot(b))
            return d
        t = self.check(b.z)
        f = self.check(z3.Not(b.z)) if t != z3.unsat else z3.sat
        if t == z3.unsat:
            d, open_ = False, False
            if f == z3.unsat:
                raise Infeasible()
        elif f == z3.unsat:
            d, open_ = True, False
        else:
            d, open_ = True, True
        self.trace.append((d, open_))
        self.dpos += 1
        if self.stat["paths"] + len(self.trace) > self.max_paths * 50:
            raise Unsupported("too many decisions")
        self.assume(b if d else self.bnot(b))
        return d

    def explore(self, thunk):
        """runs thunk over every feasible path; returns the outcomes"""
        self.trace = []
        self.cval = {}
        outs, pend = [], None
        while True:
            self.reset()
            self.dpos = 0
            cells = None
            try:
                v = thunk()
                outs.append(self.finish(Outcome("ret", v, list(self.pc), list(self.ffacts))))
            except Panic as p:
                outs.append(self.finish(Outcome("panic", str(p), list(self.pc), list(self.ffacts))))
            except Infeasible:
                pass
            except (Undecided, Unsupported) as u:
                if self.invs is None: raise
                if pend is None:        # another path may still show a cell or an invariant to be missing
                    u.wit = seq.witness(self)
                    pend = u
            self.stat["paths"] += 1
            if self.stat["paths"] > self.max_paths:
                raise Unsupported("too many paths")
            while self.trace and not (self.trace[-1][1] and self.trace[-1][0]):
                self.trace.pop()
            if not self.trace:
                if pend: raise pend
                return outs
            self.trace[-1] = (False, False)

    def finish(self, o):
        """hook: obligations are checked here, while the path's solver is alive"""
        if self.on_path:
            self.on_path(o)
        return o
    on_path = None
    tdefaults = {}      # const generics of a type that the syntax alone does not give

    def prove(self, b):
        """'ok', ('cex', model) or 'unknown' under the current path"""
        if isinstance(b, bool):
            if b:
                return "ok"
            r = self.check()
            return "ok" if r == z3.unsat else ("cex", self.solver.model() if r == z3.sat else None)
        if b.s is not None:
            s = self.norm(b.s)
            if s == 1:
                return "ok"
        r = self.check(z3.Not(b.z))
        if r == z3.unsat:
            return "ok"
        if r == z3.sat:
            return ("cex", self.solver.model())
        return "unknown"

    # -------------------------------------------------------------- machine integers
    def split(self, e, k):
        """e = 2^k*h + l with 0 <= l < 2^k (floor); returns (l, h)"""
        M = 1 << k
        if isinstance(e, int):
            return e % M, e >> k
        e = self.norm(e)
        if isinstance(e, int):
            return e % M, e >> k
        lo, hi = self.bounds(e)
        if (lo >> k) == (hi >> k):
            q = lo >> k
            return self.note(psub(e, q * M), 0, M - 1), q
        if not self.few and k >= 24 and hi >> k > 4 and self.prove(B(z3.And(self.zint(e) >= 0, self.zint(e) < M))) == "ok": return self.note(e, 0, M - 1), 0
        l, h = self.split0(e, k, M)
        self.note(l, 0, M - 1)
        self.note(h, lo >> k, hi >> k)
        return l, h

    def divpoly(self, x, y):
        """x = q y + r with 0 <= r < y, for a divisor that is one unknown; None when that is not plain to see"""
        v = pvars(y)
        if self.invs is None or isinstance(x, int) or len(v) != 1 or y.d != {tuple(v): 1}: return None
        v = next(iter(v))
        Q, R = {}, {}
        for m, c in x.d.items():
            if v in m:
                m = list(m); m.remove(v); Q[tuple(m)] = c
            else: R[m] = c
        q, r = mk(Q), mk(R)
        if self.prove(self.cmp(">=", r, 0)) == "ok" and self.prove(self.cmp("<", r, y)) == "ok": return q, r
        return None

    def divany(self, x, y):
        """x = q y + r with 0 <= r < y for an unknown divisor y >= 1 and x >= 0: q and r are new unknowns; None when it may be zero"""
        if self.bounds(y)[0] < 1 and self.prove(self.cmp(">=", y, 1)) != "ok" or self.bounds(x)[0] < 0: return None
        if self.divs[0] is not self.solver: self.divs = (self.solver, {})
        k = (x if isinstance(x, int) else x.key(), y.key())
        if k not in self.divs[1]:
            hi = self.bounds(x)[1] // max(1, self.bounds(y)[0])
            q = self.sym("q", 0, hi).e
            r = psub(x, pmul(q, y))
            self.assume(self.cmp(">=", r, 0))
            self.assume(self.cmp("<", r, y))
            self.divs[1][k] = (q, r)
        return self.divs[1][k]
    divs = (None, None)

    def cofactor(self, d):
        """d without the positive unknowns all its terms share: the same sign"""
        while not self.few and not isinstance(d, int):
            ms = list(d.d)
            v = next((v for v in ms[0] if self.syms.lo[v] >= 1 and all(v in m for m in ms)), None)
            if v is None: return d
            D = {}
            for m, c in d.d.items():
                m = list(m); m.remove(v); D[tuple(m)] = c
            d = mk(D)
        return d

    def split0(self, e, k, M):
        D, R = {}, {}
        for m, c in e.d.items():
            if m == () or c % M:
                R[m] = c
            else:
                D[m] = c // M
        if () in R and not (R[()] % M):
            D[()] = R.pop(()) // M
        D, R = mk(D), mk(R)
        if isinstance(R, int):
            return R % M, padd(D, R >> k)
        lo, hi = self.bounds(R)
        if (lo >> k) == (hi >> k):
            q = lo >> k
            return psub(R, q * M), padd(D, q)
        v = sorted(pvars(R))
        if len(v) == 1 and self.syms.lo[v[0]] == 0 and self.syms.hi[v[0]] == 1:
            a, b = peval(R, {v[0]: 0}), peval(R, {v[0]: 1})
            s = Poly.sym(v[0])
            return (padd(a % M, pscale(s, (b % M) - (a % M))),
                    padd(D, padd(a >> k, pscale(s, (b >> k) - (a >> k)))))
        # coefficients taken apart, when the low parts add up to less than M
        R2, D2 = mk({m: c % M for m, c in R.d.items()}), mk({m: c >> k for m, c in R.d.items()})
        if any(c >= M for c in R.d.values()):
            lo2, hi2 = (R2, R2) if isinstance(R2, int) else self.bounds(R2)
            if 0 <= lo2 and hi2 < M: return R2, padd(D, D2)
        key = (R.key(), k)
        if key not in self.splits:
            # can the solver decide the quotient on this path?
            q = self.quot(R, k, lo, hi)
            if q is not None:
                return psub(R, q * M), padd(D, q)
            h = self.sym(f"q{k}", lo >> k, hi >> k)
            i = next(iter(h.e.d))[0]
            self.splits[key] = h.e
            rem = psub(R, pscale(h.e, M))
            self.facts_of[i] = (lambda eng, rem=rem, M=M: z3.And(eng.zint(rem) >= 0, eng.zint(rem) < M),)
        else:
            q = self.quot(R, k, lo, hi)
            if q is not None:
                return psub(R, q * M), padd(D, q)
        h = self.splits[key]
        return psub(R, pscale(h, M)), padd(D, h)

    def quot(self, R, k, lo, hi):
        """the quotient, when the path condition pins it to one value"""
        if (hi >> k) - (lo >> k) > 4:
            return None
        M = 1 << k
        z = self.zint(R)
        cand = []
        for q in range(lo >> k, (hi >> k) + 1):
            if self.check(z >= q * M, z < (q + 1) * M) != z3.unsat:
                cand.append(q)
                if len(cand) > 1:
                    return None
        return cand[0] if cand else None

    def wrap(self, ty, e):
        if ty is None:
            return e
        b = BITS[ty]
        if isinstance(e, int):
            if signed(ty):
                h = 1 << (b - 1)
                return ((e + h) & ((1 << b) - 1)) - h
            return e & ((1 << b) - 1)
        lo, hi = self.bounds(e)
        tl, th = trange(ty)
        if lo >= tl and hi <= th:
            return e
        if signed(ty):
            h = 1 << (b - 1)
            return psub(self.split(padd(e, h), b)[0], h)
        return self.split(e, b)[0]

    def ity(self, a, b):
        if a.ty is None:
            return b.ty
        if b.ty is None or a.ty == b.ty:
            return a.ty
        raise Unsupported(f"integer types {a.ty}/{b.ty}")

    def cmp(self, op, a, b):
        """comparison of integer expressions"""
        (al, ah), (bl, bh) = self.bounds(self.norm(a)), self.bounds(self.norm(b))
        d0 = self.norm(psub(a, b))
        d = self.cofactor(d0)
        lo, hi = self.bounds(d)
        if d is d0: lo, hi = max(lo, al - bh), min(hi, ah - bl)
        if op == "==":
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            v = sorted(pvars(d))
            if len(v) == 1 and self.syms.lo[v[0]] == 0 and self.syms.hi[v[0]] == 1:
                p, q = peval(d, {v[0]: 0}) == 0, peval(d, {v[0]: 1}) == 0
                if p == q:
                    return p
                s = Poly.sym(v[0]) if q else psub(1, Poly.sym(v[0]))
                self.zmono((v[0],))
                return B(self.zint(d) == 0, s)
            a, b = self.norm(a), self.norm(b)
            k = (True, a, b) if isinstance(b, int) else (True, b, a) if isinstance(a, int) else None
            return B(self.zint(d) == 0, None, k)
        if op == "!=":
            return self.bnot(self.cmp("==", a, b))
        if op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
            v = sorted(pvars(d))
            if len(v) == 1 and self.syms.lo[v[0]] == 0 and self.syms.hi[v[0]] == 1:
                p, q = peval(d, {v[0]: 0}) < 0, peval(d, {v[0]: 1}) < 0
                if p == q:
                    return p
                return B(self.zint(d) < 0, Poly.sym(v[0]) if q else psub(1, Poly.sym(v[0])))
            return B(self.zint(d) < 0)
        if op == "<=":
            return self.bnot(self.cmp("<", b, a))
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            return self.bnot(self.cmp("<", a, b))
        raise Unsupported(op)

    def b2i(self, b, ty):
        if isinstance(b, bool):
            return I(ty, int(b))
        if b.s is not None:
            return I(ty, self.norm(b.s))
        # key on the z3 term so that re-execution gives the same symbol
        key = ("b2i", b.z.get_id())
        if key not in self.splits:
            h = self.sym("bit", 0, 1)
            i = next(iter(h.e.d))[0]
            self.splits[key] = h.e
            zb = b.z
            self.facts_of[i] = (lambda eng, i=i, zb=zb: (eng.zs[i] == 1) == zb,)
        return I(ty, self.splits[key])

    def conc(self, v, what="value"):
        """a concrete Python int, forking over small ranges"""
        if isinstance(v, I):
            e = self.norm(v.e)
            if isinstance(e, int):
                return e
            lo, hi = self.bounds(e)
            if hi - lo <= 256:
                for k in range(lo, hi):
                    if self.decide(self.cmp("==", e, k)):
                        return k
                self.assume(self.cmp("==", e, hi))
                return hi
            # few values left on this path?
            for _ in range(300):
                pos = self.dpos
                if pos < len(self.trace): x = self.cval[pos]
                else:
                    if self.check() != z3.sat: raise Unsupported(f"symbolic {what}")
                    x = self.solver.model().eval(self.zint(e), model_completion=True).as_long()
                    self.cval[pos] = x
                if self.decide(self.cmp("==", e, x)): return x
        raise Unsupported(f"symbolic {what}")

    def only(self, e):
        """the one value e has on this path, or e"""
        e = self.norm(e)
        if isinstance(e, int) or self.check() != z3.sat: return e
        x = self.solver.model().eval(self.zint(e), model_completion=True).as_long()
        return x if self.prove(self.cmp("==", e, x)) == "ok" else e

    def single01(self, e):
        v = sorted(pvars(e))
        if len(v) == 1 and self.syms.lo[v[0]] == 0 and self.syms.hi[v[0]] == 1:
            return v[0]
        return None

    def bitop(self, op, a, b):
        if isinstance(a, Ite):
            return self.ite(a.s, self.bitop(op, a.a, b), self.bitop(op, a.b, b))
        if isinstance(b, Ite):
            return self.ite(b.s, self.bitop(op, a, b.a), self.bitop(op, a, b.b))
        if isinstance(a, I) and isinstance(b, I):
            return self.bitop_i(op, a, b)
        # opaque words
        ty = "u64"
        def const(x): return x.e if isinstance(x, I) and isinstance(self.norm(x.e), int) else None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, I):
                e = self.norm(x.e)
                s = self.single01(e) if not isinstance(e, int) else None
                if s is not None:
                    return self.ite(Poly.sym(s), self.bitop(op, I(ty, peval(e, {s: 1})), y),
                                    self.bitop(op, I(ty, peval(e, {s: 0})), y))
                if isinstance(e, int):
                    if op == "&":
                        if e == 0: return I(ty, 0)
                        if e == (1 << 64) - 1: return y
                    if op in ("^", "|") and e == 0: return y
        if op == "^":
            ka = a.k if isinstance(a, Xor) else {vkey(a): a}
            kb = b.k if isinstance(b, Xor) else {vkey(b): b}
            k = dict(ka)
            for x, v in kb.items():
                if x in k: del k[x]
                else: k[x] = v
            if not k: return I(ty, 0)
            if len(k) == 1: return next(iter(k.values()))
            return Xor(k)
        raise Unsupported(f"bit operation {op} on opaque words")

    def ite(self, s, a, b):
        """value a if s=1 else b"""
        if isinstance(s, int):
            return a if s == 1 else b
        if isinstance(a, (Raw, Xor, Ite)) or isinstance(b, (Raw, Xor, Ite)):
            try:
                if vkey(a) == vkey(b):
                    return a
            except Unsupported:
                pass
            return Ite(s, a, b)
        return self.merge(s, a, b)

    def merge(self, s, a, b):
        if a is b:
            return a
        if isinstance(a, I) and isinstance(b, I) and (a.ty == b.ty or None in (a.ty, b.ty)):
            d = psub(a.e, b.e)
            return I(a.ty or b.ty, padd(b.e, pmul(s, d)))
        if isinstance(a, PW) and isinstance(b, PW) and a.ty == b.ty:
            return PW(a.ty, padd(b.e, pmul(s, psub(a.e, b.e))))
        if isinstance(a, Raw) and isinstance(b, Raw) and a.p == b.p:
            return Raw(self.merge(s, a.v, b.v), a.p)
        if type(a) is type(b):
            if isinstance(a, T) and len(a.e) == len(b.e):
                return T([self.merge(s, x, y) for x, y in zip(a.e, b.e)])
            if isinstance(a, V) and len(a.e) == len(b.e):
                return V([self.merge(s, x, y) for x, y in zip(a.e, b.e)], a.ty)
            if isinstance(a, St) and a.n == b.n:
                return St(a.n, {k: self.merge(s, a.f[k], b.f[k]) for k in a.f})
            if isinstance(a, Ref) and a.c is b.c and a.p == b.p:
                return a
        if vkey(a) == vkey(b):
            return a
        raise Unsupported("merge")

    def bitop_i(self, op, a, b):
        ty = self.ity(a, b)
        x, y = self.norm(a.e), self.norm(b.e)
        if isinstance(x, int) and isinstance(y, int):
            return I(ty, {"&": x & y, "|": x | y, "^": x ^ y}[op])
        if isinstance(x, int):
            x, y = y, x
        if not isinstance(y, int):
            for p, q in ((x, y), (y, x)):
                s = self.single01(p)
                if s is not None:
                    r1 = self.bitop_i(op, I(ty, peval(p, {s: 1})), I(ty, q))
                    r0 = self.bitop_i(op, I(ty, peval(p, {s: 0})), I(ty, q))
                    return self.merge(Poly.sym(s), r1, r0)
        if isinstance(y, int):
            if op == "&":
                if ty and signed(ty) and y < 0: raise Unsupported("signed mask")
                if y == 0: return I(ty, 0)
                # runs of ones
                out, k = 0, 0
                while y >> k:
                    if (y >> k) & 1:
                        j = k
                        while (y >> j) & 1: j += 1
                        w = self.split(x, k)[1]
                        w = self.split(w, j - k)[0] if not (ty and not signed(ty) and j >= BITS[ty]) else w
                        out = padd(out, pscale(w, 1 << k))
                        k = j
                    else:
                        k += 1
                return I(ty, out)
            if y == 0: return I(ty, x)
            if op == "^" and ty and not signed(ty) and y == (1 << BITS[ty]) - 1:
                return I(ty, psub(y, x))
            # x | y = x + y - (x & y);  x ^ y = x + y - 2(x & y)
            a_ = self.bitop_i("&", I(ty, x), I(ty, y)).e
            return I(ty, psub(padd(x, y), pscale(a_, 1 if op == "|" else 2)))
        # disjoint bits
        for p, q in ((x, y), (y, x)):
            lo, hi = self.bounds(p)
            if lo >= 0:
                k = hi.bit_length()
                if not isinstance(q, int):
                    l, h = self.split(q, k) if all(c % (1 << k) == 0 for c in q.d.values()) else (None, None)
                    if l == 0:
                        if op in ("|", "^"): return I(ty, padd(x, y))
                        return I(ty, 0)
        if not isinstance(x, int) and not isinstance(y, int):
            m, n = self.bitmask(x), self.bitmask(y)
            if m is not None and n is not None and not m & n:
                return I(ty, padd(x, y) if op in ("|", "^") else 0)
        raise Unsupported(f"bit operation {op}")

    def bitmask(self, p):
        """the bits a sum of terms with no common bits can have; None if they may overlap"""
        m = 0
        for mono, c in p.d.items():
            lo, hi = (1, 1) if not mono else self.bounds(Poly({mono: 1}))
            if c < 0 or lo < 0: return None
            b = (1 << (c * hi).bit_length()) - (c & -c)
            if m & b: return None
            m |= b
        return m

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, B) or isinstance(b, B) or isinstance(a, bool):
            if op in ("==", "!="):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) == (op == "==")
                za = a.z if isinstance(a, B) else z3.BoolVal(a)
                zb = b.z if isinstance(b, B) else z3.BoolVal(b)
                r = B(za == zb)
                return r if op == "==" else self.bnot(r)
            if op in ("&", "|", "^"):
                if op == "&": return self.band(a, lambda: b)
                if op == "|": return self.bor(a, lambda: b)
                if isinstance(a, bool): return self.bnot(b) if a else b
                if isinstance(b, bool): return self.bnot(a) if b else a
                return B(z3.Xor(a.z, b.z))
            raise Unsupported(f"bool {op}")
        if op in ("&", "|", "^") and (isinstance(a, (Raw, Ite, Xor, Op)) or isinstance(b, (Raw, Ite, Xor, Op))):
            return self.bitop(op, a, b)
        if isinstance(a, I) and isinstance(b, I):
            if op in ("<<", ">>"):
                x = self.norm(a.e)
                k = self.conc(b, "shift amount")
                bits = BITS[a.ty] if a.ty else 4096
                k &= bits - 1 if a.ty else 4095
                if op == "<<":
                    return I(a.ty, self.wrap(a.ty, pscale(x, 1 << k)))
                return I(a.ty, self.split(x, k)[1])
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return self.cmp(op, a.e, b.e)
            ty = self.ity(a, b)
            if op in ("+", "-", "*"): return I(ty, self.wrap(ty, self.arith(op, a, b)))
            if op in ("&", "|", "^"): return self.bitop_i(op, a, b)
            if op in ("/", "%"):
                x, y = self.norm(a.e), self.norm(b.e)
                if not isinstance(y, int):
                    r = self.divpoly(x, y)
                    if not r and self.invs is not None: r = self.divany(x, y)
                    if r: return I(ty, r[0] if op == "/" else r[1])
                    y = self.conc(b, "divisor")
                if y == 0: raise Panic("division by zero")
                if isinstance(x, int):
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return I(ty, q if op == "/" else x - q * y)
                lo, hi = self.bounds(x)
                if y > 0 and lo >= 0:
                    l, h = self.divc(x, y)
                    return I(ty, h if op == "/" else l)
            raise Unsupported(f"{op} on symbolic integers")
        ta, tb = self.tyof(a), self.tyof(b)
        for t in (ta, tb):
            c = self.contracts.get(t)
            if c:
                r = c.binop(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if op in ("==", "!="):
            r = self.eq(a, b)
            return r if op == "==" else self.bnot(r)
        if op in ("<", "<=", ">", ">="):
            o = self.order(a, b)
            return {"<": o == "Less", ">": o == "Greater", "<=": o != "Greater", ">=": o != "Less"}[op]
        name = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "bitand", "|": "bitor", "^": "bitxor", "<<": "shl", ">>": "shr"}[op]
        trait = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}[name]
        f = self.find_method(ta, name, [a, b], trait=trait)
        if f:
            return self.call_fn(f, [a, b])
        raise Unsupported(f"{ta} {op} {tb}")

    def divc(self, x, y):
        """(x mod y, x div y) for x >= 0, constant y > 0"""
        if y & (y - 1) == 0:
            return self.split(x, y.bit_length() - 1)
        D, R = {}, {}
        for m, c in x.d.items():
            if c % y: R[m] = c
            else: D[m] = c // y
        D, R = mk(D), mk(R)
        if isinstance(R, int): return R % y, padd(D, R // y)
        lo, hi = self.bounds(R)
        if lo // y == hi // y:
            return psub(R, (lo // y) * y), padd(D, lo // y)
        key = ("div", R.key(), y)
        if key not in self.splits:
            h = self.sym("d", lo // y, hi // y)
            i = next(iter(h.e.d))[0]
            self.splits[key] = h.e
            rem = psub(R, pscale(h.e, y))
            self.facts_of[i] = (lambda eng, rem=rem: z3.And(eng.zint(rem) >= 0, eng.zint(rem) < y),)
        h = self.splits[key]
        return psub(R, pscale(h, y)), padd(D, h)

    def band(self, a, bf):
        if isinstance(a, bool):
            return bf() if a else False
        # evaluate the right side under a
        if self.decide(a):
            return bf()
        return False

    def bor(self, a, bf):
        if isinstance(a, bool):
            return True if a else bf()
        if self.decide(a):
            return True
        return bf()

    # -------------------------------------------------------------- equality and order of values
    def eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, I) and isinstance(b, I):
            return self.cmp("==", a.e, b.e)
        ta = self.tyof(a)
        c = self.contracts.get(ta)
        if c:
            r = c.binop(self, "==", a, b)
            if r is not NotImplemented: return r
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            return self.binop("==", a, b)
        if isinstance(a, Str) and isinstance(b, Str):
            if "<fmt>" in (a.v, b.v): raise Unsupported("comparison of formatted text")
            return a.v == b.v
        if isinstance(a, En) and isinstance(b, En):
            if a.v != b.v or len(a.a) != len(b.a): return False
            return self.eqall(zip(a.a, b.a))
        if isinstance(a, T) and isinstance(b, T):
            return self.eqall(zip(a.e, b.e))
        if isinstance(a, (V, seq.SQ)) and isinstance(b, (V, seq.SQ)) and type(a) is not type(b):
            if not self.decide(self.cmp("==", seq.seqlen(self, a), seq.seqlen(self, b))): return False
            return self.eqall((seq.elem(self, a, k), seq.elem(self, b, k)) for k in range(len((a if isinstance(a, V) else b).e)))
        if isinstance(a, V) and isinstance(b, V):
            if len(a.e) != len(b.e): return False
            return self.eqall(zip(a.e, b.e))
        if isinstance(a, St) and isinstance(b, St):
            f = self.find_method(a.n, "eq", [a, b], trait="PartialEq")
            if f:
                return self.call_fn(f, [Ref(Cell(a)), Ref(Cell(b))])
            if a.n == b.n:
                return self.eqall([(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, (Op, Xor)) and isinstance(b, (Op, Xor)):
            if vkey(a) == vkey(b): return True
            return B(z3.Bool(f"eq_{hash((vkey(a), vkey(b))) & 0xffffffffffff:x}"))
        raise Unsupported(f"== on {ta}/{self.tyof(b)}")

    def eqall(self, it):
        for x, y in it:
            if not self.decide(self.eq(x, y)):
                return False
        return True

    def order(self, a, b):
        """'Less' | 'Equal' | 'Greater', forking"""
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, I) and isinstance(b, I):
            if self.decide(self.cmp("<", a.e, b.e)): return "Less"
            if self.decide(self.cmp("==", a.e, b.e)): return "Equal"
            return "Greater"
        c = self.contracts.get(self.tyof(a))
        if c:
            r = c.order(self, a, b)
            if r is not NotImplemented: return r
        if isinstance(a, St):
            for nm, tr in (("cmp", "Ord"), ("partial_cmp", "PartialOrd")):
                f = self.find_method(a.n, nm, [a, b], trait=tr)
                if f:
                    r = self.call_fn(f, [Ref(Cell(a)), Ref(Cell(b))])
                    if r.v == "Some": r = r.a[0]
                    return r.v
        if isinstance(a, (V, T)) and type(a) is type(b):
            for x, y in zip(a.e, b.e):
                o = self.order(x, y)
                if o != "Equal": return o
            return "Equal" if len(a.e) == len(b.e) else ("Less" if len(a.e) < len(b.e) else "Greater")
        raise Unsupported(f"order on {self.tyof(a)}")

    # -------------------------------------------------------------- places
    def load(self, c, p):
        v = c.v
        for i, s in enumerate(p):
            v = self.step(v, s)
        return v

    def step(self, v, s):
        while isinstance(v, Ref):
            v = self.load(v.c, v.p)
        k = s[0]
        if k == "f":
            if isinstance(v, St):
                if s[1] in v.f: return v.f[s[1]]
                raise Unsupported(f"field {s[1]} of {v.n}")
            if isinstance(v, T): return v.e[int(s[1])]
        elif k == "i":
            if isinstance(v, V): return v.e[s[1]] if isinstance(s[1], int) else seq.elem(self, v, s[1])
            if isinstance(v, seq.SQ): return v.read(self, s[1])
            if isinstance(v, Raw): return Raw(v.v, v.p + (s,))
        elif k == "s":
            if isinstance(v, V) and isinstance(s[1], int) and isinstance(s[2], int): return V(v.e[s[1]:s[2]], v.ty)
            if isinstance(v, (V, seq.SQ)): return seq.slice_view(self, v, s[1], s[2])
        elif k == "a":
            if isinstance(v, En): return v.a[s[1]]
        c = self.contracts.get(self.tyof(v))
        if c: return c.step(self, v, s)
        if isinstance(v, Raw): return Raw(v.v, v.p + (s,))
        raise Unsupported(f"project {s} of {type(v).__name__}")

    def upd(self, v, p, x):
        if not p:
            return x
        s, rest = p[0], p[1:]
        k = s[0]
        if isinstance(v, Ref):
            self.store(v.c, v.p + tuple(p), x)
            return v
        if k == "f" and isinstance(v, St):
            d = dict(v.f); d[s[1]] = self.upd(v.f[s[1]], rest, x)
            return St(v.n, d)
        if k == "f" and isinstance(v, T):
            e = list(v.e); e[int(s[1])] = self.upd(e[int(s[1])], rest, x)
            return T(e)
        if k == "i" and isinstance(v, seq.SQ):
            return seq.SQ(v.n, v.f, v.w + ((s[1], self.upd(v.read(self, s[1]), rest, x) if rest else x),), v.ty)
        if k == "s" and (isinstance(v, seq.SQ) or isinstance(v, V) and not (isinstance(s[1], int) and isinstance(s[2], int))):
            y = seq.slice_view(self, v, s[1], s[2])
            return seq.slice_put(self, v, s[1], s[2], self.upd(y, rest, x) if rest else x)
        if k == "i" and isinstance(v, V):
            e = list(v.e); e[s[1]] = self.upd(e[s[1]], rest, x)
            return V(e, v.ty)
        if k == "s" and isinstance(v, V):
            e = list(v.e)
            sub = self.upd(V(e[s[1]:s[2]], v.ty), rest, x)
            if len(sub.e) != s[2] - s[1]: raise Unsupported("slice resized")
            e[s[1]:s[2]] = sub.e
            return V(e, v.ty)
        if k == "a" and isinstance(v, En):
            e = list(v.a); e[s[1]] = self.upd(e[s[1]], rest, x)
            return En(v.n, v.v, e)
        c = self.contracts.get(self.tyof(v))
        if c: return c.upd(self, v, p, x)
        raise Unsupported(f"update {s} of {type(v).__name__}")

    invs = None         # candidate loop invariants (seq.py); None: no loop is cut
    wlog = None         # cells written, while a loop body is being cut
    cursc = None

    def store(self, c, p, x):
        if self.wlog is not None: self.wlog.append((c, p))
        # long vectors: update in place when the path is a single index (no sharing of V across cells is
        # assumed elsewhere, so copy)
        old = c.v
        new = self.upd(old, tuple(p), x)
        if new is not old:
            if self.trail is not None:
                self.trail.append((c, old))
            c.v = new

    def deref(self, v):
        while isinstance(v, Ref):
            v = self.load(v.c, v.p)
        return v

    # -------------------------------------------------------------- types
    def tyof(self, v):
        if isinstance(v, I): return v.ty or "int"
        if isinstance(v, (bool, B)): return "bool"
        if isinstance(v, St): return v.n
        if isinstance(v, FV): return v.F.name
        if isinstance(v, En): return v.n
        if isinstance(v, (V, seq.SQ)): return "Vec"
        if isinstance(v, seq.AM): return "HashMap"
        if isinstance(v, T): return "tuple"
        if isinstance(v, (PW, Op)): return v.ty
        if isinstance(v, Raw): return "raw"
        if isinstance(v, Str): return "str"
        return getattr(v, "ty", None) or type(v).__name__

    def rty(self, t, fr):
        """syntax type -> TyRef"""
        if t is None: return TyRef("()")
        k = t["k"]
        if k == "path":
            if t.get("q"):
                # <T as Trait>::Assoc
                base = self.rty(t["q"]["ty"], fr)
                return TyRef(self.assoc(base.n, t["p"][-1]["n"]) or t["p"][-1]["n"])
            p = t["p"]
            n = p[-1]["n"]
            if len(p) == 1:
                if n in fr.tenv: return fr.tenv[n] if isinstance(fr.tenv[n], TyRef) else TyRef(str(fr.tenv[n]))
                if n in BITS or n in ("bool", "str", "char", "f64"): return TyRef(n)
            if len(p) == 2 and p[0]["n"] in fr.tenv:
                base = fr.tenv[p[0]["n"]]
                a = self.assoc(base.n, n)
                if a: return TyRef(a)
            args = [self.rty(x, fr) for x in p[-1]["a"] if x.get("k") != "constexpr"]
            nm = self.P.tyname(fr.mod, p)
            short = nm.split("::")[-1]
            if short in ("Vec", "VecDeque", "Option", "Result", "Box", "String", "Rc", "Arc", "HashMap", "BTreeMap"): nm = short
            if nm == "Box" and args: return args[0]
            return TyRef(nm, args)
        if k == "ref": return self.rty(t["t"], fr)
        if k == "tuple": return TyRef("tuple", [self.rty(x, fr) for x in t["e"]]) if t["e"] else TyRef("()")
        if k == "array": return TyRef("array", [self.rty(t["t"], fr)], (t["len"], fr))
        if k == "slice": return TyRef("Vec", [self.rty(t["t"], fr)])
        return TyRef(k)

    def assoc(self, tn, name):
        c = self.contracts.get(tn)
        if c and name in getattr(c, "assoc", {}): return c.assoc[name]
        for m, im in self.P.impls.get(tn, []):
            for it in im["items"]:
                if it and it.get("k") == "type" and it["n"] == name:
                    return self.rty(it["t"], Frame(m, {"Self": TyRef(tn)})).n
        return None

    def adopt(self, v, ty):
        """give untyped literals the type they are stored at"""
        if ty is None: return v
        if isinstance(v, I) and v.ty is None and ty.n in BITS:
            return I(ty.n, self.wrap(ty.n, v.e))
        if isinstance(v, V) and ty.n in ("Vec", "array") and ty.a and v.e and isinstance(v.e[0], I) and any(x.ty is None for x in v.e if isinstance(x, I)):
            return V([self.adopt(x, ty.a[0]) for x in v.e], ty.a[0].n)
        if isinstance(v, T) and ty.n == "tuple" and len(ty.a) == len(v.e):
            return T([self.adopt(x, t) for x, t in zip(v.e, ty.a)])
        if isinstance(v, En) and ty.n in ("Option", "Result") and v.a and ty.a and v.v in ("Some", "Ok"):
            return En(v.n, v.v, (self.adopt(v.a[0], ty.a[0]),))
        if isinstance(v, V) and ty.n in ("Vec", "array") and ty.a and ty.a[0].n in ("Vec", "array") and v.e:
            return V([self.adopt(x, ty.a[0]) for x in v.e], v.ty)
        if isinstance(v, Ref) and not v.p and isinstance(v.c.v, I) and v.c.v.ty is None and ty.n in BITS:
            v.c.v = I(ty.n, self.wrap(ty.n, v.c.v.e))
        elif isinstance(v, Ref) and v.p:
            x = self.load(v.c, v.p)
            if isinstance(x, I) and x.ty is None and ty.n in BITS:
                self.store(v.c, v.p, I(ty.n, self.wrap(ty.n, x.e)))
        return v

    # -------------------------------------------------------------- functions
    def find_method(self, tn, name, args, trait=None, hint=None):
        """(module, impl, fn, Self type) for a method of type tn"""
        cand = []
        for m, im in self.P.impls.get(tn, []):
            for it in im["items"]:
                if it and it.get("k") == "fn" and it["n"] == name:
                    t = im.get("trait")
                    if trait and (not t or t[-1]["n"] != trait): continue
                    cand.append((m, im, it))
        if len(cand) > 1 and not trait:
            inh = [c for c in cand if not c[1].get("trait")]
            if inh: cand = inh
        if len(cand) > 1 and args:
            good = []
            for m, im, it in cand:
                ok = True
                ps = [a for a in it["args"]]
                for a, p in zip(args, ps):
                    if p["k"] == "self": continue
                    t = p["t"]
                    want = self.rty(t, Frame(m, {"Self": TyRef(tn)}))
                    isref = t["k"] == "ref"
                    if isref != isinstance(a, Ref): ok = ok and (not isref and False or isref and False or False) if isinstance(a, Ref) != isref else ok
                    have = self.tyof(self.deref(a))
                    if want.n != have and not (have == "int" and want.n in BITS) and not (want.n == "array" and have == "Vec"):
                        ok = False
                if ok: good.append((m, im, it))
            if len(good) > 1:
                # untyped literal: Rust falls back to i32
                g2 = [g for g in good if any(p["k"] == "arg" and self.rty(p["t"], Frame(g[0], {})).n == "i32" for p in g[2]["args"])]
                if g2 and any(self.tyof(self.deref(a)) == "int" for a in args): good = g2
            if good: cand = good
        if cand:
            m, im, it = cand[0]
            return (m, im, it, tn)
        # default methods of the traits implemented for tn
        for m, im in self.P.impls.get(tn, []):
            t = im.get("trait")
            if not t: continue
            r = self.P.find(m, [s["n"] for s in t], "traits")
            if not r:
                r = next(((mm, mm.traits[t[-1]["n"]]) for mm in self.P.mods.values() if t[-1]["n"] in mm.traits), None)
            if r:
                mm, tr = r
                for it in tr["items"]:
                    if it.get("k") == "fn" and it["n"] == name and it.get("body") is not None:
                        return (mm, im, it, tn)
        return None

    def unify(self, t, v, tenv, names, fr):
        """bind generic names from an argument"""
        if t is None: return
        k = t["k"]
        if k == "ref": return self.unify(t["t"], self.deref(v), tenv, names, fr)
        v = self.deref(v)
        if k == "path" and not t.get("q"):
            p = t["p"]
            if len(p) == 1 and p[0]["n"] in names and p[0]["n"] not in tenv:
                if isinstance(v, V):
                    tenv[p[0]["n"]] = TyRef("Vec", [TyRef(self.tyof(v.e[0]))] if v.e else ())
                else:
                    tenv[p[0]["n"]] = TyRef(self.tyof(v))
            elif p[-1]["a"] and isinstance(v, V) and v.e and p[-1]["n"] == "Vec":
                self.unify(p[-1]["a"][0], v.e[0], tenv, names, fr)
            elif p[-1]["a"] and isinstance(v, En) and v.a:
                self.unify(p[-1]["a"][0], v.a[0], tenv, names, fr)
        elif k in ("slice", "array") and isinstance(v, V) and v.e:
            self.unify(t["t"], v.e[0], tenv, names, fr)
        elif k == "tuple" and isinstance(v, T):
            for x, y in zip(t["e"], v.e): self.unify(x, y, tenv, names, fr)

    recpost = tmake = cutall = None
    chunks = chunklog = (None, None)
    few = 8             # loops of at most so many iterations are unrolled
    counts = ()
    recset = frozenset()

    def _reccall(self, k, st, f, a, targs, tenv0, loc):
        self.recact[k] = st
        try: return self.call_fn(f, a, targs, tenv0, loc, True)
        finally: self.recact.pop(k, None)

    def call_fn(self, f, args, targs=None, tenv0=None, loc=None, recin=False):
        """f: (module, impl or None, fn item, Self type or None)"""
        m, im, fn, selfty = f
        name = fn["n"]
        owner = selfty or m.name
        h = self.fncontracts.get((owner, name))
        if h:
            self.used_contracts.add(f"{owner}::{name}")
            r = h(self, args)
            if r is not NotImplemented: return r
        if fn.get("body") is None:
            raise Unsupported(f"{owner}::{name} has no body")
        self.stat["fns"][f"{owner}::{name}"] = (m.file, fn.get("ln"))
        tenv = dict(tenv0 or {})
        if selfty: tenv["Self"] = TyRef(selfty)
        tenv.update(self.tdefaults.get(selfty, {}))
        names = [g["n"] for g in fn["gen"]["names"] if g["k"] != "lt"]
        if im: names += [g["n"] for g in im["gen"]["names"] if g["k"] != "lt"]
        fnames = [g["n"] for g in fn["gen"]["names"] if g["k"] != "lt"]
        for g, a in zip(fnames, targs or []):
            tenv[g] = a
        fr = Frame(m, tenv)
        for a, p in zip(args, [x for x in fn["args"]]):
            if p["k"] == "arg":
                try: self.unify(p["t"], a, tenv, names, fr)
                except Unsupported: pass
        fr.ret = fn["ret"]
        sc = Scope()
        if loc: sc.d.update(loc)
        if len(args) != len(fn["args"]): raise Unsupported(f"arity of {name}")
        for a, p in zip(args, fn["args"]):
            if p["k"] == "self":
                if not p["ref"]:
                    a = self.deref(a)
                elif not isinstance(a, Ref):
                    a = Ref(Cell(a))
                sc.d["self"] = Cell(a)
            else:
                a = self.adopt(a, self.rty(p["t"], fr))
                if p["t"]["k"] == "ref" and not isinstance(a, Ref): a = Ref(Cell(a))
                if not self.bind(p["p"], a, sc, fr): raise Unsupported("refutable argument")
        if self.recpost and not recin:
            k = (name, id(fn))
            r = seq.rec(self, k, args, lambda a, st: self._reccall(k, st, f, a, targs, tenv0, loc))
            if r is not None: return r
            if k not in self.recact:
                self.recact[k] = None
                try: return self.call_fn(f, args, targs, tenv0, loc, True)
                finally: self.recact.pop(k, None)
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 400:
            self.depth = 0
            raise Unsupported("recursion depth")
        try:
            v = self.block(fn["body"], sc, fr, hint=fn["ret"])
        except Ret as r:
            v = r.v
        finally:
            self.depth -= 1
        if fn["ret"]:
            v = self.adopt(v, self.rty(fn["ret"], fr))
        return v

    def call_val(self, f, args):
        if isinstance(f, Ref): f = self.deref(f)
        if isinstance(f, PyFn): return f.f(*args)
        if isinstance(f, Clo):
            sc = Scope(f.env)
            if len(args) != len(f.params): raise Unsupported("closure arity")
            for p, a in zip(f.params, args):
                if not self.bind(p, a, sc, f.fr): raise Unsupported("closure pattern")
            try:
                return self.ev(f.body, sc, Frame(f.fr.mod, f.fr.tenv, None))
            except Ret as r:
                return r.v
        if isinstance(f, FnV):
            return self.call_path(f.segs, f.segs_q, args, Scope(), f.fr)
        raise Unsupported(f"call of {type(f).__name__}")

    # -------------------------------------------------------------- patterns
    def bind(self, p, v, sc, fr):
        """binds pattern; returns python bool (forking when symbolic)"""
        k = p["k"]
        if k == "id":
            n = p["n"]
            if not p.get("sub"):
                # a constant or unit variant?
                if n[:1].isupper():
                    if n == "None": return isinstance(self.deref(v), En) and self.deref(v).v == "None"
                    r = self.P.find(fr.mod, [n], "consts")
                    if r:
                        return self.decide(self.eq(self.deref(v), self.const(r[0], r[1], fr)))
                    d = self.deref(v)
                    if isinstance(d, En) and d.v == n and not d.a: return True
                    if isinstance(d, En) and n in ("Less", "Equal", "Greater"): return False
            if p.get("r") and not isinstance(v, Ref):
                v = Ref(Cell(v))
            sc.d[n] = Cell(v)
            return self.bind(p["sub"], v, sc, fr) if p.get("sub") else True
        if k == "wild" or k == "rest": return True
        if k == "typed":
            v = self.adopt(v, self.rty(p["t"], fr))
            return self.bind(p["p"], v, sc, fr)
        if k == "ref": return self.bind(p["p"], self.deref(v), sc, fr)
        if k == "or":
            return any(self.bind(c, v, sc, fr) for c in p["c"])
        if k == "lit":
            x = self.lit(p["e"])
            return self.decide(self.eq(self.deref(v), x))
        if k == "range":
            x = self.deref(v)
            if p["lo"] is not None:
                if not self.decide(self.binop(">=", x, self.ev(p["lo"], Scope(), fr))): return False
            if p["hi"] is not None:
                if not self.decide(self.binop("<=" if p["incl"] else "<", x, self.ev(p["hi"], Scope(), fr))): return False
            return True
        if k == "un": raise Unsupported("pattern")
        base = v if isinstance(v, Ref) else None
        if base is not None:
            # flatten ref to ref
            while True:
                x = self.load(base.c, base.p)
                if isinstance(x, Ref): base = x
                else: break
            v = x

        def sub(step, val):
            return Ref(base.c, base.p + (step,)) if base is not None else val
        if k == "tuple":
            es = p["e"]
            if not isinstance(v, T): raise Unsupported("tuple pattern")
            ri = next((i for i, x in enumerate(es) if x["k"] == "rest"), None)
            if ri is not None:
                tail = len(es) - ri - 1
                idx = list(range(ri)) + list(range(len(v.e) - tail, len(v.e)))
                es = es[:ri] + es[ri + 1:]
            else:
                idx = list(range(len(v.e)))
            return all(self.bind(q, sub(("f", str(i)), v.e[i]), sc, fr) for q, i in zip(es, idx))
        if k == "ts":
            n = p["p"][-1]["n"]
            if isinstance(v, En):
                if v.v != n: return False
                return all(self.bind(q, sub(("a", i), v.a[i]), sc, fr) for i, q in enumerate(p["e"]) if q["k"] != "rest")
            if isinstance(v, St):
                return all(self.bind(q, sub(("f", str(i)), v.f[str(i)]), sc, fr) for i, q in enumerate(p["e"]) if q["k"] != "rest")
            raise Unsupported(f"pattern {n}")
        if k == "path":
            n = p["p"][-1]["n"]
            if isinstance(v, En): return v.v == n
            r = self.P.find(fr.mod, [s["n"] for s in p["p"]], "consts")
            if r: return self.decide(self.eq(v, self.const(r[0], r[1], fr)))
            raise Unsupported(f"pattern {n}")
        if k == "st":
            if isinstance(v, St):
                return all(self.bind(q["p"], sub(("f", q["n"]), v.f[q["n"]]), sc, fr) for q in p["f"])
            raise Unsupported("struct pattern")
        if k == "slice":
            if not isinstance(v, V): raise Unsupported("slice pattern")
            es = p["e"]
            if any(x["k"] == "rest" for x in es): raise Unsupported("rest in slice pattern")
            if len(es) != len(v.e): return False
            return all(self.bind(q, sub(("i", i), v.e[i]), sc, fr) for i, q in enumerate(es))
        raise Unsupported(f"pattern {k}")

    # -------------------------------------------------------------- statements
    def block(self, stmts, sc0, fr, hint=None):
        sc = Scope(sc0)
        out = UNIT
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            k = s["k"]
            if k == "let":
                if s["e"] is None:
                    self.declare(s["p"], sc)
                    continue
                ty = self.rty(s["p"]["t"], fr) if s["p"]["k"] == "typed" else None
                v = self.ev(s["e"], sc, fr, hint=ty)
                if self.letover and s["e"]["k"] == "lit":
                    pt = s["p"]["p"] if s["p"]["k"] == "typed" else s["p"]
                    if pt["k"] == "id" and pt["n"] in self.letover: v = I(v.ty, self.letover[pt["n"]])
                if s.get("else") is not None:
                    if not self.bind(s["p"], v, sc, fr):
                        self.ev(s["else"], sc, fr)
                        raise Unsupported("let-else fell through")
                elif not self.bind(s["p"], v, sc, fr):
                    raise Unsupported("refutable let")
                out = UNIT
            elif k == "expr":
                h = None
                if last and not s["semi"] and hint is not None:
                    h = hint if isinstance(hint, TyRef) else self.rty(hint, fr)
                out = self.ev(s["e"], sc, fr, hint=h)
                if s["semi"]: out = UNIT
            elif k == "item":
                it = s["i"]
                if it and it["k"] == "const":
                    sc.d[it["n"]] = Cell(self.adopt(self.ev(it["e"], sc, fr), self.rty(it["t"], fr)))
                elif it and it["k"] == "use": pass
                elif it and it["k"] == "fn":
                    fn = it
                    loc = {k: c for k, c in sc.d.items() if isinstance(c.v, PyFn)}
                    sc.d[it["n"]] = loc[it["n"]] = Cell(PyFn(lambda *a, fn=fn, loc=loc: self.call_fn((fr.mod, None, fn, None), list(a), tenv0=fr.tenv, loc=loc)))
                else: raise Unsupported("nested item")
            else: raise Unsupported(k)
        return out

    def declare(self, p, sc):
        if p["k"] == "typed": p = p["p"]
        if p["k"] == "id": sc.d[p["n"]] = Cell(None)
        else: raise Unsupported("let pattern without value")

    def lit(self, l):
        k = l["k"]
        if k == "int": return I(l["s"] or None, int(l["v"]))
        if k == "bool": return l["v"]
        if k == "str": return Str(l["v"])
        if k == "char": return I("char", ord(l["v"]))
        if k == "bytes": return V([I("u8", b) for b in l["v"]], "u8")
        raise Unsupported(f"literal {k}")

    # -------------------------------------------------------------- expressions
    def place(self, e, sc, fr):
        """(cell, path) of an lvalue expression, or None"""
        k = e["k"]
        if k == "paren": return self.place(e["e"], sc, fr)
        if k == "path" and not e.get("q") and len(e["p"]) == 1:
            c = sc.get(e["p"][0]["n"])
            return (c, ()) if c is not None else None
        if k == "field":
            b = self.place(e["e"], sc, fr)
            if b is None: b = (Cell(self.ev(e["e"], sc, fr)), ())
            b = self.through(b)
            return (b[0], b[1] + (("f", e["n"]),))
        if k == "index":
            b = self.place(e["e"], sc, fr)
            if b is None: b = (Cell(self.ev(e["e"], sc, fr)), ())
            i = self.deref(self.ev(e["i"], sc, fr))
            b = self.through(b)
            return self.index(b, i)
        if k == "un" and e["op"] == "*":
            b = self.place(e["e"], sc, fr)
            if b is None:
                v = self.ev(e["e"], sc, fr)
                return (v.c, v.p) if isinstance(v, Ref) else (Cell(v), ())
            v = self.load(*b)
            if isinstance(v, Ref): return (v.c, v.p)
            return b
        return None

    def through(self, b):
        v = self.load(*b)
        while isinstance(v, Ref):
            b = (v.c, v.p)
            v = self.load(*b)
        return b

    def index(self, b, i):
        v = self.load(*b)
        if isinstance(v, Raw): return (b[0], b[1] + (("i", self.conc(i, "index")),))
        if isinstance(v, seq.AM):
            x = v.look(self, i) if isinstance(v, seq.SM) else v.doc().find(self.deref(i))
            if x is None: raise Panic("no such key")
            return (Cell(x), ())
        if isinstance(v, St) and v.n == "HashMap":
            for k, x in enumerate(v.f["m"].e):
                if self.decide(self.eq(x.e[0], i)): return (b[0], b[1] + (("f", "m"), ("i", k), ("f", "1")))
            raise Panic("no such key")
        if isinstance(v, seq.SQ) and isinstance(i, I):
            e = self.norm(i.e)
            seq.bounds_ok(self, e, v.n)
            return (b[0], b[1] + (("i", e),))
        if isinstance(v, (V, seq.SQ)) and isinstance(i, Rng) and (isinstance(v, seq.SQ) or self.invs is not None):
            n = seq.seqlen(self, v)
            lo = self.norm(i.lo.e) if i.lo is not None else 0
            hi = self.norm(padd(i.hi.e, 1 if i.incl else 0)) if i.hi is not None else n
            if not self.decide(self.cmp("<=", lo, hi)) or not self.decide(self.cmp("<=", hi, n)): raise Panic(f"slice{" "+str([getattr(x,"d",x) for x in (lo,hi,n)]) if seq.DBG else ""}")
            return (b[0], b[1] + (("s", lo, hi),))
        if not isinstance(v, V):
            c = self.contracts.get(self.tyof(v))
            if c and hasattr(c, "slice") and isinstance(i, Rng): return (Cell(c.slice(self, v, i)), ())
            if c: return (b[0], b[1] + (("i", self.conc(i, "index")),))
            raise Unsupported(f"index of {self.tyof(v)}")
        n = len(v.e)
        if isinstance(i, Rng):
            lo = self.conc(i.lo) if i.lo is not None else 0
            hi = self.conc(i.hi) + (1 if i.incl else 0) if i.hi is not None else n
            if lo > hi or hi > n: raise Panic(f"slice {lo}..{hi} of {n}")
            return (b[0], b[1] + (("s", lo, hi),))
        e = self.norm(i.e)
        if not isinstance(e, int):
            lo, hi = self.bounds(e)
            if lo < 0 or hi >= n:
                if not self.decide(self.cmp("<", e, n)): raise Panic("index out of bounds")
            for k in range(max(lo, 0), min(hi, n - 1) + 1):
                if k == min(hi, n - 1):
                    self.assume(self.cmp("==", e, k)); e = k; break
                if self.decide(self.cmp("==", e, k)): e = k; break
        if not 0 <= e < n: raise Panic(f"index {e} of {n}")
        return (b[0], b[1] + (("i", e),))

    def ev(self, e, sc, fr, hint=None):
        self.steps += 1
        if self.steps > self.max_steps: raise Unsupported("step budget")
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported(f"expression {k} line {e.get('ln')}: {str(e.get('t'))[:60]}")
        return m(e, sc, fr, hint)

    def e_lit(self, e, sc, fr, h):
        v = self.lit(e["e"])
        if isinstance(v, I) and v.ty is None and h is not None and h.n in BITS: v = I(h.n, v.e)
        return v

    def e_paren(self, e, sc, fr, h): return self.ev(e["e"], sc, fr, h)

    def e_path(self, e, sc, fr, h):
        p = e["p"]
        if not e.get("q") and len(p) == 1:
            c = sc.get(p[0]["n"])
            if c is not None: return c.v
        return self.path_value(p, e.get("q"), fr, h)

    def const(self, m, c, fr):
        key = (m.name, c["n"])
        if key not in self.consts:
            self.consts[key] = self.adopt(self.ev(c["e"], Scope(), Frame(m, {})), self.rty(c["t"], Frame(m, {})))
        v = self.consts[key]
        if isinstance(v, St) and v.n in ("Mutex", "RwLock"):
            # shared mutable state: one cell per explored path
            if key not in self.globs: self.globs[key] = Cell(v)
            return Ref(self.globs[key])
        return v

    def path_value(self, p, q, fr, h=None):
        segs = [s["n"] for s in p]
        n = segs[-1]
        if q:
            tn = self.rty(q["ty"], fr).n
            for s in p[q["pos"]:-1]: tn = self.assoc(tn, s["n"]) or tn
        elif len(segs) >= 2: tn = self.typath(p[:-1], fr)
        else: tn = None
        if tn:
            if tn in BITS:
                if n == "MAX": return I(tn, trange(tn)[1])
                if n == "MIN": return I(tn, trange(tn)[0])
                if n == "BITS": return I("u32", BITS[tn])
            c = self.contracts.get(tn)
            if c:
                r = c.assoc_const(self, n)
                if r is not None: return r
            for m, im in self.P.impls.get(tn, []):
                for it in im["items"]:
                    if it and it.get("k") == "const" and it["n"] == n:
                        f2 = Frame(m, {"Self": TyRef(tn)})
                        return self.adopt(self.ev(it["e"], Scope(), f2), self.rty(it["t"], f2))
            r = self.P.find(fr.mod, segs[:-1], "enums") if not q else None
            if r or tn in ("Option", "Ordering", "Result") or tn.endswith("::Ordering"):
                if n in ORD: return ORD[n]
                return En(tn, n)
        if n in fr.tenv and len(segs) == 1:
            v = fr.tenv[n]
            if isinstance(v, I): return v
        if n == "None": return NONE
        if n in ORD and (len(segs) == 1 or segs[-2] == "Ordering"): return ORD[n]
        r = self.P.find(fr.mod, segs, "consts")
        if r: return self.const(r[0], r[1], fr)
        r = self.P.find(fr.mod, segs, "structs")
        if r and not r[1]["f"] and not r[1].get("tuple"): return St(self.P.tyname(fr.mod, p), {})
        f = FnV(p, fr); f.segs_q = q
        return f

    def typath(self, p, fr):
        """type name of a path prefix, or None when it is a module"""
        n = p[-1]["n"]
        if len(p) == 1 and n in fr.tenv:
            v = fr.tenv[n]
            return v.n if isinstance(v, TyRef) else None
        if len(p) == 2 and p[0]["n"] in fr.tenv and isinstance(fr.tenv[p[0]["n"]], TyRef):
            a = self.assoc(fr.tenv[p[0]["n"]].n, n)
            if a: return a
        if n in BITS or n in ("Vec", "VecDeque", "Option", "Result", "String", "Box", "HashMap", "BTreeMap", "Ordering", "str", "HashSet"): return n
        segs = [s["n"] for s in p]
        for kind in ("structs", "enums", "types"):
            if self.P.find(fr.mod, segs, kind): return self.P.tyname(fr.mod, p)
        tn = self.P.tyname(fr.mod, p)
        if tn in self.contracts or tn in self.P.impls: return tn
        if n[:1].isupper():
            r = self.P.find(fr.mod, segs, "traits")
            if r: return "trait:" + n
            return tn
        return None

    def e_call(self, e, sc, fr, h):
        f = e["f"]
        if f["k"] == "path":
            if not f.get("q") and len(f["p"]) == 1:
                c = sc.get(f["p"][0]["n"])
                if c is not None:
                    return self.call_val(c.v, [self.ev(a, sc, fr) for a in e["a"]])
            hs = self.arg_hints(f["p"], f.get("q"), len(e["a"]), fr)
            args = [self.ev(a, sc, fr, t) for a, t in zip(e["a"], hs)]
            return self.call_path(f["p"], f.get("q"), args, sc, fr, h)
        return self.call_val(self.ev(f, sc, fr), [self.ev(a, sc, fr) for a in e["a"]])

    def arg_hints(self, p, q, k, fr):
        no = [None] * k
        if q: return no
        segs = [s["n"] for s in p]
        try:
            if segs == ["Self"] and "Self" in fr.tenv:
                r = self.struct_of(fr.tenv["Self"].n)
            else:
                r = self.P.find(fr.mod, segs, "structs") if segs[-1][:1].isupper() else None
            if r and r[1]["tuple"]:
                return ([self.rty(fd["t"], Frame(r[0], {})) for fd in r[1]["f"]] + no)[:k]
            r = self.P.find(fr.mod, segs, "fns") if not segs[-1][:1].isupper() and (len(segs) == 1 or segs[-2][:1].islower()) else None
            if r:
                gen = {g["n"] for g in r[1]["gen"]["names"]}
                return ([self.rty(a["t"], Frame(r[0], {})) if a["k"] == "arg" and not (a["t"]["k"] == "path" and a["t"]["p"][-1]["n"] in gen) else None for a in r[1]["args"]] + no)[:k]
        except (KeyError, Unsupported):
            pass
        return no

    def call_path(self, p, q, args, sc, fr, h=None):
        segs = [s["n"] for s in p]
        n = segs[-1]
        targs = [self.targ(a, fr) for a in p[-1]["a"]]
        if len(segs) == 1:
            if n in ("Some", "Ok", "Err"): return En("Option" if n == "Some" else "Result", n, args)
            if n == "Self":
                ct = self.contracts.get(fr.tenv["Self"].n)
                if ct and hasattr(ct, "construct"): return ct.construct(self, args)
                return St(fr.tenv["Self"].n, {str(i): a for i, a in enumerate(args)})
            r = self.P.find(fr.mod, segs, "fns")
            if r: return self.call_fn((r[0], None, r[1], None), args, targs)
            r = self.P.find(fr.mod, segs, "structs")
            if r and r[1]["tuple"]:
                nm = self.P.tyname(fr.mod, p)
                ct = self.contracts.get(nm)
                if ct and hasattr(ct, "construct"): return ct.construct(self, args)
                f2 = Frame(r[0], {})
                return St(nm, {str(i): self.adopt(a, self.rty(fd["t"], f2)) for i, (a, fd) in enumerate(zip(args, r[1]["f"]))})
            if n[:1].isupper():
                ct = self.contracts.get(self.P.tyname(fr.mod, p))
                if ct and hasattr(ct, "construct"): return ct.construct(self, args)
        tn = None
        if q:
            tn = self.rty(q["ty"], fr).n
            for s in p[q["pos"]:-1]: tn = self.assoc(tn, s["n"]) or tn
        elif len(segs) >= 2: tn = self.typath(p[:-1], fr)
        trait = None
        if q and len(p) >= 2: trait = p[-2]["n"] if q["pos"] > 0 else None
        if tn and tn.startswith("trait:"):
            trait = tn[6:]
            # Trait::method(x, ...): dispatch on the first argument
            tn = self.tyof(self.deref(args[0])) if args else (h.n if h else None)
        if tn is not None:
            if tn.endswith("::Default"): tn = "Default"
            if tn == "Default" or n == "default" and tn.endswith("Default"):
                if h is not None: return self.default(h)
            h2 = self.fncontracts.get((tn, n))
            if h2:
                self.used_contracts.add(f"{tn}::{n}")
                r = h2(self, args)
                if r is not NotImplemented: return r
            c = self.contracts.get(tn)
            if c:
                self.cur_targs, self.cur_hint, self.cur_fr = targs, h, fr
                r = c.static(self, n, args)
                if r is not NotImplemented:
                    self.used_contracts.add(f"{tn}::{n}")
                    return r
            f = self.find_method(tn, n, args)
            if f:
                ta = p[-2]["a"] if len(p) >= 2 else []
                return self.call_fn(f, args, targs)
            r = self.static_builtin(tn, n, args, p, fr, h)
            if r is not NotImplemented: return r
            # enum tuple variant
            r = self.P.find(fr.mod, segs[:-1], "enums")
            if r or (tn and n[:1].isupper()): return En(tn, n, args)
            # method call in path form on a value
            if args:
                return self.mcall(Ref(Cell(args[0])) if not isinstance(args[0], Ref) else args[0], n, args[1:], fr, targs, h)
        r = self.P.find(fr.mod, segs, "fns")
        if r: return self.call_fn((r[0], None, r[1], None), args, targs)
        h2 = self.fncontracts.get((None, n)) or self.fncontracts.get((segs[-2] if len(segs) > 1 else None, n))
        if h2: return h2(self, args)
        r = self.free_builtin(segs, args, fr, h)
        if r is not NotImplemented: return r
        raise Unsupported(f"call of {'::'.join(segs)}")

    def targ(self, a, fr):
        if a.get("k") == "constexpr": return self.ev(a["e"], Scope(), fr)
        if a.get("k") == "path" and len(a["p"]) == 1 and isinstance(fr.tenv.get(a["p"][0]["n"]), I): return fr.tenv[a["p"][0]["n"]]
        return self.rty(a, fr)

    def e_mcall(self, e, sc, fr, h):
        b = self.place(e["r"], sc, fr)
        if b is None:
            # the type asked of a parse reaches it through unwrap and the like
            h2 = TyRef("Result", [h]) if h is not None and e["m"] in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else") else h if e["m"] in ("map_err", "ok_or", "ok_or_else") else None
            v = self.ev(e["r"], sc, fr, h2)
            ref = v if isinstance(v, Ref) else Ref(Cell(v))
        else:
            ref = Ref(*b)
        args = [self.ev(a, sc, fr) for a in e["a"]]
        targs = [self.targ(a, fr) for a in (e["t"] or [])]
        self.cursc = sc
        return self.mcall(ref, e["m"], args, fr, targs, h)

    def mcall(self, ref, name, args, fr, targs=(), h=None):
        c, p = self.through((ref.c, ref.p))
        ref = Ref(c, p)
        v = self.load(c, p)
        tn = self.tyof(v)
        h2 = self.fncontracts.get((tn, name))
        if h2:
            self.used_contracts.add(f"{tn}::{name}")
            r = h2(self, [ref] + list(args))
            if r is not NotImplemented: return r
        ct = self.contracts.get(tn)
        if ct:
            self.cur_targs, self.cur_hint, self.cur_fr = targs, h, fr
            r = ct.method(self, ref, v, name, args)
            if r is not NotImplemented:
                self.used_contracts.add(f"{tn}::{name}")
                return r
        if tn in self.P.impls:
            f = self.find_method(tn, name, [ref] + list(args))
            if f:
                return self.call_fn(f, [ref] + list(args), list(targs))
        import builtin
        r = builtin.method(self, ref, v, tn, name, args, fr, targs, h)
        if r is not NotImplemented: return r
        raise Unsupported(f"method {tn}.{name}")

    def static_builtin(self, tn, n, args, p, fr, h):
        import builtin
        return builtin.static(self, tn, n, args, p, fr, h)

    def free_builtin(self, segs, args, fr, h):
        import builtin
        return builtin.free(self, segs, args, fr, h)

    def default(self, t):
        n = t.n
        if n in ("HashMap", "BTreeMap"): return St("HashMap", {"m": V([])})
        if n in BITS: return I(n, 0)
        if n == "bool": return False
        if n.split("::")[-1].startswith("PhantomData"): return UNIT
        if n == "array" and t.ln:
            k = self.conc(self.ev(t.ln[0], Scope(), t.ln[1]))
            return V([self.default(t.a[0]) for _ in range(k)], t.a[0].n)
        if n == "Vec": return V([])
        if n in ("String", "str"): return Str("")
        c = self.contracts.get(n)
        if c:
            r = c.assoc_const(self, "ZERO")
            if r is not None: return r
        f = self.find_method(n, "default", [], trait="Default")
        if f: return self.call_fn(f, [])
        for m in self.P.mods.values():
            for s in m.structs.values():
                if m.name + "::" + s["n"] == n and any("Default" in d for d in s["derive"]):
                    f2 = Frame(m, {"Self": TyRef(n)})
                    return St(n, {fd["n"]: self.default_ty(fd["t"], f2) for fd in s["f"]})
        raise Unsupported(f"default of {t}")

    def default_ty(self, t, fr):
        if t["k"] == "array":
            k = self.conc(self.ev(t["len"], Scope(), fr))
            return V([self.default_ty(t["t"], fr) for _ in range(k)])
        if t["k"] == "tuple": return T([self.default_ty(x, fr) for x in t["e"]])
        return self.default(self.rty(t, fr))

    def e_field(self, e, sc, fr, h):
        b = self.place(e, sc, fr)
        return self.load(*b)

    def e_index(self, e, sc, fr, h):
        b = self.place(e, sc, fr)
        return self.load(*b)

    def e_ref(self, e, sc, fr, h):
        b = self.place(e["e"], sc, fr)
        if b is None:
            v = self.ev(e["e"], sc, fr)
            return Ref(Cell(v))
        return Ref(*b)

    def e_un(self, e, sc, fr, h):
        op = e["op"]
        if op == "*":
            v = self.ev(e["e"], sc, fr)
            return self.load(v.c, v.p) if isinstance(v, Ref) else v
        v = self.deref(self.ev(e["e"], sc, fr, h))
        if op == "!":
            if isinstance(v, (bool, B)): return self.bnot(v)
            if isinstance(v, I):
                ty = v.ty or (h.n if h else "i32")
                return I(ty, psub(-1, v.e) if signed(ty) else psub((1 << BITS[ty]) - 1, v.e))
        if op == "-":
            if isinstance(v, I): return I(v.ty, self.wrap(v.ty, pscale(v.e, -1)))
            c = self.contracts.get(self.tyof(v))
            if c:
                r = c.unop(self, "-", v)
                if r is not NotImplemented: return r
            f = self.find_method(self.tyof(v), "neg", [v], trait="Neg")
            if f: return self.call_fn(f, [v])
        raise Unsupported(f"unary {op}")

    ASG = {"+=": "+", "-=": "-", "*=": "*", "/=": "/", "%=": "%", "&=": "&", "|=": "|", "^=": "^", "<<=": "<<", ">>=": ">>"}
    ASGM = {"+=": ("add_assign", "AddAssign"), "-=": ("sub_assign", "SubAssign"), "*=": ("mul_assign", "MulAssign"), "/=": ("div_assign", "DivAssign")}

    def e_bin(self, e, sc, fr, h):
        op = e["op"]
        if op == "&&":
            return self.band(self.deref(self.ev(e["l"], sc, fr)), lambda: self.deref(self.ev(e["r"], sc, fr)))
        if op == "||":
            return self.bor(self.deref(self.ev(e["l"], sc, fr)), lambda: self.deref(self.ev(e["r"], sc, fr)))
        if op in self.ASG:
            r = self.ev(e["r"], sc, fr)
            b = self.place(e["l"], sc, fr)
            if b is None: raise Unsupported("assignment target")
            b = self.through(b)
            l = self.load(*b)
            if op in self.ASGM and not isinstance(l, I) and self.tyof(l) in self.P.impls and self.tyof(l) not in self.contracts:
                f = self.find_method(self.tyof(l), self.ASGM[op][0], [Ref(*b), r], trait=self.ASGM[op][1])
                if f:
                    self.call_fn(f, [Ref(*b), r])
                    return UNIT
            if isinstance(l, Str) and op == "+=":
                self.store(b[0], b[1], Str(l.v + self.deref(r).v))
                return UNIT
            self.store(b[0], b[1], self.binop(self.ASG[op], l, r))
            return UNIT
        l = self.ev(e["l"], sc, fr, h if op in "+-*/%&|^" else None)
        r = self.ev(e["r"], sc, fr)
        return self.binop(op, l, r)

    def e_assign(self, e, sc, fr, h):
        l = e["l"]
        if l["k"] == "path" and not l.get("q") and l["p"][0]["n"] == "_":
            self.ev(e["r"], sc, fr); return UNIT
        if l["k"] == "tuple":
            v = self.ev(e["r"], sc, fr)
            for x, y in zip(l["e"], v.e):
                b = self.place(x, sc, fr); self.store(b[0], b[1], y)
            return UNIT
        v = self.ev(e["r"], sc, fr)
        b = self.place(l, sc, fr)
        if b is None: raise Unsupported("assignment target")
        old = None
        try: old = self.load(*b)
        except (Unsupported, IndexError): pass
        if isinstance(v, I) and v.ty is None and isinstance(old, I): v = I(old.ty, v.e)
        self.store(b[0], b[1], v)
        return UNIT

    def e_block(self, e, sc, fr, h):
        try:
            return self.block(e["b"], sc, fr, h)
        except Brk as b:
            if e.get("lab") and b.lab == e["lab"]: return b.v
            raise

    def cond(self, c, sc, fr):
        if c["k"] == "letc":
            v = self.ev(c["e"], sc, fr)
            return self.bind(c["p"], v, sc, fr)
        if c["k"] == "bin" and c["op"] == "&&" and (c["l"]["k"] == "letc" or c["r"]["k"] == "letc"):
            return self.decide(self.cond(c["l"], sc, fr)) and self.cond(c["r"], sc, fr)
        return self.deref(self.ev(c, sc, fr))

    def e_letc(self, e, sc, fr, h):
        return self.bind(e["p"], self.ev(e["e"], sc, fr), sc, fr)

    def e_if(self, e, sc, fr, h):
        s2 = Scope(sc)
        c = self.cond(e["c"], s2, fr)
        if isinstance(c, B) and self.merge_on and c.s is not None and not isinstance(self.norm(c.s), int):
            r = self.try_merge(c, lambda: self.block(e["t"], s2, fr, h),
                               lambda: self.ev(e["e"], sc, fr, h) if e["e"] is not None else UNIT)
            if r is not None: return r[0]
        if self.decide(c):
            return self.block(e["t"], s2, fr, h)
        if e["e"] is not None: return self.ev(e["e"], sc, fr, h)
        return UNIT

    def try_merge(self, c, th, el):
        outer = self.trail
        saved_trace, saved_pos = list(self.trace), self.dpos
        sub0 = dict(self.sub); npc = len(self.pc)
        res = []
        ok = True
        for cond, f in ((c, th), (self.bnot(c), el)):
            self.trail = []
            self.solver.push()
            asserted0 = set(self.asserted)
            try:
                self.assume(cond)
                v = f()
                if self.dpos != saved_pos: ok = False
            except (Ret, Brk, Cont, Panic, Infeasible, Unsupported):
                ok = False; v = None
            finally:
                self.solver.pop()
                self.asserted = asserted0
                del self.pc[npc:]
                self.sub = dict(sub0)
            w = {}
            for cell, old in self.trail: w[id(cell)] = (cell, cell.v)
            for cell, old in reversed(self.trail): cell.v = old
            self.trail = outer
            self.trace = list(saved_trace); self.dpos = saved_pos
            if not ok: return None
            res.append((v, w))
        try:
            s = c.s
            (va, wa), (vb, wb) = res
            v = self.merge(s, va, vb)
            new = []
            for k in set(wa) | set(wb):
                cell = (wa.get(k) or wb.get(k))[0]
                a = wa[k][1] if k in wa else cell.v
                b = wb[k][1] if k in wb else cell.v
                new.append((cell, self.merge(s, a, b)))
        except Unsupported:
            return None
        for cell, x in new:
            if self.trail is not None: self.trail.append((cell, cell.v))
            cell.v = x
        return (v,)

    def e_match(self, e, sc, fr, h):
        b = self.place(e["e"], sc, fr)
        if b is not None:
            x = self.load(*b)
            v = x if isinstance(x, Ref) else Ref(*b)
            byval = not isinstance(x, Ref)
        else:
            v, byval = self.ev(e["e"], sc, fr), False
        for arm in e["arms"]:
            s2 = Scope(sc)
            pv = v
            if byval and isinstance(v, Ref):
                pv = self.load(v.c, v.p)
            if self.bind(arm["p"], pv, s2, fr):
                if arm["g"] is not None and not self.decide(self.deref(self.ev(arm["g"], s2, fr))): continue
                return self.ev(arm["b"], s2, fr, h)
        raise Unsupported("no arm matched")

    def loop_ctl(self, f, lab):
        """returns None to go on, or (value,) to leave the loop"""
        try:
            f()
        except Brk as b:
            if b.lab is None or b.lab == lab: return (b.v,)
            raise
        except Cont as c:
            if c.lab is None or c.lab == lab: return None
            raise
        return None

    loop_hook = None
    letover = {}        # local name -> value replacing a literal initialiser (the function text with that literal generalised)

    def e_while(self, e, sc, fr, h):
        if self.loop_hook:
            return self.loop_hook(self, e, sc, fr)
        k = ("while", id(e))
        if self.invs is not None and k in self.recset:
            seq.wcut(self, k, lambda s2: self.cond(e["c"], s2, fr), lambda s2: self.block(e["b"], s2, fr), sc, e.get("lab"))
            return UNIT
        n = 0
        while True:
            s2 = Scope(sc)
            if not self.decide(self.cond(e["c"], s2, fr)): return UNIT
            r = self.loop_ctl(lambda: self.block(e["b"], s2, fr), e.get("lab"))
            if r: return UNIT
            n += 1
            if n > self.loop_bound:
                if self.invs is not None and self.counts:
                    self.recset.add(k)
                    raise seq.Retry()
                raise Unsupported("loop bound")

    def e_loop(self, e, sc, fr, h):
        k = ("while", id(e))
        if self.invs is not None and k in self.recset:
            return seq.wcut(self, k, None, lambda s2: self.block(e["b"], s2, fr), sc, e.get("lab"))[0]
        n = 0
        while True:
            r = self.loop_ctl(lambda: self.block(e["b"], sc, fr), e.get("lab"))
            if r: return r[0]
            n += 1
            if n > self.loop_bound:
                if self.invs is not None and self.counts:
                    self.recset.add(k)
                    raise seq.Retry()
                raise Unsupported("loop bound")

    def e_for(self, e, sc, fr, h):
        it = self.ev(e["e"], sc, fr)
        if seq.symbolic(self, it) or (self.tmake or self.cutall) and isinstance(it, Rng):
            def body(v):
                s2 = Scope(sc)
                if not self.bind(e["p"], v, s2, fr): raise Unsupported("for pattern")
                self.block(e["b"], s2, fr)
            seq.cut(self, seq.to_sit(self, it), body, ("for", id(e)), e.get("lab"), None, sc)
            return UNIT
        it = self.lazy(it) if isinstance(it, Rng) else self.iterate(it)
        n = 0
        for v in it:
            s2 = Scope(sc)
            if not self.bind(e["p"], v, s2, fr): raise Unsupported("for pattern")
            r = self.loop_ctl(lambda: self.block(e["b"], s2, fr), e.get("lab"))
            if r: return UNIT
            n += 1
            if n > 20 * max(self.loop_bound, 40): raise Unsupported("loop bound")
        return UNIT

    def lazy(self, v):
        """the values of a range, each bound decided when it is reached"""
        if v.hi is None: return self.iterate(v)
        ty = v.lo.ty or v.hi.ty
        lo, hi = self.norm(v.lo.e), self.norm(v.hi.e)
        if isinstance(lo, int) and isinstance(hi, int):
            return (I(ty, k) for k in range(lo, hi + (1 if v.incl else 0)))
        if not isinstance(lo, int): lo = self.conc(v.lo, "range start")

        def gen():
            k = lo
            while self.decide(self.cmp("<=" if v.incl else "<", k, hi)):
                yield I(ty, k)
                k += 1
        return gen()

    def iterate(self, v):
        """python iterable of the values a Rust for loop sees"""
        if isinstance(v, Ref):
            c, p = self.through((v.c, v.p))
            x = self.load(c, p)
            if isinstance(x, V):
                return [Ref(c, p + (("i", i),)) for i in range(len(x.e))]
            if isinstance(x, It): return self.drain(Ref(c, p))
            if isinstance(x, St) and x.n == "HashMap":
                return [T([Ref(c, p + (("f", "m"), ("i", i), ("f", "0"))), Ref(c, p + (("f", "m"), ("i", i), ("f", "1")))]) for i in range(len(x.f["m"].e))]
            v = x
        if isinstance(v, Rng):
            lo = self.conc(v.lo, "range start")
            ty = v.lo.ty or (v.hi.ty if v.hi is not None else None)
            if v.hi is None:
                def inf():
                    k = lo
                    while True:
                        yield I(ty, k); k += 1
                return inf()
            hi = self.conc(v.hi, "range end") + (1 if v.incl else 0)
            return [I(ty, k) for k in range(lo, hi)]
        if isinstance(v, V): return list(v.e)
        if isinstance(v, St) and v.n == "HashMap": return [T(list(t.e)) for t in v.f["m"].e]
        if isinstance(v, It):
            return v.items[v.pos:] if isinstance(v.items, list) else v.items
        if isinstance(v, En) and v.n == "Option": return list(v.a)
        if isinstance(v, St):
            # an iterator written in the sources
            f = self.find_method(v.n, "next", [Ref(Cell(v))], trait="Iterator")
            if f:
                cell = Cell(v)
                def gen():
                    while True:
                        r = self.call_fn(f, [Ref(cell)])
                        if r.v == "None": return
                        yield r.a[0]
                return gen()
        raise Unsupported(f"iterate {self.tyof(v)}")

    def drain(self, ref):
        while True:
            x = self.load(ref.c, ref.p)
            if isinstance(x.items, list):
                if x.pos >= len(x.items): return
                n = It(x.items); n.pos = x.pos + 1
                self.store(ref.c, ref.p, n)
                yield x.items[x.pos]
            else:
                yield next(x.items)

    def e_return(self, e, sc, fr, h):
        ty = self.rty(fr.ret, fr) if fr.ret else None
        raise Ret(self.ev(e["e"], sc, fr, ty) if e["e"] is not None else UNIT)

    def e_break(self, e, sc, fr, h):
        raise Brk(self.ev(e["e"], sc, fr) if e["e"] is not None else UNIT, e.get("lab"))

    def e_continue(self, e, sc, fr, h): raise Cont(e.get("lab"))

    def e_tuple(self, e, sc, fr, h):
        hs = h.a if h is not None and h.n == "tuple" and len(h.a) == len(e["e"]) else [None] * len(e["e"])
        return T([self.ev(x, sc, fr, t) for x, t in zip(e["e"], hs)])

    def e_array(self, e, sc, fr, h):
        t = h.a[0] if h is not None and h.n in ("array", "Vec") and h.a else None
        v = [self.ev(x, sc, fr, t) for x in e["e"]]
        return V(self.unifylits(v))

    def unifylits(self, v):
        tys = {x.ty for x in v if isinstance(x, I) and x.ty}
        if len(tys) == 1:
            t = next(iter(tys))
            v = [I(t, x.e) if isinstance(x, I) and x.ty is None else x for x in v]
        return v

    def e_repeat(self, e, sc, fr, h):
        t = h.a[0] if h is not None and h.n in ("array", "Vec") and h.a else None
        v = self.ev(e["e"], sc, fr, t)
        n = self.ev(e["n"], sc, fr)
        if self.invs is not None and isinstance(n, I) and not isinstance(k := self.norm(n.e) if not self.few else self.only(n.e), int): return seq.SQ(k, lambda i: v)
        n = self.conc(n, "array length")
        return V([v] * n)

    def e_struct(self, e, sc, fr, h):
        nm = fr.tenv["Self"].n if e["p"][-1]["n"] == "Self" and "Self" in fr.tenv else self.P.tyname(fr.mod, e["p"])
        r = self.struct_of(nm)
        f = {}
        if e.get("rest") is not None:
            f.update(self.deref(self.ev(e["rest"], sc, fr, TyRef(nm))).f)
        for x in e["f"]:
            ty = None
            if r:
                ty = next((self.rty(fd["t"], Frame(r[0], {"Self": TyRef(nm)})) for fd in r[1]["f"] if fd["n"] == x["n"]), None)
            f[x["n"]] = self.adopt(self.ev(x["e"], sc, fr, ty), ty)
        return St(nm, f)

    def struct_of(self, nm):
        for m in self.P.mods.values():
            for s in m.structs.values():
                if m.name + "::" + s["n"] == nm: return m, s
        return None

    def e_cast(self, e, sc, fr, h):
        v = self.deref_keep(self.ev(e["e"], sc, fr))
        return self.cast(v, e["t"], fr)

    def deref_keep(self, v): return v

    def cast(self, v, t, fr):
        if t["k"] == "unsupported" and "*" in t["t"]:
            return En("ptrcast", t["t"], (v,))
        v = self.deref(v)
        ty = self.rty(t, fr)
        if ty.n in BITS:
            if isinstance(v, (bool, B)): return self.b2i(v, ty.n)
            if isinstance(v, I): return I(ty.n, self.wrap(ty.n, self.norm(v.e)))
            if isinstance(v, En) and not v.a:
                raise Unsupported("enum cast")
            if isinstance(v, (Raw, Op, Ite, Xor)) and ty.n == "u64": return v
        raise Unsupported(f"cast {self.tyof(v)} to {ty}")

    def e_range(self, e, sc, fr, h):
        lo = self.deref(self.ev(e["lo"], sc, fr)) if e["lo"] is not None else None
        hi = self.deref(self.ev(e["hi"], sc, fr)) if e["hi"] is not None else None
        return Rng(lo, hi, e["incl"])

    def e_closure(self, e, sc, fr, h): return Clo(e["a"], e["b"], sc, fr)

    def e_try(self, e, sc, fr, h):
        v = self.deref(self.ev(e["e"], sc, fr, TyRef("Result", [h]) if h is not None and e["e"]["k"] in ("mcall", "call") else None))
        if isinstance(v, En):
            if v.v in ("Some", "Ok"): return v.a[0]
            if v.v == "None": raise Ret(NONE)
            if v.v == "Err": raise Ret(v)
        raise Unsupported("?")

    def concat(self, parts):
        """text put together from parts"""
        out = []
        for x in parts:
            x = self.deref(x)
            if isinstance(x, bool): x = Str(str(x).lower())
            if isinstance(x, I):
                e = self.norm(x.e)
                x = (Str(chr(e)) if x.ty == "char" else Str(str(e))) if isinstance(e, int) else Op("to_string", (x,), "str")
            xs = list(x.a) if isinstance(x, Op) and x.f == "fmt" else [x]
            for y in xs:
                if isinstance(y, Str):
                    if y.v == "<fmt>": raise Unsupported("formatted text")
                    if not y.v: continue
                    if out and isinstance(out[-1], Str): out[-1] = Str(out[-1].v + y.v); continue
                elif not (isinstance(y, Op) and y.ty == "str"): raise Unsupported(f"display of {self.tyof(y)}")
                out.append(y)
        if not out: return Str("")
        return out[0] if len(out) == 1 else Op("fmt", out, "str")

    def fmt(self, args, sc, fr):
        if not args or args[0].get("k") != "lit" or args[0]["e"]["k"] != "str": raise Unsupported("format string")
        f, pos, parts, i, cur = args[0]["e"]["v"], 0, [], 0, ""
        named = {a["l"]["p"][0]["n"]: a["r"] for a in args[1:] if a.get("k") == "assign"}
        while i < len(f):
            c = f[i]
            if c in "{}" and f[i:i + 2] == c * 2: cur += c; i += 2; continue
            if c == "}": raise Unsupported("format string")
            if c != "{": cur += c; i += 1; continue
            j = f.index("}", i)
            k = f[i + 1:j]
            i = j + 1
            if ":" in k: raise Unsupported("format specification")
            parts.append(Str(cur)); cur = ""
            if k == "": v = self.ev(args[1 + pos], sc, fr); pos += 1
            elif k.isdigit(): v = self.ev(args[1 + int(k)], sc, fr)
            elif k in named: v = self.ev(named[k], sc, fr)
            else:
                x = sc.get(k)
                v = x.v if x is not None else self.ev({"k": "path", "p": [{"n": k, "a": []}], "q": None}, sc, fr)
            parts.append(v)
        return self.concat(parts + [Str(cur)])

    def e_macro(self, e, sc, fr, h):
        n = e["n"]
        if n in ("println", "print", "eprintln", "debug", "info", "trace", "warn", "error", "debug_assert", "debug_assert_eq"): return UNIT
        if n in ("panic", "unreachable", "todo", "unimplemented"): raise Panic(f"{n}! line {e.get('ln')}")
        if n in ("assert",):
            if not self.decide(self.deref(self.ev(e["args"][0], sc, fr))): raise Panic(f"assert line {e.get('ln')}")
            return UNIT
        if n in ("assert_eq", "assert_ne"):
            a, b = self.ev(e["args"][0], sc, fr), self.ev(e["args"][1], sc, fr)
            r = self.decide(self.eq(a, b))
            if r != (n == "assert_eq"): raise Panic(f"{n} line {e.get('ln')}")
            return UNIT
        if n == "vec":
            if "rep" in e:
                t = h.a[0] if h is not None and h.n in ("Vec",) and h.a else None
                v = self.ev(e["rep"][0], sc, fr, t)
                k = self.ev(e["rep"][1], sc, fr)
                if self.invs is not None and isinstance(k, I) and not isinstance(q := self.norm(k.e) if not self.few else self.only(k.e), int): return seq.SQ(q, lambda i: v)
                k = self.conc(k, "vec length")
                return V([v] * k)
            t = h.a[0] if h is not None and h.n in ("Vec",) and h.a else None
            return V(self.unifylits([self.ev(x, sc, fr, t) for x in e.get("args", [])]))
        if n in ("format", "format_args"):
            try: return self.fmt(e.get("args") or [], sc, fr)
            except Unsupported: return Str("<fmt>")
        if n in ("write", "writeln") and e.get("args"):
            x = self.fmt(e["args"][1:], sc, fr) if len(e["args"]) > 1 else Str("")
            if n == "writeln": x = self.concat([x, Str("\n")])
            b = self.place(e["args"][0], sc, fr)
            ref = Ref(*b) if b else self.ev(e["args"][0], sc, fr)
            return self.mcall(ref if isinstance(ref, Ref) else Ref(Cell(ref)), "write_str", [x], fr)
        if n in ("bail", "anyhow", "ensure"):
            if n == "bail": raise Ret(Err(Str("bail")))
            if n == "anyhow": return Str("anyhow")
            if not self.decide(self.deref(self.ev(e["args"][0], sc, fr))): raise Ret(Err(Str("ensure")))
            return UNIT
        if n == "hex":
            return V([I("u8", b) for b in bytes.fromhex(e["args"][0]["e"]["v"].replace(" ", ""))], "u8")
        raise Unsupported(f"macro {n}!")


import seq
