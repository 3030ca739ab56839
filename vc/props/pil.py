"""C25: the text render() returns, parsed as PIL and compared with the operations its gates stand for."""
import re
from oblig import *
from seq import Inv, yes, NMAX

P = P64
NI = NotImplemented
RING = 12


# ---------------------------------------------------------------- polynomials over named cells, coefficients mod p
def pc(k): return {(): k % P} if k % P else {}
def pv(x): return {(x,): 1}


def pa(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = (r.get(m, 0) + s * c) % P
        if not r[m]: del r[m]
    return r


def pm(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = (r.get(k, 0) + c * d) % P
    return {m: c for m, c in r.items() if c}


def span(ps):
    """reduced basis of the linear span: equations with the same span hold on the same rows"""
    basis = []
    for p in ps:
        p = dict(p)
        for lead, b in basis:
            if lead in p: p = pa(p, b, -p[lead])
        if not p: continue
        lead = max(p)
        i = pow(p[lead], P - 2, P)
        p = {m: c * i % P for m, c in p.items()}
        basis = [(l, pa(b, p, -b[lead]) if lead in b else b) for l, b in basis] + [(lead, p)]
    return sorted((l, tuple(sorted(b.items()))) for l, b in basis)


# ---------------------------------------------------------------- text with numbers left open
class Doc:
    """String as the pieces pushed so far"""
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args):
        if n in ("new", "default"): return Str("")
        if n in ("from", "from_str") and args: return eng.deref(args[0])
        if n == "with_capacity": return Str("")
        return NI

    def binop(self, eng, op, a, b):
        if op == "+": return eng.concat([a, b])
        return NI

    def method(self, eng, ref, v, n, args):
        if n in ("push_str", "write_str", "push", "add_assign"):
            eng.store(ref.c, ref.p, eng.concat([v, args[0]]))
            return Ok(UNIT) if n == "write_str" else UNIT
        if n in ("as_str", "clone", "to_owned", "to_string", "into", "as_ref", "borrow", "trim_end_lazy"): return v
        if n in ("reserve",): return UNIT
        return NI


TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_][A-Za-z_0-9\x01\x02]*)|(?P<num>[0-9\x01\x02]+)|(?P<loop>\x03\d+\x04)|(?P<op>\*\*|[-+*()\[\]{}=;:,.'])", re.S)


class Bad(Exception):
    """not the PIL this module reads"""


class Parse:
    """holes: the open numbers, in order of appearance"""

    def __init__(self, text, holes):
        self.t, self.h, self.i = [], holes, 0
        pos = 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m: raise Bad(f"text {text[pos:pos + 30]!r}")
            pos = m.end()
            if m.lastgroup: self.t.append((m.lastgroup, m.group()))
        self.t.append(("end", ""))

    def peek(self, x): return self.t[self.i][1] == x and self.t[self.i][0] != "loop"
    def take(self, x):
        if not self.peek(x): return False
        self.i += 1
        return True

    def need(self, x):
        if not self.take(x): raise Bad(f"expected {x!r}, found {self.t[self.i][1]!r}")

    def name(self):
        k, v = self.t[self.i]
        if k != "id": raise Bad(f"expected a name, found {v!r}")
        self.i += 1
        return self.split(v)

    def split(self, v):
        """name, and the number at its end when that was left open"""
        if "\x01" not in v: return v
        m = re.fullmatch(r"([A-Za-z_]+)\x01(\d+)\x02", v)
        if not m: raise Bad(f"name {v!r}")
        return (m.group(1), self.h[int(m.group(2))])

    def num(self):
        k, v = self.t[self.i]
        if k != "num": raise Bad(f"expected a number, found {v!r}")
        self.i += 1
        if "\x01" not in v: return int(v)
        m = re.fullmatch(r"\x01(\d+)\x02", v)
        if not m: raise Bad(f"number {v!r}")
        return self.h[int(m.group(1))]

    def stmts(self):
        out = []
        while self.t[self.i][0] != "end": out.append(self.stmt())
        return out

    def stmt(self):
        k, v = self.t[self.i]
        if k == "loop":
            self.i += 1
            return ("loop", int(v[1:-1]))
        if self.take("let"):
            n = self.name()
            self.need(":"); self.name(); self.need("=")
            b = self.num(); self.need("**"); e = self.num(); self.need(";")
            return ("let", n, b, e)
        if self.take("namespace"):
            n = self.name(); self.need("("); x = self.name(); self.need(")"); self.need(";")
            return ("ns", n, x)
        if self.take("pol"):
            for q in ("constant", "commit"):
                if self.take(q):
                    n, z = self.name(), None
                    if self.take("["): z = self.num(); self.need("]")
                    self.need(";")
                    return (q, n, z)
            n = self.name(); self.need("="); e = self.expr(); self.need(";")
            return ("pol", n, e)
        if self.take("public"):
            n = self.name(); self.need("=")
            a = self.name(); self.need("["); c = self.num(); self.need("]")
            self.need("("); r = self.num(); self.need(")"); self.need(";")
            return ("public", n, a, c, r)
        if self.peek("["):
            l = self.list()
            if not self.take("connect"): raise Bad("connect")
            r = self.list(); self.need(";")
            return ("connect", l, r)
        l = self.expr(); self.need("="); r = self.expr(); self.need(";")
        return ("id", l, r)

    def list(self):
        self.need("[")
        out = [self.expr()]
        while self.take(","): out.append(self.expr())
        self.need("]")
        return out

    def expr(self):
        a = self.term()
        while True:
            if self.take("+"): a = ("+", a, self.term())
            elif self.take("-"): a = ("-", a, self.term())
            else: return a

    def term(self):
        a = self.unary()
        while self.take("*"): a = ("*", a, self.unary())
        return a

    def unary(self):
        if self.take("-"): return ("-", ("n", 0), self.unary())
        a = self.prim()
        if self.take("**"):
            e = self.num()
            if not isinstance(e, int) or e > 20: raise Bad("power")
            r = ("n", 1)
            for _ in range(e): r = ("*", r, a)
            return r
        return a

    def prim(self):
        if self.take("("):
            e = self.expr(); self.need(")")
            return e
        if self.take(":"): return ("pub", self.name())
        if self.t[self.i][0] == "num": return ("n", self.num())
        n = self.name()
        ns = None
        if self.take("."): ns, n = n, self.name()
        x = None
        if self.take("["): x = self.num(); self.need("]")
        return ("v", ns, n, x, self.take("'"))


def pieces(eng, v):
    """(text with holes, holes) of a value of type str"""
    out, holes = [], []
    v = eng.deref(v)
    for x in (v.a if isinstance(v, Op) and v.f == "fmt" else [v]):
        if isinstance(x, Str):
            if x.v == "<fmt>" or re.search("[\x01-\x04]", x.v): raise Undecided("formatted text")
            out.append(x.v)
        elif isinstance(x, Op) and x.f == "to_string" and isinstance(x.a[0], I):
            out.append(f"\x01{len(holes)}\x02"); holes.append(eng.norm(x.a[0].e))
        elif isinstance(x, Op) and x.f == "loop": out.append(f"\x03{x.a[0].v}\x04")
        else: raise Undecided("text of unknown origin")
    return "".join(out), holes


# ---------------------------------------------------------------- what the document says
def named(n, pre):
    """the number of an L.. or pub.. name"""
    if isinstance(n, tuple): return n[1] if n[0] == pre else None
    m = re.fullmatch(pre + r"(\d+)", n)
    return int(m.group(1)) if m else None


class Doc25:
    def __init__(self, eng, n, fams):
        self.e, self.n, self.fams = eng, n, fams
        self.ns = None
        self.decl, self.pols = {}, {}
        self.runs = {"L": [], "pub": [], "pin": []}
        self.gates = {}
        self.exp, self.conn, self.nslist = None, None, []

    def yes(self, a, op, b):
        a, b = self.e.norm(a), self.e.norm(b)
        if isinstance(a, int) and isinstance(b, int): return {"==": a == b, "<": a < b, ">=": a >= b, "<=": a <= b}[op]
        return yes(self.e, self.e.cmp(op, a, b))

    def fail(self, why): raise Fail(why, {"t": "pil"})

    def cell(self, row, col, k):
        """public k sits at row k div 12, column k mod 12"""
        return self.yes(padd(pscale(row, RING), col), "==", k) and self.yes(col, ">=", 0) and self.yes(col, "<", RING)

    def place(self, s):
        """L constants, publics and their pins: (kind, number) of a statement, or None"""
        if s[0] == "constant" and s[2] is None and (k := named(s[1], "L")) is not None: return ("L", k)
        if s[0] == "public":
            k = named(s[1], "pub")
            if k is None: return None
            if s[2] != "a": self.fail(f"a public is read from {s[2]}")
            if not self.cell(s[4], s[3], k): return self.off(f"public {k} is column {s[3]} of row {s[4]}", s)
            return ("pub", k)
        if s[0] == "id" and s[2] == ("n", 0):
            e = s[1]
            if e[0] != "*": return None
            for l, d in ((e[1], e[2]), (e[2], e[1])):
                if l[0] == "v" and l[1] == "Global" and (k := named(l[2], "L")) is not None:
                    if d[0] != "-": return None
                    a, b = d[1], d[2]
                    if a[0] == "pub": a, b = b, a
                    if b[0] != "pub" or a[0] != "v" or a[1] not in (None, "Compressor") or a[2] != "a" or a[3] is None or a[4] or l[4]: return None
                    i = named(b[1], "pub")
                    if i is None: return None
                    if not self.cell(psub(k, 1), a[3], i): return self.off(f"public {i} is compared with column {a[3]} where L{k} is 1", s)
                    return ("pin", i)
        return None

    def off(self, why, s):
        if any(not isinstance(x, int) for x in self.nums(s)): raise Undecided(why)
        self.fail(why)

    def nums(self, s):
        if isinstance(s, tuple):
            for x in s: yield from self.nums(x)
        elif isinstance(s, (int, Poly)): yield s

    def poly(self, e, here):
        k = e[0]
        if k == "n":
            if not isinstance(e[1], int): raise Undecided("open coefficient")
            return pc(e[1])
        if k in "+-": return pa(self.poly(e[1], here), self.poly(e[2], here), 1 if k == "+" else -1)
        if k == "*": return pm(self.poly(e[1], here), self.poly(e[2], here))
        if k == "v":
            _, ns, n, x, nxt = e
            if not isinstance(n, str): raise Undecided("open name")
            ns = ns or here
            if (ns, n) in self.pols and x is None:
                p = self.pols[ns, n]
                return {tuple(sorted(v + "'" for v in m)): c for m, c in p.items()} if nxt else p
            d = self.decl.get((ns, n), 0)
            if d == 0: self.fail(f"{n} is used but not declared")
            if (d is None) != (x is None): self.fail(f"{n}: index")
            if x is not None and not (isinstance(x, int) and x < d): self.fail(f"{n}[{x}] of {d}")
            return pv((n if ns == "Compressor" else f"{ns}.{n}") + (f"[{x}]" if x is not None else "") + ("'" if nxt else ""))
        raise Undecided("an open expression")

    def add(self, s):
        if s[0] == "loop":
            N, fam = self.fams[s[1]]
            for kind, a in fam: self.runs[kind].append((a, padd(a, N)))
            return
        p = self.place(s)
        if p and (p[0] != "L" or self.ns == "Global"):
            self.runs[p[0]].append((p[1], padd(p[1], 1)))
            return
        if s[0] == "let":
            if s[1] != "N" or s[2] != 2 or self.exp is not None: self.fail("the number of rows")
            self.exp = s[3]
        elif s[0] == "ns":
            if s[2] != "N": self.fail(f"namespace of {s[2]} rows")
            self.ns = s[1]; self.nslist.append(s[1])
        elif s[0] in ("constant", "commit"): self.decl[self.ns, s[1]] = s[2]
        elif s[0] == "pol": self.pols[self.ns, s[1]] = self.poly(s[2], self.ns)
        elif s[0] == "connect":
            if self.conn is not None or len(s[1]) != len(s[2]): self.fail("connection")
            l, r = ([next(iter(self.poly(x, self.ns)))[0] for x in y] for y in (s[1], s[2]))
            self.conn = set(zip(l, r))
        elif s[0] == "id":
            p = pa(self.poly(s[1], self.ns), self.poly(s[2], self.ns), -1)
            sel = [g for g in GATES if all(m.count(g) == 1 for m in p)]
            if not p: return
            if len(sel) != 1: self.fail("an identity without a selector")
            self.gates.setdefault(sel[0], []).append({tuple(x for x in m if x != sel[0]): c for m, c in p.items()})
        else: raise Undecided(s[0])

    def chain(self, kind, first, last):
        """the runs cover first..last-1 exactly once, in order; L may go on further"""
        at = first
        for a, b in self.runs[kind]:
            if not self.yes(a, "==", at): raise Undecided(f"{kind} numbers are not consecutive")
            at = b
        if self.yes(at, "==", last) or kind == "L" and self.yes(at, ">=", last): return
        if isinstance(self.e.norm(psub(at, last)), int): self.fail(f"{kind}: {at} in all, not {last}")
        raise Undecided(f"{kind}: the number of statements")

    def finish(self, bits):
        e = self.e
        if self.exp is None or not self.yes(self.exp, "==", bits): self.fail("the number of rows is not 2^n_bits")
        if self.nslist != ["Global", "Compressor"]: raise Undecided("namespaces")
        self.chain("pub", 0, self.n)
        self.chain("pin", 0, self.n)
        rows = e.divc(padd(self.n, RING - 1), RING)[1] if not isinstance(self.n, int) else -(-self.n // RING)
        if isinstance(rows, int): rows = max(rows, 1)
        elif e.decide(e.cmp("==", rows, 0)): rows = 1
        self.chain("L", 1, padd(rows, 1))
        if self.decl.get(("Compressor", "a")) != 12 or self.decl.get(("Compressor", "C")) != 12 or self.decl.get(("Compressor", "S")) != 12: self.fail("columns")
        if self.conn != {(f"a[{i}]", f"S[{i}]") for i in range(12)}: self.fail("connections")
        want = gates()
        if set(self.gates) != set(want): self.fail(f"gates {sorted(self.gates)}")
        for g in want:
            x, y = span(self.gates[g]), span(want[g])
            if x != y:
                k = next((l for (l, _), (m, _) in zip(x, y) if l != m), None)
                raise Fail(f"{g}: the rows accepted are not those of the operation", {"t": "pil", "gate": g})


GATES = ("GATE", "POSEIDON12", "CMULADD", "EVPOL4", "FFT4")


def gates():
    import json, os
    a = [pv(f"a[{i}]") for i in range(12)]
    n = [pv(f"a[{i}]'") for i in range(12)]
    C = [pv(f"C[{i}]") for i in range(12)]
    G = {}
    # q_M x y + q_L x + q_R y + q_O z + q_C = 0, two gates per selector half
    G["GATE"] = [pa(pa(pa(pa(pm(C[b + 3], pm(a[k], a[k + 1])), pm(C[b], a[k])), pm(C[b + 1], a[k + 1])), pm(C[b + 2], a[k + 2])), C[b + 4]) for b, k in ((0, 0), (0, 3), (6, 6), (6, 9))]
    # next row = M . S-box(row + C); in a partial round only the first cell goes through the S-box
    M = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "poseidon_gl.json")))["M"]
    S = []
    for i in range(12):
        x = pa(a[i], C[i])
        x2 = pm(x, x); x4 = pm(x2, x2); x7 = pm(pm(x4, x2), x)
        S.append(x7 if i == 0 else pa(pm(pv("PARTIAL"), pa(x, x7, -1)), x7))
    def lin(row):
        r = {}
        for k, s in zip(row, S): r = pa(r, s, k)
        return r
    G["POSEIDON12"] = [pa(n[i], lin(M[i]), -1) for i in range(12)]

    def mul3(x, y):     # modulo X^3 - X - 1
        d = [{} for _ in range(5)]
        for i in range(3):
            for j in range(3): d[i + j] = pa(d[i + j], pm(x[i], y[j]))
        return [pa(d[0], d[3]), pa(pa(d[1], d[3]), d[4]), pa(d[2], d[4])]
    add3 = lambda x, y: [pa(u, v) for u, v in zip(x, y)]
    # (x + C0..2) C9 (y + C3..5) + (z + C6..8) C10
    x = [pm(pa(a[i], C[i]), C[9]) for i in range(3)]
    y = [pa(a[i], C[i]) for i in range(3, 6)]
    z = [pm(pa(a[i], C[i]), C[10]) for i in range(6, 9)]
    G["CMULADD"] = [pa(a[9 + i], v, -1) for i, v in enumerate(add3(mul3(x, y), z))]
    # d0 + d1 z + d2 z^2 + d3 z^3 + d4 z^4, coefficients in the row and the first triple of the next one, z and the value there too
    acc = n[0:3]
    for k in (9, 6, 3, 0): acc = add3(mul3(acc, n[3:6]), a[k:k + 3])
    G["EVPOL4"] = [pa(n[6 + i], v, -1) for i, v in enumerate(acc)]
    # four points (C0..C5) and two pairs of two points (C6..C8), coordinate by coordinate
    G["FFT4"] = []
    for c in range(3):
        x = [a[3 * k + c] for k in range(4)]
        e4, o4 = [pa(pm(C[0], x[0]), pm(C[1], x[1]), s) for s in (1, -1)], [pa(pm(C[2], x[2]), pm(C[3], x[3])), pa(pm(C[4], x[2]), pm(C[5], x[3]), -1)]
        four = [pa(e4[0], o4[0]), pa(e4[1], o4[1]), pa(e4[0], o4[0], -1), pa(e4[1], o4[1], -1)]
        two = [pa(pm(C[6], x[0]), pm(C[7], x[1]), s) for s in (1, -1)] + [pa(pm(C[6], x[2]), pm(C[8], x[3]), s) for s in (1, -1)]
        G["FFT4"] += [pa(n[3 * k + c], pa(four[k], two[k]), -1) for k in range(4)]
    return G


F = "recursion/src/compressor12/compressor12_pil.rs"


def engine():
    eng = Engine(prog([F]))
    eng.contracts["str"] = eng.contracts["String"] = Doc()
    eng.loop_bound, eng.max_paths = 4096, 400
    return eng


def call(eng, nb, n):
    m = eng.P.mods["compressor12_pil"]
    if "render" not in m.fns: raise rast.Missing("render")
    return eng.call_fn((m, None, m.fns["render"], None), [I("usize", nb), I("usize", n)])


def judge(eng, v, nb, n, fams):
    text, holes = pieces(eng, v)
    d = Doc25(eng, n, fams)
    try:
        for s in Parse(text, holes).stmts(): d.add(s)
    except Bad as b: raise Undecided(f"text not understood: {b}")
    d.finish(nb)


def c25():
    obls = []

    def one(nb, n):
        def run():
            eng = engine()
            cnt = [0]

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Fail(f"panics: {o.val}", {"t": "pil", "nb": nb, "n": n})
                try: judge(eng, o.val, nb, n, {})
                except Fail as f: raise Fail(str(f), {"nb": nb, "n": n, **f.cex})
            eng.on_path = on
            eng.explore(lambda: call(eng, nb, n))
            return info(eng, cnt[0])
        return run
    for nb, n in [(5, n) for n in list(range(0, 27)) + [35, 36, 37, 47, 48, 49, 60, 100, 119, 120, 121, 143, 144, 145]] + [(0, 1), (17, 3), (23, 12), (24, 50)]:
        obls.append(Obl(f"render({nb}, {n})", F + " render", f"bounded ({n} publics): every public pinned to its cell, the gates are the operations", one(nb, n), "vc (text read back, normal forms), bounded"))

    def every():
        from seq import prove_all
        fams = {}

        def mkeng():
            eng = engine()
            eng.loop_bound = 16
            eng.n = eng.insym("usize", "n", 0, 1 << 32).e
            eng.nb = eng.insym("usize", "bits", 0, 64).e
            eng.sizes = {"n": eng.n}
            cur = {}

            def idof(v0): return vkey_text(eng, v0)

            def at(t, v0):
                if t == 0: return v0
                return eng.concat([v0, Op("loop", (Str(str(idof(v0))),), "str")])

            def ok(eng_, v, t, v0):
                a, b = (list(x.a) if isinstance(x, Op) and x.f == "fmt" else [x] for x in (eng.deref(v), eng.deref(at(t, v0))))
                # the text before this iteration is kept as it was
                k = 0
                while k < len(b) and k < len(a) and vkey(a[k]) == vkey(b[k]): k += 1
                rest = a[k:]
                if k < len(b):
                    if k != len(b) - 1 or not (k < len(a) and isinstance(a[k], Str) and isinstance(b[k], Str) and a[k].v.startswith(b[k].v)): return False
                    rest = [Str(a[k].v[len(b[k].v):])] + a[k + 1:]
                if not rest: return False
                text, holes = pieces(eng, Op("fmt", rest, "str"))
                d = Doc25(eng, eng.n, {})
                fam = []
                try: ss = Parse(text, holes).stmts()
                except Bad: return False
                for s in ss:
                    p = d.place(s)
                    if not p: raise Undecided("a statement in a loop over the publics")
                    c = eng.norm(psub(p[1], t))
                    if not isinstance(c, int): raise Undecided("a number in a loop over the publics")
                    fam.append((p[0], c))
                i = idof(v0)
                if t == 0 and False: pass
                if i in fams and fams[i] != fam: raise Undecided("iterations differ")
                fams[i] = fam
                return True
            q = Inv("the text of the iterations so far", None, start=lambda v: isinstance(eng.deref(v), (Str, Op)))
            q.rel, q.at, q.ok = True, at, ok
            eng.invs = [q]
            eng.loopN = {}
            return eng

        def vkey_text(eng, v0):
            k = vkey(eng.deref(v0))
            return ids.setdefault(repr(k), len(ids))
        ids = {}

        def run(eng):
            cnt = [0]
            Ns = {}
            old = eng.invs[0].at

            def at(t, v0):
                r = old(t, v0)
                Ns[vkey_text(eng, v0)] = t
                return r
            eng.invs[0].at = at

            def th():
                Ns.clear()
                r = call(eng, eng.nb, eng.n)
                judge(eng, r, eng.nb, eng.n, {i: (Ns[i], fams[i]) for i in Ns if i in fams})
                return UNIT

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"panics: {o.val}")
            eng.on_path = on
            try: eng.explore(th)
            except Fail as f: raise Undecided(str(f))
            return info(eng, cnt[0])
        return prove_all(mkeng, run, "render")
    obls.append(Obl("render, every number of publics", F + " render", "for every number of rows and of publics: every public pinned to its cell, the gates are the operations", every, "vc (text read back, normal forms, z3)"))
    return obls
