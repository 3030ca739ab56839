"""C19-C22: R1CS and witness files, the synthesised circuit, values that cross the wasm boundary."""
from oblig import *
from files import *
from seq import Inv, SQ, yes, same, elem, Family, seqlen, prove_all, NMAX

FILES = ["algebraic-gpu/src/" + f for f in ("r1cs_file.rs", "reader.rs", "circom_circuit.rs")]
PR = {"bls": (52435875175126190479447740508185965837690552500527637822603658699938581184513, 32, 0),
      "bn": (21888242871839275222246405745257275088548364400416034343698204186575808495617, 32, 1), "gl": (P64, 8, 2)}
ORD6 = [(1, 2, 3), (2, 1, 3), (2, 3, 1), (3, 2, 1), (3, 1, 2), (1, 3, 2)]


class Ctx:
    def __init__(self, f):
        self.p, self.n, _ = PR[f]
        self.eng = install(Engine(prog(FILES)), self.p, self.n)
        m = self.eng.P.mods["r1cs_file"]
        self.fn = lambda mod, n: (self.eng.P.mods[mod], None, self.eng.P.mods[mod].fns[n], None)

    def call(self, mod, n, data):
        return self.eng.call_fn(self.fn(mod, n), [Ref(Cell(self.eng.contracts[RD].new(data)))], [TyRef(RD), TyRef(E)] if self.fn(mod, n)[2]["gen"]["names"][0]["n"] == "R" else [TyRef(E), TyRef(RD)])


class Mod:
    """a circuit with given shape and unknown numbers, and its encoding"""

    def __init__(self, c, shape, nw, npo=1, npi=1, gates=(), uses=(), fixed=None):
        eng, n = c.eng, c.n
        symbytes = globals()["symbytes"]
        if fixed is not None:
            seed = [fixed]

            def symbytes(eng, name, n):
                seed[0] = seed[0] * 0x9E3779B97F4A7C15 % (1 << 61)
                x = seed[0] % min(c.p, 1 << 8 * n)
                return le(x, n), x
        self.c, self.nw, self.npo, self.npi = c, nw, npo, npi
        self.b = {}
        self.nprv_b, self.nprv = symbytes(eng, "nprv", 4)
        self.lab_b, self.lab = symbytes(eng, "labels", 8)
        self.cons, cb = [], []
        for i, t in enumerate(shape):
            k = []
            for j, m in enumerate(t):
                cb += u32(m)
                ts = []
                for q in range(m):
                    wb, w = symbytes(eng, f"w{i}{j}{q}", 4)
                    eb, e = symbytes(eng, f"c{i}{j}{q}", n)
                    eng.assume(eng.cmp("<", e, c.p))
                    cb += wb + eb
                    ts.append((w, e))
                k.append(ts)
            self.cons.append(k)
        self.map, mb = [0], u64(0)
        for i in range(1, nw):
            b, e = symbytes(eng, f"m{i}", 8)
            self.map.append(e); mb += b
        self.head = dict(fs=u32(n), prime=le(c.p, n), nw=u32(nw), npo=u32(npo), npi=u32(npi), nprv=self.nprv_b, lab=self.lab_b, nc=u32(len(shape)))
        self.sec = {2: cb, 3: mb}
        self.gates, self.uses = [], []
        if gates is not None and gates != ():
            b = u32(len(gates))
            for i, (nm, k) in enumerate(gates):
                b += [I("u8", x) for x in nm.encode()] + [I("u8", 0)] + u32(k)
                ps = []
                for j in range(k):
                    eb, e = symbytes(eng, f"g{i}{j}", n); eng.assume(eng.cmp("<", e, c.p)); b += eb; ps.append(e)
                self.gates.append((nm, ps))
            self.sec[4] = b
        if uses != ():
            b = u32(len(uses))
            for i, k in enumerate(uses):
                ib, ie = symbytes(eng, f"u{i}", 4)
                b += ib + u32(k)
                ss = []
                for j in range(k):
                    sb, s = symbytes(eng, f"u{i}s{j}", 8); b += sb; ss.append(s)
                self.uses.append((ie, ss))
            self.sec[5] = b

    def header(self): return [x for k in ("fs", "prime", "nw", "npo", "npi", "nprv", "lab", "nc") for x in self.head[k]]

    def file(self, order, extra=(), magic=b"r1cs", version=u32(1), nsec=None, drop=None):
        self.sec[1] = self.header()
        self.sec.update({t: b for t, b in extra})
        order = [t for t in order if t != drop]
        o = [I("u8", x) for x in magic] + version + (u32(len(order)) if nsec is None else nsec)
        for t in order: o += u32(t) + u64(len(self.sec[t])) + self.sec[t]
        return o


def result(eng, o, what, cex):
    if o.kind == "panic": raise Fail(f"{what}: panic: {o.val}", cex)
    v = eng.deref(o.val)
    if not isinstance(v, En) or v.v not in ("Ok", "Err"): raise Undecided(f"{what}: result {v}")
    return v


def eqi(eng, a, e, what, cex):
    a = eng.deref(a)
    if not isinstance(a, I): raise Undecided(f"{what}: not an integer")
    r = eng.prove(eng.cmp("==", a.e, e))
    if r == "ok": return
    if r == "unknown": raise Undecided(f"solver gave up: {what}")
    raise Fail(f"{what} differs", cex)


def sortt(eng, ts):
    """stable by wire"""
    out = []
    for t in ts:
        k = len(out)
        while k > 0 and not eng.decide(eng.cmp("<=", out[k - 1][0], t[0])): k -= 1
        out.insert(k, t)
    return out


def check_cons(eng, got, cons, cex):
    got = eng.deref(got).e
    if len(got) != len(cons): raise Fail(f"{len(got)} constraints, {len(cons)} in the file", cex)
    for i, (g, c) in enumerate(zip(got, cons)):
        g = eng.deref(g)
        for j in range(3):
            gs = eng.deref(g.e[j]).e
            if len(gs) != len(c[j]): raise Fail(f"constraint {i} part {j}: {len(gs)} terms for {len(c[j])}", cex)
            for q, (x, (w, e)) in enumerate(zip(gs, sortt(eng, c[j]))):
                x = eng.deref(x)
                eqi(eng, x.e[0], w, f"constraint {i} part {j} wire {q}", cex)
                eqi(eng, eng.deref(x.e[1]).f["v"], e, f"constraint {i} part {j} coefficient {q}", cex)


def good(c, m, o, cex):
    eng = c.eng
    v = result(eng, o, "well-formed file", cex)
    if v.v != "Ok": raise Fail("a well-formed file is refused", cex)
    f = eng.deref(v.a[0]).f
    h = eng.deref(f["header"]).f
    for k, e in (("n_wires", m.nw), ("n_pub_out", m.npo), ("n_pub_in", m.npi), ("n_prv_in", m.nprv), ("n_labels", m.lab), ("n_constraints", len(m.cons)), ("field_size", c.n)):
        eqi(eng, h[k], e, k, cex)
    pb = eng.deref(h["prime_size"]).e
    if len(pb) != c.n: raise Fail("length of the prime", cex)
    for x, y in zip(pb, le(c.p, c.n)): eqi(eng, x, y.e, "prime", cex)
    check_cons(eng, f["constraints"], m.cons, cex)
    mp = eng.deref(f["wire_mapping"]).e
    if len(mp) != m.nw: raise Fail("wire map length", cex)
    for k, (x, e) in enumerate(zip(mp, m.map)): eqi(eng, x, e, f"wire map {k}", cex)
    g = eng.deref(f["custom_gates"]).e
    if len(g) != len(m.gates): raise Fail("custom gates", cex)
    for x, (nm, ps) in zip(g, m.gates):
        x = eng.deref(x).f
        if not isinstance(x["template_name"], Str) or x["template_name"].v != nm: raise Fail("custom gate name", cex)
        q = eng.deref(x["parameters"]).e
        if len(q) != len(ps): raise Fail("custom gate parameters", cex)
        for a, b in zip(q, ps): eqi(eng, eng.deref(a).f["v"], b, "custom gate parameter", cex)
    u = eng.deref(f["custom_gates_uses"]).e
    if len(u) != len(m.uses): raise Fail("custom gate uses", cex)
    for x, (i, ss) in zip(u, m.uses):
        x = eng.deref(x).f
        eqi(eng, x["id"], i, "custom gate use", cex)
        q = eng.deref(x["signals"]).e
        if len(q) != len(ss): raise Fail("custom gate signals", cex)
        for a, b in zip(q, ss): eqi(eng, a, b, "custom gate signal", cex)


SHAPES = [(), ((0, 0, 0),), ((1, 0, 1),), ((2, 1, 0),), ((0, 3, 1),), ((1, 1, 1), (1, 0, 2)), ((1, 1, 1), (0, 0, 0), (2, 0, 1))]


def c19():
    obls = []

    def explore(c, thunk, on):
        n = [0]

        def cb(o): n[0] += 1; on(o)
        c.eng.on_path = cb
        c.eng.explore(thunk)
        return info(c.eng, n[0])

    def wf(f, k, order, shape, nw, npo, npi, extra, gates, uses, entry="from_reader"):
        def run():
            c = Ctx(f)
            cex = dict(k="wf", f=f, order=ORD6.index(tuple(t for t in order if t <= 3 and t)), nc=len(shape), nw=nw, npo=npo, npi=npi, extra=extra)
            st = {}

            def thunk():
                m = st["m"] = Mod(c, shape, nw, npo, npi, gates, uses)
                ex = [(t, [I("u8", 165)] * (t % 61)) for t in order if t > 5 or t == 0]
                d = m.file(order, ex)
                return c.call("r1cs_file" if entry == "from_reader" else "reader", entry, d)

            def on(o):
                m = st["m"]
                if entry == "from_reader": return good(c, m, o, cex)
                if o.kind == "panic": raise Fail(f"loading a well-formed file panics: {o.val}", cex)
                r, wm = c.eng.deref(o.val).e
                r = c.eng.deref(r).f
                ni = 1 + npo + npi
                for a, b in (("num_inputs", ni), ("num_aux", nw - ni), ("num_variables", nw), ("num_outputs", npo)): eqi(c.eng, r[a], b, a, cex)
                check_cons(c.eng, r["constraints"], m.cons, cex)
                wm = c.eng.deref(wm).e
                if len(wm) != nw: raise Fail("wire map length", cex)
                for k, (x, e) in enumerate(zip(wm, m.map)): eqi(c.eng, x, e, f"wire map {k}", cex)
            return explore(c, thunk, on)
        obls.append(Obl(f"{entry} {f} well-formed {k}", f"algebraic-gpu/src/{'r1cs_file' if entry == 'from_reader' else 'reader'}.rs {entry}",
                        f"file of sections {order} with constraint shapes {shape}, {nw} wires, {npo}+{npi} public, any numbers: the result is the encoded circuit", run))

    def bad(f, k, what, build, shape=((1, 1, 0),), nw=4, fixed=None, **hint):
        def run():
            c = Ctx(f)
            cex = dict(k="bad", f=f, what=k, nc=len(shape), nw=nw, **hint)

            def thunk():
                m = Mod(c, shape, nw, 1, 1, fixed=fixed)
                return c.call("r1cs_file", "from_reader", build(c, m))

            def on(o):
                if result(c.eng, o, what, cex).v == "Ok": raise Fail(f"read without an error: {what}", cex)
            return explore(c, thunk, on)
        obls.append(Obl(f"from_reader {f} refuses {k}", "algebraic-gpu/src/r1cs_file.rs from_reader", f"{what}: an error on every path", run))

    for f in PR:
        for i, o in enumerate(ORD6): wf(f, f"order {i}", o, ((1, 0, 1),), 4, 1, 1, 0, (), ())
        for i, s in enumerate(SHAPES): wf(f, f"shape {i}", ORD6[i % 6], s, 3 + i, i % 2, 1 + i % 2, 0, (), ())
        for i, (nw, a, b) in enumerate(((1, 0, 0), (2, 0, 0), (2, 1, 0), (2, 0, 1), (6, 3, 2), (9, 2, 5))): wf(f, f"counts {i}", ORD6[i], ((1, 1, 0),), nw, a, b, 0, (), ())
        wf(f, "unknown sections", (9, 2, 77, 1, 0, 3), ((1, 0, 1),), 3, 1, 0, 12, (), ())
        wf(f, "custom gates", (4, 2, 1, 5, 3), ((1, 0, 1),), 3, 1, 0, 3, (("ab", 2), ("", 0)), (2, 0, 1))
        wf(f, "custom list only", (2, 1, 3, 4), ((1, 0, 0),), 3, 1, 0, 1, (("gate", 1),), ())
        wf(f, "custom uses only", (5, 2, 1, 3), ((1, 0, 0),), 3, 1, 0, 2, (), (1, 3))
        for i in (0, 4): wf(f, f"loaded {i}", ORD6[i], SHAPES[5 if i else 3], 5 + i, 1, i // 2, 0, (), (), "load_r1cs_from_bin")

        def notval(c, name, n, val):
            b, e = symbytes(c.eng, name, n)
            c.eng.assume(c.eng.bnot(c.eng.cmp("==", e, val)))
            return b
        order = ORD6[0]
        bad(f, "magic", "any other magic", lambda c, m: notval(c, "x", 4, int.from_bytes(b"r1cs", "little")) + m.file(order)[4:], mu=2)
        bad(f, "version", "any other version", lambda c, m: m.file(order, version=notval(c, "x", 4, 1)), mu=3)

        def prime(c, m, order=order):
            m.head["prime"] = notval(c, "x", c.n, c.p)
            return m.file(order)
        bad(f, "prime", "any other prime", prime, mu=4)
        for fs in (0, 1, 4, 8, 16, 31, 32, 33, 64):
            if fs == PR[f][1]: continue

            def fsz(c, m, fs=fs, fit=False):
                m.head["fs"] = u32(fs)
                if fit: m.head["prime"] = le(c.p, fs) if fs else []
                return m.file(order)
            bad(f, f"field size {fs}", f"field size {fs}", fsz, mu=5, fs=fs)
            bad(f, f"field size {fs} with a prime of that size", f"field size {fs}", lambda c, m, fs=fs: fsz(c, m, fs, True), mu=5, fs=fs)
        for o2 in (0, 3, 4):
            for s in (1, 2, 3):
                for d in (1, -1, 4, 8, -8, 36):
                    def size(c, m, s=s, d=d, o2=o2):
                        m.file(ORD6[o2])
                        b = m.sec[s]
                        b2 = b + [I("u8", 7)] * d if d > 0 else b[:d]
                        sv = Mod.header
                        m.sec[s] = b2
                        out = [I("u8", x) for x in b"r1cs"] + u32(1) + u32(3)
                        for t in ORD6[o2]: out += u32(t) + u64(len(m.sec[t])) + m.sec[t]
                        return out
                    bad(f, f"section {s} {d:+} bytes (order {o2})", f"section {s} with {d:+} bytes", size, mu=6 if d > 0 else 7, s=s, d=abs(d))
        for s in (1, 2, 3): bad(f, f"no section {s}", f"section {s} missing", lambda c, m, s=s: m.file(order, drop=s), mu=11, s=s)
        for x in (4, 5, 200): bad(f, f"{x} sections announced", f"{x} sections announced, 3 there", lambda c, m, x=x: m.file(order, nsec=u32(x)), mu=12)
        for x in (0, 2, 3, 5, 8, 300):
            def wires(c, m, x=x):
                m.head["nw"] = u32(x); return m.file(order)
            bad(f, f"{x} wires for 4", f"{x} wires, 4 in the map", wires, mu=9)
        for x in (0, 2, 3, 258):
            def ncons(c, m, x=x):
                m.head["nc"] = u32(x); return m.file(ORD6[1])
            bad(f, f"{x} constraints for 1", f"{x} constraints, 1 in the section", ncons, mu=10)
            bad(f, f"{x} constraints for 1, at the end", f"{x} constraints, 1 in the section", lambda c, m, x=x: (m.head.update(nc=u32(x)), m.file((1, 3, 2)))[1], mu=10)

        def wire0(c, m):
            m.sec[3] = notval(c, "x", 8, 0) + m.sec[3][8:]; return m.file(order)
        bad(f, "wire 0 not mapped to 0", "wire 0 mapped to anything else", wire0, mu=8)

        def coef(c, m, o2=0):
            b, e = symbytes(c.eng, "x", c.n)
            c.eng.assume(c.eng.cmp(">=", e, c.p))
            m.sec[2] = m.sec[2][:8] + b + m.sec[2][8 + c.n:]
            return m.file(ORD6[o2])
        bad(f, "coefficient not below the prime", "a coefficient that is not a field element", coef, mu=13)
        bad(f, "coefficient not below the prime, last section", "a coefficient that is not a field element", lambda c, m: coef(c, m, 5), mu=13)
        # sections of unknown content
        def anysec(s, L, o2, shape=((1, 1, 0),), nw=4, build=None):
            def run():
                c = Ctx(f)
                eng = c.eng
                cex = dict(k="any", f=f, s=s, len=L, nc=len(shape), nw=nw)
                st = {}

                def thunk():
                    m = st["m"] = Mod(c, shape, nw, 1, 1)
                    st["b"] = [eng.insym("u8", f"b{i}") for i in range(L)]
                    if s == 2:
                        m.head["nc"], st["nc"] = symbytes(eng, "nc", 4)
                    elif s == 3:
                        m.head["nw"], st["nw"] = symbytes(eng, "nw", 4)
                    m.file(ORD6[o2])
                    m.sec[s] = st["b"]
                    out = [I("u8", x) for x in b"r1cs"] + u32(1) + u32(3)
                    for t in ORD6[o2]: out += u32(t) + u64(len(m.sec[t])) + m.sec[t]
                    return c.call("r1cs_file", "from_reader", out)

                def on(o):
                    m, b = st["m"], [x.e for x in st["b"]]

                    def num(at, k):
                        e = 0
                        for i in range(k): e = padd(e, pscale(b[at + i], 1 << 8 * i))
                        return e

                    def enc():
                        """the specification: whether these bytes encode the section, and what"""
                        if s == 1:
                            if L < 4 or not eng.decide(eng.cmp("==", num(0, 4), c.n)) or L != 32 + c.n: return False
                            if not eng.decide(eng.cmp("==", num(4, c.n), c.p)): return False
                            q = 4 + c.n
                            m.npo, m.npi, m.nprv, m.lab = num(q + 4, 4), num(q + 8, 4), num(q + 12, 4), num(q + 16, 8)
                            return (eng.decide(eng.cmp("==", num(q, 4), nw)) and eng.decide(eng.cmp("==", num(q + 24, 4), len(shape)))
                                    and eng.decide(eng.cmp("<=", padd(padd(m.npo, m.npi), 1), nw)))
                        if s == 3:
                            m.map = [num(8 * i, 8) for i in range(L // 8)]
                            m.nw = L // 8
                            return L % 8 == 0 and m.nw >= 3 and eng.decide(eng.cmp("==", st["nw"], m.nw)) and eng.decide(eng.cmp("==", m.map[0], 0))
                        m.cons, at, i = [], 0, 0
                        while eng.decide(eng.cmp("<", i, st["nc"])):
                            i += 1
                            k = []
                            for _ in range(3):
                                if at + 4 > L: return False
                                t, q, at = num(at, 4), 0, at + 4
                                ts = []
                                while eng.decide(eng.cmp("<", q, t)):
                                    q += 1
                                    if at + 4 + c.n > L: return False
                                    e = num(at + 4, c.n)
                                    if not eng.decide(eng.cmp("<", e, c.p)): return False
                                    ts.append((num(at, 4), e))
                                    at += 4 + c.n
                                k.append(ts)
                            m.cons.append(k)
                        return at == L
                    v = result(eng, o, f"section {s} of {L} unknown bytes", cex)
                    ok = enc()
                    if ok: return good(c, m, o, cex)
                    if v.v == "Ok": raise Fail(f"section {s} of {L} bytes that encode no section is read without an error", cex)
                return explore(c, thunk, on)
            obls.append(Obl(f"from_reader {f} section {s} of {L} unknown bytes (order {o2})", "algebraic-gpu/src/r1cs_file.rs from_reader",
                            "whatever the bytes and the announced counts: the encoded circuit, or an error when they encode none", run))
        nb = PR[f][1]
        for o2 in (0, 5):
            for L in (0, 3, 4, 24 + nb, 31 + nb, 32 + nb, 33 + nb, 40 + nb): anysec(1, L, o2)
            for L in (0, 7, 8, 16, 23, 24, 25, 32, 40): anysec(3, L, o2)
            u = 4 + nb
            for L in (0, 1, 4, 11, 12) if o2 == 0 else sorted({0, 1, 4, 11, 12, 12 + u - 1, 12 + u, 13 + u, 24}): anysec(2, L, o2)

        def anysize(s, o2):
            def size(c, m):
                m.file(ORD6[o2])
                out = [I("u8", x) for x in b"r1cs"] + u32(1) + u32(3)
                for t in ORD6[o2]:
                    if t == s:
                        b, e = symbytes(c.eng, "size", 8)
                        c.eng.assume(c.eng.bnot(c.eng.cmp("==", e, len(m.sec[t]))))
                    out += u32(t) + (b if t == s else u64(len(m.sec[t]))) + m.sec[t]
                return out
            bad(f, f"any other size of section {s} (order {o2})", f"section {s} announced with another size (fixed contents)", size, shape=((1, 0, 0),), mu=6, s=s, fixed=3 + 2 * o2)
        for o2 in range(6):
            for s in (1, 2, 3): anysize(s, o2)
        for o2 in (0, 2, 5):
            def trunc(f=f, o2=o2):
                c = Ctx(f)
                n = [0]
                L = [1]
                k = 0
                while k < L[0]:
                    cex = dict(k="bad", f=f, what="truncation", mu=1, nc=1, nw=4, at=k)

                    def thunk(k=k):
                        m = Mod(c, ((1, 1, 0),), 4, 1, 1)
                        d = m.file(ORD6[o2])
                        L[0] = len(d)
                        return c.call("r1cs_file", "from_reader", d[:k])

                    def on(o, k=k, cex=cex):
                        n[0] += 1
                        if result(c.eng, o, f"first {k} bytes", cex).v == "Ok": raise Fail(f"the first {k} of {L[0]} bytes are read without an error", cex)
                    c.eng.on_path = on
                    c.eng.explore(thunk)
                    k += 1
                return info(c.eng, n[0])
            obls.append(Obl(f"from_reader {f} refuses every prefix (order {o2})", "algebraic-gpu/src/r1cs_file.rs from_reader", "every proper prefix of a file (one constraint, four wires, any numbers): an error", trunc))
    return obls
    return obls


def explore(c, thunk, on):
    n = [0]

    def cb(o): n[0] += 1; on(o)
    c.eng.on_path = cb
    c.eng.explore(thunk)
    return info(c.eng, n[0])


# ------------------------------------------------------------------ C20
def wfile(c, ws, version=u32(2), **ch):
    """the encoding of a witness"""
    h = dict(magic=le(int.from_bytes(b"wtns", "little"), 4), version=version, ns=u32(2), t1=u32(1), s1=u64(40), fs=u32(32), prime=le(c.p, 32), n=u32(len(ws)), t2=u32(2),
             s2=u64(32 * len(ws)), body=[x for w in ws for x in w])
    h.update(ch)
    return [x for k in h for x in h[k]]


def c20():
    obls = []
    where = "algebraic-gpu/src/reader.rs load_witness_from_bin_reader"

    def anyfile(f, L):
        def run():
            c = Ctx(f)
            eng = c.eng
            cex = dict(k="any", f=f, len=L)
            st = {}

            def thunk():
                b = st["b"] = [eng.insym("u8", f"b{i}") for i in range(L)]
                return c.call("reader", "load_witness_from_bin_reader", b)

            def on(o):
                v = result(eng, o, f"{L} unknown bytes", cex)
                b = [x.e for x in st["b"]]

                def num(at, k):
                    e = 0
                    for i in range(k): e = padd(e, pscale(b[at + i], 1 << 8 * i))
                    return e

                def enc():
                    n = (L - 76) // 32
                    if f == "gl" or L < 76 or (L - 76) % 32: return None  # values of 32 bytes only
                    for at, k, x in ((0, 4, int.from_bytes(b"wtns", "little")), (8, 4, 2), (12, 4, 1), (16, 8, 40), (24, 4, 32), (28, 32, c.p), (60, 4, n), (64, 4, 2), (68, 8, 32 * n)):
                        if not eng.decide(eng.cmp("==", num(at, k), x)): return None
                    if not eng.decide(eng.cmp("<=", num(4, 4), 2)): return None
                    ws = [num(76 + 32 * i, 32) for i in range(n)]
                    return ws if all(eng.decide(eng.cmp("<", w, c.p)) for w in ws) else None
                ws = enc()
                if ws is None:
                    if v.v == "Ok": raise Fail(f"{L} bytes that encode no witness are read without an error", cex)
                    return
                if v.v != "Ok": raise Fail("a well-formed witness file is refused", cex)
                got = eng.deref(v.a[0]).e
                if len(got) != len(ws): raise Fail(f"{len(got)} values for {len(ws)}", cex)
                for i, (x, w) in enumerate(zip(got, ws)): eqi(eng, eng.deref(x).f["v"], w, f"value {i}", cex)
            return explore(c, thunk, on)
        obls.append(Obl(f"load_witness {f} {L} unknown bytes", where, "the encoded witness, or an error when the bytes encode none", run))
    for f in ("bls", "bn", "gl"):
        for L in list(range(77)) + [k for i in range(1, 13) for k in (76 + 32 * i - 1, 76 + 32 * i, 76 + 32 * i + 1)] + [80, 92, 107, 110, 460 + 4, 76 + 32 * 20, 76 + 32 * 32]: anyfile(f, L)

    for f in ("bls", "bn", "gl"):
        obls.append(Obl(f"load_witness {f}, any file", where, "for every file of every length: exactly the values it encodes, or an error when it encodes none", c20all(f), ALL))

    def count(f, n, m):
        """n announced, m there"""
        def run():
            c = Ctx(f)
            cex = dict(k="count", f=f, n=n, m=m)

            def thunk():
                ws = []
                for i in range(m):
                    b, e = symbytes(c.eng, f"w{i}", 32)
                    c.eng.assume(c.eng.cmp("<", e, c.p))
                    ws.append(b)
                s, _ = symbytes(c.eng, "size", 8)
                return c.call("reader", "load_witness_from_bin_reader", wfile(c, ws, n=u32(n), s2=s))

            def on(o):
                if result(c.eng, o, f"{n} values announced, {m} there", cex).v == "Ok": raise Fail(f"{n} values announced, {m} there: read without an error", cex)
            return explore(c, thunk, on)
        obls.append(Obl(f"load_witness {f} refuses {n} for {m}", where, "any announced size: an error", run))
    for f in ("bls", "bn"):
        for n, m in ((0, 1), (1, 0), (1, 2), (2, 1), (3, 5), (5, 3), (1 << 27, 1), ((1 << 27) + 1, 1), (1 << 31, 0), (2**32 - 1, 2)): count(f, n, m)
    return obls


ALL = "vc (loop invariants, z3)"


def unb(f, what, run, paths=4000):
    """an obligation over files of every length: run(c, file) sets c.eng.invs and explores"""
    def go():
        box = []

        def mkeng():
            c = Ctx(f)
            c.eng.loop_bound, c.eng.max_paths, c.eng.unroll = 128, paths, 100
            file = SFile(c.eng)
            c.eng.contracts[SRD] = SReader(file)
            c.eng.sizes = {"len": file.n}
            box[:] = [c, file]
            return c.eng
        return prove_all(mkeng, lambda eng: run(*box), what)
    return go


def c20all(f):
    def run(c, F):
        eng = c.eng
        val = lambda t: F.num(padd(76, pscale(t, 32)), 32)
        seen = []

        def el(t):
            e = val(t)
            eng.assume(eng.cmp("<", e, c.p))
            return fe(e)

        def took(v, t):
            v = eng.deref(v)
            n = eng.norm(padd(t, 1))
            if not isinstance(v, (SQ, V)) or not yes(eng, eng.cmp("==", seqlen(eng, v), n)): return False
            # the elements read before, then the one just read, which is an element of the field
            if not same(eng, elem(eng, v, t), fe(val(t))) or not yes(eng, eng.cmp("<", val(t), c.p)): return False
            if t == 0: return True
            j = eng.sym("j", 0, NMAX).e
            eng.assume(eng.cmp("<", j, t))
            return same(eng, elem(eng, v, j), el(j))
        def pos(t):
            p = eng.norm(padd(76, pscale(t, 32)))
            eng.assume(eng.cmp("<=", p, F.n))
            return St(SRD, {"pos": I("u64", p)})

        def at(v, p):
            v = eng.deref(v)
            return isinstance(v, St) and v.n == SRD and yes(eng, eng.cmp("==", v.f["pos"].e, p)) and yes(eng, eng.cmp("<=", p, F.n))
        eng.invs = [Inv("the bytes of the elements so far are read", pos, start=lambda v: at(v, 76), ok=lambda v, t: at(v, padd(108, pscale(t, 32)))),
                    Inv("the elements so far", lambda t: SQ(t, el), start=lambda v: isinstance(eng.deref(v), (SQ, V)) and yes(eng, eng.cmp("==", seqlen(eng, eng.deref(v)), 0)), ok=took)]
        cnt = [0]

        def thunk():
            fn = c.fn("reader", "load_witness_from_bin_reader")
            return eng.call_fn(fn, [Ref(Cell(F.reader()))], [TyRef(SRD), TyRef(E)] if fn[2]["gen"]["names"][0]["n"] == "R" else [TyRef(E), TyRef(SRD)])

        def wf():
            """is the header that of a witness file, and the file as long as it says?"""
            if f == "gl" or not eng.decide(eng.cmp(">=", F.n, 76)): return None
            for at, k, x in ((0, 4, int.from_bytes(b"wtns", "little")), (8, 4, 2), (12, 4, 1), (16, 8, 40), (24, 4, 32), (28, 32, c.p), (64, 4, 2)):
                if not eng.decide(eng.cmp("==", F.num(at, k), x)): return None
            if not eng.decide(eng.cmp("<=", F.num(4, 4), 2)): return None
            n = F.num(60, 4)
            for x in (F.num(68, 8), psub(F.n, 76)):
                if not eng.decide(eng.cmp("==", x, pscale(n, 32))): return None
            return n

        def on(o):
            cnt[0] += 1
            v = result(eng, o, "any bytes", {})
            n = wf()
            if v.v == "Ok":
                if n is None: raise Undecided("bytes that encode no witness are read without an error")
                if not same(eng, v.a[0], SQ(n, lambda j: fe(val(j)))): raise Undecided("the values read are not those of the file")
                j = eng.sym("j", 0, NMAX).e
                eng.assume(eng.cmp("<", j, n))
                got = elem(eng, eng.deref(v.a[0]), j)
                if not yes(eng, eng.cmp("<", val(j), c.p)): raise Undecided("a value that is no field element is accepted")
            elif n is not None:
                # refused: some element in the file is not below the modulus
                ts = [t for t in eng.cutts if eng.decide(eng.cmp("<", t, n))]
                if all(eng.decide(eng.cmp("<", val(t), c.p)) for t in ts): raise Undecided("a well-formed witness file is refused")
        eng.on_path = on
        eng.explore(thunk)
        return info(eng, cnt[0])
    return unb(f, "load_witness_from_bin_reader", run)


# ------------------------------------------------------------------ C21
def c21():
    obls = []
    S = "algebraic-gpu/src/circom_circuit.rs "

    def setup(f="bls"):
        c = Ctx(f)
        c.cs = CSys()
        c.eng.contracts["CS"] = c.cs
        return c

    def sym(eng, c, nm): return St(E, {"v": eng.sym(nm, 0, c.p - 1)})

    def circuit(c, ni, nw, shape, wit, wmap, extra, wires):
        """wires: 'sym' or a list of wire numbers, taken in turn"""
        eng = c.eng
        it = iter(wires) if wires != "sym" else None
        usz = lambda x: I("usize", x)
        cons = []
        for i, t in enumerate(shape):
            k = []
            for j, m in enumerate(t):
                k.append(V([T([usz(next(it)) if it else eng.insym("usize", f"w{i}{j}{q}", 0, nw - 1), sym(eng, c, f"c{i}{j}{q}")]) for q in range(m)]))
            cons.append(T(k))
        n = nw + extra
        c.w = [sym(eng, c, f"v{i}") for i in range(n)] if wit else None
        c.map = wmap
        r = St("circom_circuit::R1CS", {"num_inputs": usz(ni), "num_aux": usz(nw - ni), "num_variables": usz(nw), "num_outputs": usz(0), "constraints": V(cons), "custom_gates": V([]), "custom_gates_uses": V([])})
        c.cons = cons
        return St("circom_circuit::CircomCircuit", {"r1cs": r, "witness": Some(V(c.w)) if wit else NONE, "wire_mapping": Some(V([usz(x) for x in wmap])) if wmap is not None else NONE, "aux_offset": usz(0)})

    def method(c, name):
        f = c.eng.find_method("circom_circuit::CircomCircuit", name, [])
        if not f: raise Undecided(f"no {name}")
        return f

    def at(c, i): return c.w[c.map[i]] if c.map is not None else c.w[i]

    def sameval(c, a, b): return c.eng.prove(c.eng.cmp("==", a.f["v"].e, b.f["v"].e)) == "ok"

    def match(c, got, want, ni, what, cex):
        """the two formal sums are equal: term by term, in some order"""
        eng = c.eng
        got = [eng.deref(x) for x in eng.deref(got).f["t"].e]

        def var(w):
            if eng.decide(eng.cmp("<", w.e, ni)): return "Input", w.e
            return "Aux", psub(w.e, ni)
        left = list(got)
        for t in want:
            k, e = var(t.e[0])
            hit = None
            for x in left:
                ix = eng.deref(eng.deref(x.e[1]).a[0])
                if ix.v == k and eng.prove(eng.cmp("==", eng.deref(ix.a[0]).e, e)) == "ok" and sameval(c, eng.deref(x.e[0]), eng.deref(t.e[1])):
                    hit = x
                    break
            if hit is None: raise Fail(f"{what}: a term is missing or different", cex)
            left.remove(hit)
        if left: raise Fail(f"{what}: {len(left)} terms too many", cex)

    def syn(ni, nw, shape, wit, wmap=None, extra=0, wires="sym", fail=None, call=True, f="bls"):
        def run():
            c = setup(f)
            eng = c.eng
            c.cs.call, c.cs.fail = call, fail
            cex = dict(ni=ni, nw=nw, nc=len(shape), flags=(1 if wit else 0) | (2 if wmap is not None else 0))
            st = {}

            def thunk():
                ci = circuit(c, ni, nw, shape, wit, wmap, extra, wires)
                st["cs"] = Cell(c.cs.new())
                return eng.call_fn(method(c, "synthesize"), [ci, Ref(st["cs"])])

            def on(o):
                if o.kind == "panic": raise Fail(f"synthesis panics: {o.val}", cex)
                v = result(eng, o, "synthesis", cex)
                cs = st["cs"].v.f
                if fail is not None and fail < nw - 1:
                    if v.v == "Ok": raise Fail("synthesis succeeds although the constraint system refused an allocation", cex)
                    return
                if v.v != "Ok": raise Fail("synthesis fails", cex)
                if len(cs["i"].e) != ni - 1 or len(cs["a"].e) != nw - ni: raise Fail(f"{len(cs['i'].e)} inputs and {len(cs['a'].e)} auxiliary variables for {ni - 1} and {nw - ni}", cex)
                if wit and call:
                    for i in range(1, nw):
                        x = cs["i"].e[i - 1] if i < ni else cs["a"].e[i - ni]
                        if not sameval(c, x, at(c, i)): raise Fail(f"value of wire {i}", cex)
                got = cs["c"].e
                k = 0
                for i, t in enumerate(c.cons):
                    if (not t.e[0].e or not t.e[1].e) and not t.e[2].e:
                        # 0 = 0: enforced or not
                        if k < len(got) and (not eng.deref(got[k].e[0]).f["t"].e or not eng.deref(got[k].e[1]).f["t"].e) and not eng.deref(got[k].e[2]).f["t"].e: k += 1
                        continue
                    if k >= len(got): raise Fail(f"constraint {i} is not enforced", cex)
                    for j in range(3): match(c, got[k].e[j], t.e[j].e, ni, f"constraint {i} part {j}", cex)
                    k += 1
                if k != len(got): raise Fail(f"{len(got) - k} enforced constraints that the circuit does not have", cex)
            return explore(c, thunk, on)
        nm = f"synthesize {ni} inputs {nw} wires {shape}{' witness' if wit else ''}{' map ' + str(wmap) if wmap is not None else ''}{'' if wires == 'sym' else ' wires ' + str(wires)}{'' if fail is None else f' allocation {fail} refused'}"
        obls.append(Obl(nm[:200], S + "synthesize", "allocations and constraints are those of the R1CS, for all values and coefficients", run))

    def public(ni, nw, wit, wmap, extra=0):
        def run():
            c = setup()
            eng = c.eng
            cex = dict(ni=ni, nw=nw, nc=0, flags=(1 if wit else 0) | (2 if wmap is not None else 0))

            def thunk(): return eng.call_fn(method(c, "get_public_inputs"), [Ref(Cell(circuit(c, ni, nw, (), wit, wmap, extra, [])))])

            def on(o):
                if o.kind == "panic": raise Fail(f"panics: {o.val}", cex)
                v = eng.deref(o.val)
                if not wit:
                    if v.v != "None": raise Fail("public inputs without a witness", cex)
                    return
                if v.v != "Some": raise Fail("no public inputs", cex)
                got = eng.deref(v.a[0]).e
                if len(got) != ni - 1: raise Fail(f"{len(got)} public inputs for {ni - 1}", cex)
                for i, x in enumerate(got):
                    if not sameval(c, eng.deref(x), at(c, i + 1)): raise Fail(f"public input {i}", cex)
            return explore(c, thunk, on)
        obls.append(Obl(f"get_public_inputs {ni} of {nw}{' witness' if wit else ''}{' map ' + str(wmap) if wmap is not None else ''}", S + "get_public_inputs", "the public wires in order", run))
    def every(mode, what):
        """any number of wires, inputs, constraints and terms"""
        def go():
            box = []

            def mkeng():
                c = setup()
                c.eng.loop_bound, c.eng.max_paths, c.eng.unroll = 64, 4000, 8
                box[:] = [c]
                return c.eng
            return prove_all(mkeng, lambda eng: run(*box), what)

        def run(c):
            eng = c.eng
            c.cs.call = mode != "none"
            usz = lambda e: I("usize", eng.norm(e))
            ni = eng.insym("usize", "ni", 1, NMAX).e
            na = eng.insym("usize", "na", 0, NMAX).e
            nc = eng.insym("usize", "nc", 0, NMAX).e
            nw = padd(ni, na)
            extra = eng.insym("usize", "extra", 0, NMAX).e if mode == "map" else 0
            n = eng.norm(padd(nw, extra))
            eng.sizes = {"ni": ni, "na": na, "nc": nc}
            fail = c.cs.fail = eng.insym("usize", "fail", 0, 1 << 50).e
            wv = Family(eng, lambda i: sym(eng, c, "v"))
            mp = Family(eng, lambda i: eng.insym("usize", "m", 0, NMAX).e)

            def wmap(i):
                x = mp(i)
                eng.assume(eng.cmp("<", x, n))
                return usz(x)
            val = lambda i: wv(wmap(i).e) if mode == "map" else wv(eng.norm(i))
            part = [Family(eng, lambda t: (eng.insym("usize", "terms", 0, NMAX).e, Family(eng, lambda j: (eng.insym("usize", "wire", 0, NMAX).e, sym(eng, c, "c"))))) for _ in range(3)]

            def term(k, t, j):
                w, x = part[k](t)[1](j)
                eng.assume(eng.cmp("<", w, nw))
                return T([usz(w), x])

            def named(t):
                w, x = (eng.deref(y) for y in eng.deref(t).e)
                ix = En("Index", "Input", (w,)) if eng.decide(eng.cmp("<", w.e, ni)) else En("Index", "Aux", (usz(psub(w.e, ni)),))
                return T([x, En("Variable", "Var", (ix,))])
            con = lambda t: T([SQ(part[k](t)[0], lambda j, k=k: term(k, t, j)) for k in range(3)])
            lc = lambda k, t, m: St("LC", {"t": SQ(m, lambda j: named(term(k, t, j)))})
            E = Family(eng, lambda t: 0 if eng.decide(eng.cmp("==", t, 0)) else eng.sym("enforced", 0, NMAX).e)   # how many of the first t constraints are in the log
            logged = lambda t: SQ(E(t), lambda j: Op("entry", (I(None, j),)))
            n1 = eng.norm(psub(ni, 1))

            def cs(a, b, log):
                k = eng.norm(padd(a, b))
                eng.assume(eng.cmp("<=", k, fail))
                return St("CS", {"i": SQ(a, lambda j: val(eng.norm(padd(j, 1))) if c.cs.call else UNIT), "a": SQ(b, lambda j: val(eng.norm(padd(j, ni))) if c.cs.call else UNIT), "c": log, "k": usz(k)})

            def sameCS(v, w):
                v = eng.deref(v)
                return isinstance(v, St) and v.n == "CS" and yes(eng, eng.cmp("<=", v.f["k"].e, fail)) and all(same(eng, v.f[x], w.f[x]) for x in ("i", "a", "k"))
            none = SQ(0, lambda j: UNIT)
            nolog = lambda v: getattr(eng.deref(v), "n", "") == "CS" and yes(eng, eng.cmp("==", seqlen(eng, eng.deref(v).f["c"]), 0))

            def took(v, t):
                if not sameCS(v, cs(n1, na, none)): return False
                log = eng.deref(v).f["c"]
                empty = [eng.decide(eng.cmp("==", part[k](t)[0], 0)) for k in range(3)]
                k = seqlen(eng, log)
                idle = (empty[0] or empty[1]) and empty[2]
                if not (idle and yes(eng, eng.cmp("==", k, E(t)))):
                    if not yes(eng, eng.cmp("==", k, padd(E(t), 1))): return False
                    x = eng.deref(elem(eng, log, E(t)))
                    if not isinstance(x, T) or len(x.e) != 3: return False
                    eng.cutno += 1
                    q = 0 if eng.decide(B(z3.Bool(f"part{eng.cutno}"))) else 1 if eng.decide(B(z3.Bool(f"part'{eng.cutno}"))) else 2
                    if not same(eng, x.e[q], lc(q, t, part[q](t)[0])): return False
                if yes(eng, eng.cmp("==", E(t), 0)): return True
                j = eng.sym("j", 0, NMAX).e
                eng.assume(eng.cmp("<", j, E(t)))
                return same(eng, elem(eng, log, j), Op("entry", (I(None, j),)))
            eng.invs = [Inv("public wires allocated", lambda t: cs(t, 0, none), start=lambda v: nolog(v) and sameCS(v, cs(0, 0, none)), ok=lambda v, t: nolog(v) and sameCS(v, cs(eng.norm(padd(t, 1)), 0, none))),
                        Inv("other wires allocated", lambda t: cs(n1, t, none), start=lambda v: nolog(v) and sameCS(v, cs(n1, 0, none)), ok=lambda v, t: nolog(v) and sameCS(v, cs(n1, eng.norm(padd(t, 1)), none))),
                        Inv("constraints enforced", lambda t: cs(n1, na, logged(t)), start=lambda v: nolog(v) and sameCS(v, cs(n1, na, none)), ok=took)]

            def sofar(j):
                """the combination of the first j items of the list the loop runs over"""
                it = eng.cutit
                if j != 0 and not isinstance(eng.deref(it.at(0)), T): return NONE
                return St("LC", {"t": SQ(j, lambda i: named(it.at(i)))})
            eng.invs.append(Inv("the terms so far", sofar))
            cnt, st = [0], {}

            def thunk():
                r = St("circom_circuit::R1CS", {"num_inputs": usz(ni), "num_aux": usz(na), "num_variables": usz(nw), "num_outputs": usz(0), "constraints": SQ(nc, con), "custom_gates": V([]), "custom_gates_uses": V([])})
                ci = St("circom_circuit::CircomCircuit", {"r1cs": r, "witness": NONE if mode == "none" else Some(SQ(n, lambda i: wv(i))), "wire_mapping": Some(SQ(nw, wmap)) if mode == "map" else NONE, "aux_offset": usz(0)})
                if what == "get_public_inputs": return eng.call_fn(method(c, what), [Ref(Cell(ci))])
                st["cs"] = Cell(c.cs.new())
                return eng.call_fn(method(c, what), [ci, Ref(st["cs"])])

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"{what} panics: {o.val}")
                v = eng.deref(o.val)
                if what == "get_public_inputs":
                    if mode == "none":
                        if v.v != "None": raise Undecided("public inputs without a witness")
                    elif v.v != "Some" or not same(eng, v.a[0], SQ(n1, lambda j: val(eng.norm(padd(j, 1))))): raise Undecided("not the public wires in order")
                    return
                if v.v != "Ok":
                    if not yes(eng, eng.cmp("<", fail, eng.norm(padd(n1, na)))): raise Undecided("synthesis fails although nothing is refused")
                    return
                x = st["cs"].v
                if not sameCS(x, cs(n1, na, none)): raise Undecided("not the wires of the circuit")
                if not same(eng, x.f["c"], logged(nc)): raise Undecided("not the constraints of the circuit")
            eng.on_path = on
            eng.explore(thunk)
            return info(eng, cnt[0])
        nm = {"none": "without a witness", "wit": "with a witness", "map": "with a witness and a wire map"}[mode]
        obls.append(Obl(f"{what} any circuit {nm}", S + what, "any number of wires, public inputs, constraints and terms: " + ("the wires and constraints of the circuit, in order; an error only when an allocation is refused" if what[0] == "s" else "the public wires in order"), go, ALL))
    for m in ("none", "wit", "map"): every(m, "synthesize"); every(m, "get_public_inputs")
    shapes = [((1, 1, 1),), ((2, 1, 0),), ((0, 0, 1),), ((1, 0, 1),), ((0, 2, 1),), ((1, 1, 0), (0, 1, 0), (0, 0, 0), (1, 1, 1)), ((0, 0, 1), (1, 0, 0), (1, 1, 1))]
    for ni, nw in ((1, 1), (1, 2), (2, 2), (1, 4), (3, 4), (4, 4), (3, 7), (6, 9), (9, 20)):
        m = [0] + [(5 * i + 2) % (nw + 3) for i in range(1, nw)]
        for wit in (False, True):
            for s in (shapes if (ni, nw) in ((3, 4), (1, 4), (3, 7)) else [()]):
                syn(ni, nw, s, wit, call=wit)
                if wit: syn(ni, nw, s, wit, m, 3)
            public(ni, nw, wit, None); public(ni, nw, wit, m, 3)
    # duplicate, descending and boundary wires; long combinations
    syn(3, 6, ((4, 3, 4),), True, wires=[0, 0, 2, 2, 3, 2, 3, 5, 5, 0, 5])
    syn(3, 6, ((6, 6, 6), (3, 0, 3), (0, 3, 1)), True, wires=[5, 4, 3, 2, 1, 0, 0, 1, 2, 3, 4, 5, 2, 2, 2, 3, 3, 3, 0, 2, 3, 3, 2, 0, 1, 2, 5, 4])
    syn(4, 9, ((12, 17, 9),), False, wires=[(7 * i + i * i) % 9 for i in range(38)], call=False)
    syn(2, 5, ((1, 1, 1),) * 9, True, wires=[(3 * i + i // 5) % 5 for i in range(27)])
    for k in range(5): syn(3, 6, ((1, 1, 1),), True, wires=[0, 3, 5], fail=k)
    return obls


# ------------------------------------------------------------------ C22
WFILES = ["algebraic-gpu/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/mod.rs"]


def c22():
    obls = []
    WC = "algebraic-gpu/src/witness/witness_calculator.rs "

    def setup(f="bn"):
        c = Ctx.__new__(Ctx)
        c.p, c.n, _ = PR[f]
        c.eng = install(Engine(prog(WFILES)), c.p, c.n)
        return c

    def fn(c, mod, n):
        m = c.eng.P.mods[mod]
        return (m, None, m.fns[n], None)
    big = BigS().mk

    def words(eng, n, nm="w"): return [eng.insym("u32", f"{nm}{i}") for i in range(n)]

    def join(ws):
        """most significant first"""
        e = 0
        for x in ws: e = padd(pscale(e, 1 << 32), x.e)
        return e

    def arrays(n):
        def run():
            c = setup()
            eng = c.eng
            st = {}
            paths = [0]

            def thunk1():
                st["w"] = words(eng, n)
                return eng.call_fn(fn(c, "witness_calculator", "from_array32"), [V(st["w"], "u32")])

            def on1(o):
                paths[0] += 1
                cex = dict(k="a32", n=n)
                if o.kind == "panic": raise Fail(f"from_array32 panics: {o.val}", cex)
                r = eng.prove(eng.cmp("==", eng.deref(o.val).f["v"].e, join(st["w"])))
                if r == "unknown": raise Undecided("solver gave up")
                if r != "ok": raise Fail(f"from_array32 of {n} words", cexof(eng, st["w"], r, cex))
            eng.on_path = on1
            eng.explore(thunk1)

            def thunk2():
                st["w"] = words(eng, n)
                return eng.call_fn(fn(c, "witness_calculator", "to_array32"), [Ref(Cell(big(join(st["w"])))), I("usize", n)])

            def on2(o):
                paths[0] += 1
                cex = dict(k="a32", n=n)
                if o.kind == "panic":
                    raise Fail(f"to_array32 panics: {o.val}", cexof(eng, st["w"], eng.prove(False), cex))
                got = eng.deref(o.val).e
                if len(got) != n: raise Fail(f"to_array32 gives {len(got)} words for {n}", cex)
                for i, (x, w) in enumerate(zip(got, st["w"])):
                    r = eng.prove(eng.cmp("==", eng.deref(x).e, w.e))
                    if r == "unknown": raise Undecided("solver gave up")
                    if r != "ok": raise Fail(f"word {i} of to_array32", cexof(eng, st["w"], r, cex))
            eng.on_path = on2
            eng.explore(thunk2)
            return info(eng, paths[0])
        obls.append(Obl(f"to_array32/from_array32 {n} words", WC + "to_array32", "all integers below 2^(32n): the words, and back", run))

    def cexof(eng, ws, r, cex):
        cex = dict(cex)
        if isinstance(r, tuple) and r[1] is not None:
            for i, x in enumerate(ws):
                if isinstance(eng.norm(x.e), int): cex[f"w{i}"] = eng.norm(x.e)
                else: cex[f"w{i}"] = r[1].eval(eng.zint(eng.norm(x.e)), model_completion=True).as_long()
        return cex
    for n in list(range(0, 17)) + [24, 32]: arrays(n)

    # any number of words: P(k), the integer the first k words make, is given by P(0) = 0, P(k + 1) = 2^32 P(k) + w(k)
    def anywords(which):
        def go():
            box = []

            def mkeng():
                c = setup()
                eng = c.eng
                eng.loop_bound, eng.max_paths, eng.unroll = 64, 2000, 8
                n = eng.insym("usize", "n", 0, NMAX).e
                eng.sizes = {"words": n}
                box[:] = [c, n]
                return eng
            return prove_all(mkeng, lambda eng: run(*box), which)

        def run(c, n):
            eng = c.eng
            w = Family(eng, lambda e: eng.insym("u32", "w").e)
            pre = Family(eng, lambda e: eng.sym("P", 0, 1 << 60000).e)
            usz = lambda e: I("usize", eng.norm(e))

            def P0(k): return 0 if eng.decide(eng.cmp("==", k, 0)) else pre(k)

            def P(k):
                """by its definition"""
                if eng.decide(eng.cmp("==", k, 0)): return 0
                e = eng.norm(psub(k, 1))
                return padd(pscale(P0(e), 1 << 32), w(e))

            def digit(k, i):
                """word i of P(n) once the words from k on are taken"""
                if eng.decide(eng.cmp(">=", i, k)): return I("u32", w(i))
                eng.assume(eng.cmp("<=", w(i), P(k)))       # lemma, proved below
                return I("u32", 0)
            if which == "from_array32":
                eng.invs = [Inv("the integer of the words so far", lambda t: big(P0(t)), lambda t: big(padd(pscale(P0(t), 1 << 32), w(t))))]
                args = lambda: [SQ(n, lambda i: I("u32", w(i)), (), "u32")]
                good = lambda v: yes(eng, eng.cmp("==", v.f["v"].e, P0(n)))
            else:
                eng.counts = [n]
                eng.invs = [Inv("the integer of the words left", lambda t: big(P(psub(n, t))), lambda t: big(P0(eng.norm(psub(psub(n, t), 1))))),
                            Inv("the words taken", lambda t: SQ(n, lambda i: digit(psub(n, t), i), (), "u32")),
                            Inv("the number of words left", lambda t: usz(psub(n, t))),
                            Inv("the number of words taken", lambda t: usz(t))]
                args = lambda: [Ref(Cell(big(P(n)))), usz(n)]
                good = lambda v: same(eng, v, SQ(n, lambda i: I("u32", w(i)), (), "u32"))
            cnt = [0]

            def on(o):
                cnt[0] += 1
                if o.kind == "panic": raise Undecided(f"{which} panics: {o.val}")
                if not good(eng.deref(o.val)): raise Undecided(f"{which} does not give the specified value")
            eng.on_path = on
            eng.explore(lambda: eng.call_fn(fn(c, "witness_calculator", which), args()))
            return info(eng, cnt[0])
        obls.append(Obl(f"{which} any number of words", WC + which, "every number of words: " + ("P(n)" if which[0] == "f" else "the words of P(n)"), go, ALL))
    anywords("from_array32"); anywords("to_array32")

    def bound():
        P, Pn, wi, wk = z3.Ints("P Pn wi wk")
        s = z3.Solver()
        s.add(P >= 0, wi >= 0, wk >= 0, Pn == P * 2**32 + wk, z3.Or(wi > Pn, wk > Pn, Pn < 0), wi <= P)
        if s.check() != z3.unsat: raise Undecided("lemma")
        return {}
    obls.append(Obl("each word is at most the integer it is in", "lemma (induction on the number of words)", "w(i) <= P(k) for i < k", bound, "z3"))

    def hashing():
        c = setup()
        eng = c.eng

        class Name:
            def assoc_const(self, eng, n): return None
            def static(self, eng, n, args): return NotImplemented
            def method(self, eng, ref, v, n, args): return Op("bytes", (v.f["n"],), "bytes") if n in ("as_bytes", "bytes", "into_bytes") else v if n in ("as_str", "clone", "as_ref") else NotImplemented
        eng.contracts["Name"] = Name()

        def thunk(): return eng.call_fn(fn(c, "witness", "fnv"), [Ref(Cell(St("Name", {"n": Str("any")})))])

        def on(o):
            if o.kind == "panic": raise Fail(f"panics: {o.val}", dict(k="fnv"))
            k = [k for k in eng.splits if k[0] == "fnv"]
            if len(k) != 1 or k[0][1] != (vkey(Op("bytes", (Str("any"),))),): raise Fail("the hash is not of exactly the bytes of the name", dict(k="fnv"))
            lo, hi = eng.split(eng.splits[k[0]], 32)
            r = eng.deref(o.val).e
            eqi(eng, r[0], hi, "high word", dict(k="fnv")); eqi(eng, r[1], lo, "low word", dict(k="fnv"))
        return explore(c, thunk, on)
    obls.append(Obl("fnv any name", "algebraic-gpu/src/witness/mod.rs fnv", "names of any length: high and low half of the 64-bit FNV-1a of the bytes", hashing))

    # flattening: nested arrays of any depth (an inner array stands for what its flattening gives)
    J = lambda v, *a: En("serde_json::Value", v, a)

    def inner(eng, args):
        """the contract of the recursive call on an opaque array: appends its flattening"""
        v = eng.deref(args[-1])
        if isinstance(v, Op) and v.f == "inner":
            o = args[0]
            c, p = eng.through((o.c, o.p))
            x, y = eng.load(c, p), Op("flat", v.a)
            eng.store(c, p, V(x.e + [y]) if isinstance(x, V) else SQ(eng.norm(padd(x.n, 1)), x.f, x.w + ((x.n, y),), x.ty))
            return UNIT
        return NotImplemented

    def flatten(name, build, what):
        def run():
            c = setup()
            eng = c.eng
            for fnm in inner_names(eng): eng.fncontracts[("witness_calculator", fnm)] = inner
            st = {}

            def thunk():
                js, st["want"] = build(eng)
                return eng.call_fn(fn(c, "witness_calculator", "flat_array"), [Ref(Cell(V(js)))])

            def on(o):
                cex = dict(k="flat")
                if o.kind == "panic": raise Fail(f"flattening panics: {o.val}", cex)
                got = eng.deref(o.val).e
                want = st["want"]
                if len(got) != len(want): raise Fail(f"{len(got)} numbers for {len(want)}", cex)
                for i, (a, b) in enumerate(zip(got, want)):
                    a = eng.deref(a)
                    if isinstance(b, Op):
                        if vkey(a) != vkey(b): raise Fail(f"entry {i}", cex)
                    else: eqi(eng, a.f["v"], b, f"number {i}", cex)
            return explore(c, thunk, on)
        obls.append(Obl(f"flat_array {name}", WC + "flat_array", what, run))

    def inner_names(eng):
        f = eng.P.mods["witness_calculator"].fns["flat_array"]
        return [s["i"]["n"] for s in f["body"] if s["k"] == "item" and s["i"] and s["i"]["k"] == "fn"]

    def leaf(eng, k, i):
        """(json, value)"""
        if k == "b":
            b = eng.sym(f"bit{i}", 0, 1)
            return J("Bool", eng.cmp("==", b.e, 1)), b.e
        x = eng.sym(f"x{i}", -(1 << 63), (1 << 64) - 1) if k == "n" else eng.sym(f"x{i}", -(1 << 400), 1 << 400)   # a JSON integer is an i64 or a u64
        return (J("String", Op("numeral", (big(x.e),), "numeral")) if k == "s" else J("Number", Op("numeral", (big(x.e),), "numeral"))), x.e

    def shape(t):
        """t: nested tuple of leaf kinds; 'i' an opaque inner array"""
        def build(eng):
            cnt = [0]
            want = []

            def go(t):
                if isinstance(t, tuple): return J("Array", V([go(x) for x in t]))
                cnt[0] += 1
                if t == "i":
                    want.append(Op("flat", (I(None, cnt[0]),)))
                    return Op("inner", (I(None, cnt[0]),), "serde_json::Value")
                j, v = leaf(eng, t, cnt[0])
                want.append(v)
                return j
            return [go(x) for x in t], want
        return build
    # any nesting, any number of entries, by structural induction: given that flattening an entry appends its numbers
    # (one part `flat` here), flattening an array appends those of its entries in order, whatever was there before
    def induct(name, go, what):
        def run():
            box = []

            def mkeng():
                c = setup()
                c.eng.loop_bound, c.eng.max_paths, c.eng.unroll = 64, 2000, 8
                for fnm in inner_names(c.eng): c.eng.fncontracts[("witness_calculator", fnm)] = inner
                box[:] = [c]
                return c.eng

            def one(c):
                eng = c.eng
                cnt = [0]
                body, good = go(c, eng)

                def on(o):
                    cnt[0] += 1
                    if o.kind == "panic": raise Undecided(f"flattening panics: {o.val}")
                    if not good(o.val): raise Undecided("not every number once, in order")
                eng.on_path = on
                eng.explore(body)
                return info(eng, cnt[0])
            return prove_all(mkeng, lambda eng: one(*box), "flat_array")
        obls.append(Obl(f"flat_array {name}", WC + "flat_array", what, run, ALL))
    entry = lambda t: Op("inner", (I(None, t),), "serde_json::Value")
    flat = lambda t: Op("flat", (I(None, t),))
    usz = lambda e: I("usize", e)

    def whole(c, eng):
        n = eng.insym("usize", "n", 0, NMAX).e
        eng.sizes = {"entries": n}
        eng.invs = [Inv("the parts so far", lambda t: SQ(t, flat)), Inv("entries done", usz), Inv("entries left", lambda t: usz(eng.norm(psub(n, t))))]
        return lambda: eng.call_fn(fn(c, "witness_calculator", "flat_array"), [Ref(Cell(SQ(n, entry)))]), lambda v: same(eng, v, SQ(n, flat))
    induct("any number of entries", whole, "any list of values: the flattenings of its entries, in order")

    def part(kind):
        def go(c, eng):
            k = inner_names(eng)
            f = k and next(s["i"] for s in eng.P.mods["witness_calculator"].fns["flat_array"]["body"] if s["k"] == "item" and s["i"] and s["i"]["k"] == "fn")
            if not k or len(f["args"]) != 2: raise Undecided("no function that appends the numbers of an entry")
            eng.P.mods["witness_calculator"].fns.setdefault(k[0], f)       # its name is in scope in its body
            m, n = eng.insym("usize", "m", 0, NMAX).e, eng.insym("usize", "n", 0, NMAX).e
            eng.sizes = {"entries": n}
            old = lambda e: Op("old", (I(None, e),))
            cat = lambda k: SQ(eng.norm(padd(m, k)), lambda e: old(e) if eng.decide(eng.cmp("<", e, m)) else flat(eng.norm(psub(e, m))))
            eng.invs = [Inv("what was there and the parts so far", cat), Inv("entries done", usz)]
            st = {}

            def body():
                st["out"] = Cell(SQ(m, old))
                if kind == "a": v = En("serde_json::Value", "Array", (SQ(n, entry),))
                else: v, st["x"] = leaf(eng, kind, 0)
                return eng.call_fn((eng.P.mods["witness_calculator"], None, f, None), [Ref(st["out"]), Ref(Cell(v))])

            def good(_):
                v = st["out"].v
                if kind == "a": return same(eng, v, cat(n))
                if not isinstance(v, SQ) or not yes(eng, eng.cmp("==", v.n, padd(m, 1))): return False
                if not yes(eng, eng.cmp("==", eng.deref(elem(eng, v, m)).f["v"].e, st["x"])): return False
                j = eng.sym("j", 0, NMAX).e
                eng.assume(eng.cmp("<", j, m))
                return same(eng, elem(eng, v, j), old(j))
            return body, good
        return go
    for k, nm in (("a", "an array"), ("n", "a JSON number"), ("s", "a string"), ("b", "a boolean")):
        induct(f"entry: {nm}, after anything", part(k), "what was there stays; the entry's numbers follow, in order")
    for t in [(), ("n",), ("s",), ("b",), ("n", "s", "b"), ((),), (("n",), "s"), ("s", ("n", ("b", "s"), "n"), (), "n"), ((((("n",),),),),), (("s", "s"), ("n", "n"), ("b", "b")),
              ("n",) * 9, ("s",) * 17, (("n", ("s", ("b", ("n", ("s",))))),), ((("s", "n"), ("b",)), (("n",), ("n", "s", "s")))]:
        flatten(f"shape {t}", shape(t), "every number once, in order")
    for k in range(0, 9): flatten(f"{k} inner arrays", shape(("i",) * k), "inner arrays of any content: their flattenings in order")
    flatten("inner arrays between numbers", shape(("n", "i", "s", "i", "i", "b")), "numbers and flattenings in order")
    flatten("an array of inner arrays", shape((("i", "n", "i"), "i", ("s", ("i", "i"), "b"))), "numbers and flattenings in order")

    # the values given to and read from the circuit's instance
    def instance(n32, sig, size, name):
        def run():
            c = setup()
            eng = c.eng
            st = {}

            def make():
                wit = st["wit"] = [[eng.insym("u32", f"z{i}_{j}").e for j in range(n32)] for i in range(size)]
                eng.contracts["Wasm"] = Wasm(n32, size, wit)
                st["inst"] = Cell(St("witness_calculator::WitnessCalculator", {"instance": eng.contracts["Wasm"].new(eng), "store": UNIT, "memory": St("SafeMemory", {"prime": big(c.p), "memory": UNIT}), "n64": I("u32", (n32 + 1) // 2), "circom_version": I("u32", 2)}))
                ins = []
                st["in"] = []
                for s, k in sig:
                    vs = []
                    for i in range(k):
                        w = words(eng, n32, f"{s}{i}_")
                        vs.append(big(join(w)))
                        st["in"].append((s, i, w))
                    ins.append(T([Str(s), V(vs)]))
                return [Ref(st["inst"]), V(ins), eng.insym("u8", "chk").e and True]

            def given(cex):
                log = st["inst"].v.f["instance"].f["log"].e
                if len(log) != len(st["in"]): raise Fail(f"{len(log)} input values given for {len(st['in'])}", cex)
                for (s, i, w), t in zip(st["in"], log):
                    h = fnv1a(s.encode())
                    eqi(eng, t.e[0], h >> 32, "hash of the signal name", cex); eqi(eng, t.e[1], h & 0xffffffff, "hash of the signal name", cex)
                    eqi(eng, t.e[2], i, "position of the value", cex)
                    for j in range(n32): eqi(eng, t.e[3].e[j], w[n32 - 1 - j].e, f"word {j} of the value", cex)
            n = [0]
            for m in ("calculate_witness_bin", "calculate_witness"):
                f = eng.find_method("witness_calculator::WitnessCalculator", m, [])
                if not f: raise Undecided(f"no {m}")

                def on(o, m=m):
                    n[0] += 1
                    cex = dict(k="wasm")
                    v = result(eng, o, m, cex)
                    if v.v != "Ok": raise Fail(f"{m} fails", cex)
                    given(cex)
                    got = eng.deref(v.a[0]).e
                    if m.endswith("bin"):
                        if len(got) != size * n32: raise Fail(f"{len(got)} words for {size * n32}", cex)
                        for i in range(size):
                            for j in range(n32): eqi(eng, got[i * n32 + j], st["wit"][i][j], f"word {j} of value {i}", cex)
                        return
                    if len(got) != size: raise Fail(f"{len(got)} values for {size}", cex)
                    for i in range(size):
                        e = 0
                        for j in range(n32): e = padd(e, pscale(st["wit"][i][j], 1 << 32 * j))
                        eqi(eng, eng.deref(got[i]).f["v"], e, f"value {i}", cex)
                eng.on_path = on
                eng.explore(lambda f=f: eng.call_fn(f, make()))
            f = eng.find_method("witness_calculator::WitnessCalculator", "save_witness_from_bin_writer", [])

            def save():
                make()
                st["out"] = Cell(Writer().new())
                return eng.call_fn(f, [Ref(st["inst"]), Ref(st["out"]), Ref(Cell(V([I("u32", x) for w in st["wit"] for x in w], "u32")))])

            def on(o):
                n[0] += 1
                cex = dict(k="wasm")
                if result(eng, o, "saving", cex).v != "Ok": raise Fail("saving fails", cex)
                got = st["out"].v.f["data"].e
                ws = []
                for w in st["wit"]:
                    b = []
                    for x in w:
                        for _ in range(4):
                            l, x = eng.split(x, 8)
                            b.append(I("u8", l))
                    ws.append(b)
                want = wfile(c, ws)
                if len(got) != len(want): raise Fail(f"{len(got)} bytes for {len(want)}", cex)
                for i, (a, b) in enumerate(zip(got, want)): eqi(eng, a, b.e, f"byte {i} of the file", cex)
            if n32 == 8 and f:
                eng.on_path = on
                eng.explore(save)
            return info(eng, n[0])
        obls.append(Obl(f"witness through the instance: {name}", WC + "calculate_witness", "every input value reaches the instance word for word under its name's hash and position; the witness comes back word for word", run))
    for n32 in (1, 2, 8):
        instance(n32, (("a", 1), ("b", 1)), 4, f"{n32} words, two signals")
        instance(n32, (("in", 2),), 1, f"{n32} words, one array")
        instance(n32, (), 3, f"{n32} words, no input")
    instance(8, (("main.x", 1),), 9, "8 words, nine values")
    instance(12, (("x", 1),), 2, "12 words")
    return obls
