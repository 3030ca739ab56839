"""Contracts for reading files: a byte source (std::io::Read + Seek with byteorder), prime-field elements by their
byte representation (ff::PrimeField), non-negative big integers of constants, I/O errors."""
from eng import *
import seq

NI = NotImplemented
RD, E, SRD = "Rd", "E", "SRd"
IOERR = ("io::Error", "std::Error", "Error", "io::Result")


def fe(e): return St(E, {"v": I(None, e)})


class Reader:
    """bytes from position pos; reads consume exactly what they return, or give UnexpectedEof at the end"""

    def static(self, eng, n, args): return NI
    def assoc_const(self, eng, n): return None
    def step(self, eng, v, s): raise Unsupported("reader field")

    def new(self, data): return St(RD, {"pos": I("u64", 0), "data": V(list(data), "u8")})

    def setpos(self, eng, ref, v, p): eng.store(ref.c, ref.p, St(RD, {"pos": I("u64", p), "data": v.f["data"]}))

    def take(self, eng, ref, v, k):
        """k bytes, or None at the end of the data (the position is then the end)"""
        p, d = v.f["pos"].e, v.f["data"].e
        if p + k > len(d):
            self.setpos(eng, ref, v, max(p, len(d)))
            return None
        self.setpos(eng, ref, v, p + k)
        return d[p:p + k]

    def method(self, eng, ref, v, n, args):
        W = {"read_u8": 1, "read_u16": 2, "read_u32": 4, "read_u64": 8}
        if n in W:
            end = [t.n.split("::")[-1] for t in eng.cur_targs]
            if n != "read_u8" and end not in (["LittleEndian"], ["LE"], ["BigEndian"], ["BE"]): raise Unsupported(f"byte order {end}")
            b = self.take(eng, ref, v, W[n])
            if b is None: return Err(Op("UnexpectedEof", (), "io"))
            if end and end[0] in ("BigEndian", "BE"): b = b[::-1]
            e = 0
            for i, x in enumerate(b): e = padd(e, pscale(x.e, 1 << 8 * i))
            return Ok(I("u" + n[6:], e))
        if n == "read_exact":
            k = len(eng.deref(args[0]).e)
            b = self.take(eng, ref, v, k)
            if b is None: return Err(Op("UnexpectedEof", (), "io"))
            r = args[0]
            c, p = eng.through((r.c, r.p))
            eng.store(c, p, V(b, "u8"))
            return Ok(UNIT)
        if n == "read":
            # fills as much as there is (a reader that gives less is the concrete driver's business)
            buf = eng.deref(args[0]).e
            p, d = v.f["pos"].e, v.f["data"].e
            k = max(0, min(len(buf), len(d) - p))
            b = self.take(eng, ref, v, k)
            r = args[0]
            c, q = eng.through((r.c, r.p))
            eng.store(c, q, V(b + buf[k:], "u8"))
            return Ok(I("usize", k))
        if n in ("stream_position", "position"): return Ok(v.f["pos"]) if n[0] == "s" else v.f["pos"]
        if n == "seek":
            w = eng.deref(args[0])
            k = eng.conc(w.a[0], "seek")
            if w.v == "Start": p = k
            elif w.v == "Current": p = v.f["pos"].e + k
            elif w.v == "End": p = len(v.f["data"].e) + k
            else: raise Unsupported("seek")
            if p < 0 or p >= 1 << 64: return Err(Op("InvalidInput", (), "io"))
            self.setpos(eng, ref, v, p)
            return Ok(I("u64", p))
        if n == "by_ref": return ref
        if n == "as_slice": return ref
        return NI


class SFile:
    """an unknown file: its length and, byte by byte, its contents (bytes at offsets not known to be equal are independent)"""

    def __init__(self, eng, fixed=()):
        self.eng, self.fixed = eng, list(fixed)
        self.n = eng.insym("u64", "length", 0, 1 << 48).e
        self.path, self.seen = None, {}

    def byte(self, e):
        eng = self.eng
        e = eng.norm(e)
        if isinstance(e, int) and e < len(self.fixed): return self.fixed[e]
        if self.path is not eng.solver: self.path, self.seen = eng.solver, {}
        k = e if isinstance(e, int) else e.key()
        if k not in self.seen: self.seen[k] = eng.insym("u8", "byte")
        return self.seen[k]

    def num(self, e, k):
        r = 0
        for i in range(k): r = padd(r, pscale(self.byte(padd(e, i)).e, 1 << 8 * i))
        return r

    def reader(self): return St(SRD, {"pos": I("u64", 0)})


class SReader(Reader):
    """a reader of a file of unknown length"""

    def __init__(self, file): self.file = file
    def setpos(self, eng, ref, v, p): eng.store(ref.c, ref.p, St(SRD, {"pos": I("u64", eng.norm(p))}))

    def take(self, eng, ref, v, k):
        p = v.f["pos"].e
        if not eng.decide(eng.cmp("<=", padd(p, k), self.file.n)):
            self.setpos(eng, ref, v, self.file.n if eng.decide(eng.cmp("<=", p, self.file.n)) else p)
            return None
        self.setpos(eng, ref, v, padd(p, k))
        return [self.file.byte(padd(p, i)) for i in range(k)]

    def method(self, eng, ref, v, n, args):
        if n == "read":
            buf = eng.deref(args[0]).e
            if len(buf) != 1: raise Unsupported("read into a longer buffer")
            if not eng.decide(eng.cmp("<", v.f["pos"].e, self.file.n)): return Ok(I("usize", 0))
            b = self.take(eng, ref, v, 1)
            c, q = eng.through((args[0].c, args[0].p))
            eng.store(c, q, V(b, "u8"))
            return Ok(I("usize", 1))
        if n == "read_exact" and isinstance(eng.deref(args[0]), seq.SQ):
            p, k = v.f["pos"].e, eng.norm(eng.deref(args[0]).n)
            if not eng.decide(eng.cmp("<=", padd(p, k), self.file.n)):
                self.setpos(eng, ref, v, self.file.n if eng.decide(eng.cmp("<=", p, self.file.n)) else p)
                return Err(Op("UnexpectedEof", (), "io"))
            self.setpos(eng, ref, v, padd(p, k))
            c, q = eng.through((args[0].c, args[0].p))
            eng.store(c, q, seq.SQ(k, lambda i: self.file.byte(padd(p, i))))
            return Ok(UNIT)
        if n == "seek":
            w = eng.deref(args[0])
            k = eng.norm(eng.deref(w.a[0]).e)
            p = {"Start": k, "Current": padd(v.f["pos"].e, k), "End": padd(self.file.n, k)}.get(w.v)
            if p is None: raise Unsupported("seek")
            if not eng.decide(eng.cmp(">=", p, 0)) or not eng.decide(eng.cmp("<", p, 1 << 64)): return Err(Op("InvalidInput", (), "io"))
            self.setpos(eng, ref, v, p)
            return Ok(I("u64", p))
        return Reader.method(self, eng, ref, v, n, args)


class Elem:
    """elements of a prime field, as integers below the modulus; the byte form is little-endian, of the field's size"""

    def __init__(self, p, nbytes): self.p, self.n, self.assoc = p, nbytes, {"Repr": "E.Repr"}

    def assoc_const(self, eng, n):
        if n == "MODULUS": return Str(hex(self.p))
        if n == "NUM_BITS": return I("u32", self.p.bit_length())
        if n == "CAPACITY": return I("u32", self.p.bit_length() - 1)
        if n in ("ZERO", "ONE"): return fe(0 if n == "ZERO" else 1)
        return None

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op in ("==", "!="):
            r = eng.cmp("==", a.f["v"].e, b.f["v"].e)
            return r if op == "==" else eng.bnot(r)
        return NI

    def static(self, eng, n, args):
        if n == "default" and not args: return fe(0)
        if n in ("from_repr", "from_repr_vartime"):
            bs = eng.deref(args[0]).e
            if len(bs) != self.n: raise Unsupported("representation of another size")
            e = 0
            for i, x in enumerate(bs): e = padd(e, pscale(x.e, 1 << 8 * i))
            ok = eng.cmp("<", e, self.p)
            if n == "from_repr_vartime": return Some(fe(e)) if eng.decide(ok) else NONE
            return St("CtOption", {"ok": ok, "v": fe(e)})
        if n == "from":
            x = eng.deref(args[0])
            if isinstance(x, I): return fe(eng.norm(x.e) % self.p) if isinstance(eng.norm(x.e), int) else NI
        return NI

    def method(self, eng, ref, v, n, args):
        if n == "to_repr":
            e = eng.norm(v.f["v"].e)
            if not isinstance(e, int): raise Unsupported("bytes of a symbolic element")
            return V([I("u8", e >> 8 * i & 255) for i in range(self.n)], "u8")
        if n == "clone": return v
        return NI


class CtOption:
    def static(self, eng, n, args): return NI
    def assoc_const(self, eng, n): return None
    def step(self, eng, v, s): return v.f[s[1]]

    def method(self, eng, ref, v, n, args):
        if n in ("is_some", "is_none"): return St("Choice", {"b": v.f["ok"] if n == "is_some" else eng.bnot(v.f["ok"])})
        if n in ("unwrap", "expect"):
            if eng.decide(v.f["ok"]): return v.f["v"]
            raise Panic("unwrap of a CtOption that is none")
        if n == "into": return Some(v.f["v"]) if eng.decide(v.f["ok"]) else NONE
        return NI


class Choice:
    def static(self, eng, n, args): return NI
    def assoc_const(self, eng, n): return None

    def method(self, eng, ref, v, n, args):
        b = v.f["b"]
        if n == "unwrap_u8": return eng.b2i(b, "u8") if not isinstance(b, bool) else I("u8", int(b))
        if n == "into": return b
        return NI

    def static(self, eng, n, args): return NI


class BigC:
    """big unsigned integers with known value"""

    def assoc_const(self, eng, n): return None

    def static(self, eng, n, args):
        if n in ("zero", "one", "default"): return St(BIGU, {"v": I(None, int(n == "one"))})
        if n == "from":
            x = eng.deref(args[0])
            if isinstance(x, I): return St(BIGU, {"v": I(None, x.e)})
        if n in ("from_str_radix", "parse_bytes", "from_str"):
            s = eng.deref(args[0])
            if isinstance(s, St) and s.n == "numstr": return eng.contracts["numstr"].read(eng, s, BIGU, eng.conc(args[1]) if len(args) > 1 else 10)
            if len(args) < 2: args = [args[0], I("u32", 10)]
            if isinstance(s, V): s = Str(bytes(x.e for x in s.e).decode())
            try: x = int(s.v, eng.conc(args[1]))
            except ValueError: return Err(Str("parse")) if n[0] == "f" else NONE
            if x < 0 or "-" in s.v: return Err(Str("parse")) if n[0] == "f" else NONE
            r = St(BIGU, {"v": I(None, x)})
            return Ok(r) if n[0] == "f" else Some(r)
        if n in ("from_bytes_le", "from_bytes_be"):
            bs = eng.deref(args[0]).e
            bs = bs if n.endswith("le") else bs[::-1]
            e = 0
            for i, x in enumerate(bs): e = padd(e, pscale(x.e, 1 << 8 * i))
            return St(BIGU, {"v": I(None, e)})
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        r = BigS.binop(SIGNED, eng, op, a, b)
        if isinstance(r, St) and r.n == BIGI:
            if op == "-" and not eng.decide(eng.cmp(">=", r.f["v"].e, 0)): raise Panic("BigUint below zero")
            return St(BIGU, r.f)
        return r

    def order(self, eng, a, b): return SIGNED.order(eng, a, b)

    def method(self, eng, ref, v, n, args):
        if n in ("is_zero", "is_one", "bits") or n[:3] == "to_" and n[3:] in BITS: return SIGNED.method(eng, ref, v, n, args)
        if n == "to_string": return Op("to_string", (v,), "str")
        if n in ("to_bytes_le", "to_bytes_be"):
            x = eng.norm(v.f["v"].e)
            if not isinstance(x, int): raise Unsupported("bytes of a symbolic integer")
            bs = [I("u8", b) for b in x.to_bytes(max(1, (x.bit_length() + 7) // 8), "little")]
            return V(bs if n.endswith("le") else bs[::-1], "u8")
        if n == "clone": return v
        return NI


class IoError:
    def assoc_const(self, eng, n): return Op(n, (), "ErrorKind")
    def static(self, eng, n, args): return Op("error", (), "io")
    def method(self, eng, ref, v, n, args): return Str("error") if n == "to_string" else NI


class Seek:
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return En("SeekFrom", n, args)
    def method(self, eng, ref, v, n, args): return NI


class Lossy:
    """the text String::from_utf8_lossy makes of unknown bytes"""

    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI
    def method(self, eng, ref, v, n, args): return v if n in ("to_string", "into_owned", "clone", "to_owned", "into", "as_str") else NI


class Kind(IoError):
    def assoc_const(self, eng, n): return Op(n, (), "ErrorKind")


class Writer:
    """a sink of bytes"""

    def static(self, eng, n, args): return NI
    def assoc_const(self, eng, n): return None
    def new(self): return St(WR, {"data": V([], "u8")})

    def method(self, eng, ref, v, n, args):
        if n in ("flush", "by_ref"): return Ok(UNIT) if n == "flush" else ref
        if n in ("write_all", "write"):
            b = eng.deref(args[0]).e
            r = Ok(UNIT) if n == "write_all" else Ok(I("usize", len(b)))
        elif n in ("write_u8", "write_u16", "write_u32", "write_u64"):
            k = {"8": 1, "6": 2, "2": 4, "4": 8}[n[-1]]
            end = [t.n.split("::")[-1] for t in eng.cur_targs]
            x = eng.norm(eng.deref(args[0]).e)
            b = []
            for _ in range(k):
                l, x = eng.split(x, 8)
                b.append(I("u8", l))
            if end and end[0] in ("BigEndian", "BE"): b = b[::-1]
            elif k > 1 and end not in (["LittleEndian"], ["LE"]): raise Unsupported(f"byte order {end}")
            r = Ok(UNIT)
        else: return NI
        eng.store(ref.c, ref.p + (("f", "data"),), V(v.f["data"].e + [I("u8", eng.deref(x).e) for x in b], "u8"))
        return r


class BigS:
    """num_bigint::BigInt, mathematical integers"""

    def mk(self, e): return St(BIGI, {"v": I(None, e)})
    def assoc_const(self, eng, n): return {"ZERO": self.mk(0)}.get(n)

    def static(self, eng, n, args):
        if n in ("zero", "one", "default"): return self.mk(1 if n == "one" else 0)
        if n == "from":
            x = eng.deref(args[0])
            if isinstance(x, I): return self.mk(x.e)
            if isinstance(x, (bool, B)): return self.mk(eng.b2i(x, "u8").e)
            if isinstance(x, St) and x.n in (BIGU, BIGI): return self.mk(x.f["v"].e)
        if n in ("from_str", "parse_bytes", "from_str_radix"):
            s = eng.deref(args[0])
            if isinstance(s, Str):
                try: r = Ok(self.mk(int(s.v, eng.conc(args[1]) if len(args) > 1 else 10)))
                except ValueError: r = Err(Str("ParseBigIntError"))
                return r if n != "parse_bytes" else Some(r.a[0]) if r.v == "Ok" else NONE
            if isinstance(s, St) and s.n == "numstr": return eng.contracts["numstr"].read(eng, s, BIGI, eng.conc(args[1]) if len(args) > 1 else 10)
            if isinstance(s, Op) and s.f == "numeral": return Ok(s.a[0])
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        x = a.f["v"] if isinstance(a, St) else a
        y = b.f["v"] if isinstance(b, St) else b
        if not (isinstance(x, I) and isinstance(y, I)): return NI
        if op in ("==", "!=", "<", "<=", ">", ">="): return eng.cmp(op, eng.norm(x.e), eng.norm(y.e))
        x, y = eng.norm(x.e), eng.norm(y.e)
        if op in "+-*": return self.mk(eng.arith(op, I(None, x), I(None, y)))
        if op in ("/", "%", ">>", "<<", "&"):
            if not isinstance(y, int): raise Unsupported("division by a symbolic integer")
            if op in ("/", "%"):
                if y == 0: raise Panic("division by zero")
                if y < 0: raise Unsupported("division by a negative integer")
                neg = not eng.decide(eng.cmp(">=", x, 0))
                if neg: x = pscale(x, -1)
                l, h = eng.divc(x, y) if not isinstance(x, int) else (x % y, x // y)
                return self.mk(pscale(h if op == "/" else l, -1 if neg else 1))
            if op == "<<": return self.mk(pscale(x, 1 << y))
            if op == ">>": return self.mk(eng.split(x, y)[1])
            if y >= 0 and y & (y + 1) == 0: return self.mk(eng.split(x, y.bit_length())[0])
        return NI

    def order(self, eng, a, b): return eng.order(eng.deref(a).f["v"], eng.deref(b).f["v"])

    def method(self, eng, ref, v, n, args):
        e = eng.norm(v.f["v"].e)
        if n == "clone": return v
        if n in ("mod_floor", "rem_euclid"):
            r = self.binop(eng, "%", v, args[0])
            if eng.decide(eng.cmp("<", r.f["v"].e, 0)): r = self.binop(eng, "+", r, args[0])
            return r
        if n in ("abs", "magnitude", "neg"):
            r = pscale(e, -1) if n == "neg" or eng.decide(eng.cmp("<", e, 0)) else e
            return self.mk(r) if n != "magnitude" else St(BIGU, {"v": I(None, r)})
        if n == "to_biguint": return Some(St(BIGU, {"v": I(None, e)})) if eng.decide(eng.cmp(">=", e, 0)) else NONE
        if n in ("is_negative", "is_positive"): return eng.cmp("<" if n == "is_negative" else ">", e, 0)
        if n == "is_zero": return eng.cmp("==", e, 0)
        if n == "is_one": return eng.cmp("==", e, 1)
        if n[:3] == "to_" and n[3:] in BITS:
            lo, hi = trange(n[3:])
            if eng.decide(eng.cmp("<=", e, hi)) and eng.decide(eng.cmp(">=", e, lo)): return Some(I(n[3:], e))
            return NONE
        if n == "sign":
            if eng.decide(eng.cmp("==", e, 0)): return En("Sign", "NoSign")
            return En("Sign", "Plus" if eng.decide(eng.cmp(">", e, 0)) else "Minus")
        if n in ("to_bytes_le", "to_bytes_be") and isinstance(e, int):
            b = [I("u8", x) for x in abs(e).to_bytes(max(1, (abs(e).bit_length() + 7) // 8), "little")]
            return T([En("Sign", "NoSign" if e == 0 else "Plus" if e > 0 else "Minus"), V(b if n.endswith("le") else b[::-1], "u8")])
        if n == "to_u32_digits":
            s = self.method(eng, ref, v, "sign", [])
            x, out = e, []
            if s.v == "Minus": x = pscale(x, -1)
            while not eng.decide(eng.cmp("==", x, 0)):
                l, x = eng.split(x, 32)
                out.append(I("u32", l))
            return T([s, V(out, "u32")])
        if n == "bits" and isinstance(e, int): return I("u64", abs(e).bit_length())
        return NI


class Fnv:
    """fnv::FnvHasher: FNV-1a, 64 bits (external crate)"""

    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return St("FnvHasher", {"w": V([])}) if n in ("default", "new") else NI

    def method(self, eng, ref, v, n, args):
        if n == "write":
            eng.store(ref.c, ref.p, St("FnvHasher", {"w": V(v.f["w"].e + [eng.deref(args[0])])}))
            return UNIT
        if n == "finish":
            w = v.f["w"].e
            if all(isinstance(x, V) and all(isinstance(eng.norm(y.e), int) for y in x.e) for x in w):
                return I("u64", fnv1a(b"".join(bytes(eng.norm(y.e) for y in x.e) for x in w)))
            k = ("fnv", tuple(vkey(x) for x in w))
            if k not in eng.splits: eng.splits[k] = eng.insym("u64", "fnv").e
            return I("u64", eng.splits[k])
        return NI


def fnv1a(b):
    h = 0xcbf29ce484222325
    for x in b: h = (h ^ x) * 0x100000001b3 % (1 << 64)
    return h


class Wasm:
    """the circuit's instance: shared memory words, a log of the inputs given, and the witness it computes"""

    def __init__(self, n32, size, wit): self.n32, self.size, self.wit = n32, size, wit
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def new(self, eng): return St("Wasm", {"sh": V([I("u32", 0)] * self.n32), "log": V([])})

    def method(self, eng, ref, v, n, args):
        a = [eng.deref(x) for x in args[1:]]
        if n == "init":
            eng.store(ref.c, ref.p, St("Wasm", {"sh": v.f["sh"], "log": V([])}))
            return Ok(UNIT)
        if n == "get_field_num_len32": return Ok(I("u32", self.n32))
        if n == "get_witness_size": return Ok(I("u32", self.size))
        if n in ("write_shared_rw_memory", "read_shared_rw_memory"):
            j = eng.conc(a[0])
            if j >= self.n32: raise Panic(f"shared memory word {j}")
            if n[0] == "r": return Ok(I("u32", v.f["sh"].e[j].e))
            sh = list(v.f["sh"].e); sh[j] = I("u32", a[1].e)
            eng.store(ref.c, ref.p, St("Wasm", {"sh": V(sh), "log": v.f["log"]}))
            return Ok(UNIT)
        if n == "set_input_signal":
            eng.store(ref.c, ref.p, St("Wasm", {"sh": v.f["sh"], "log": V(v.f["log"].e + [T([a[0], a[1], a[2], v.f["sh"]])])}))
            return Ok(UNIT)
        if n == "get_witness":
            i = eng.conc(a[0])
            if i >= self.size: raise Panic(f"witness {i}")
            eng.store(ref.c, ref.p, St("Wasm", {"sh": V([I("u32", x) for x in self.wit[i]]), "log": v.f["log"]}))
            return Ok(UNIT)
        if n == "clone": return v
        return NI


def size(v): return len(v.e) if isinstance(v, V) else v.n


def more(eng, v, x):
    if isinstance(v, V): return V(v.e + [x])
    return seq.SQ(eng.norm(padd(v.n, 1)), v.f, v.w + ((v.n, x),), v.ty)


class CSys:
    """a constraint system: what synthesis allocates and enforces; values are asked for when `call`; the
    fail-th allocation is refused"""

    def __init__(self): self.call, self.fail = True, None
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI
    def new(self): return St("CS", {"i": V([]), "a": V([]), "c": V([]), "k": I("usize", 0)})

    def method(self, eng, ref, v, n, args):
        f = dict(v.f)
        if n in ("alloc", "alloc_input"):
            k = f["k"].e
            if self.fail is not None and eng.decide(eng.cmp("==", k, self.fail)): return Err(Op("refused", (), "SynthesisError"))
            x = UNIT
            if self.call:
                r = eng.deref(eng.call_val(args[1], []))
                if r.v == "Err": return r
                x = eng.deref(r.a[0])
            w = "a" if n == "alloc" else "i"
            j = eng.norm(padd(size(f[w]), int(w == "i")))
            f[w] = more(eng, f[w], x); f["k"] = I("usize", eng.norm(padd(k, 1)))
            eng.store(ref.c, ref.p, St("CS", f))
            return Ok(En("Variable", "Var", (En("Index", "Aux" if w == "a" else "Input", (I("usize", j),)),)))
        if n == "enforce":
            z = St("LC", {"t": V([])})
            ls = [eng.deref(eng.call_val(a, [z])) for a in args[1:]]
            f = dict(eng.load(ref.c, ref.p).f)
            f["c"] = more(eng, f["c"], T(ls))
            eng.store(ref.c, ref.p, St("CS", f))
            return UNIT
        if n == "namespace": return ref
        if n == "get_root": return ref
        if n == "one": return En("Variable", "Var", (En("Index", "Input", (I("usize", 0),)),))
        return NI


class LinC:
    """bellperson::LinearCombination: a formal sum of terms"""

    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return St("LC", {"t": V([])}) if n in ("zero", "default") else NI

    def term(self, eng, b):
        b = eng.deref(b)
        if isinstance(b, T) and len(b.e) == 2: return T([eng.deref(x) for x in b.e])
        if isinstance(b, En) and b.v == "Var": return T([fe(1), b])
        raise Unsupported("term")

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op != "+": return NI
        if isinstance(b, St) and b.n == "LC": return St("LC", {"t": V(a.f["t"].e + b.f["t"].e)})
        return St("LC", {"t": more(eng, a.f["t"], self.term(eng, b))})

    def method(self, eng, ref, v, n, args):
        if n == "clone": return v
        if n == "add_unsimplified":
            return St("LC", {"t": more(eng, v.f["t"], self.term(eng, args[0]))})
        return NI


class Sign:
    def assoc_const(self, eng, n): return En("Sign", n) if n in ("Plus", "Minus", "NoSign") else None
    def static(self, eng, n, args): return NI
    def method(self, eng, ref, v, n, args): return NI
    def binop(self, eng, op, a, b): return NI


SIGNED = BigS()
NUMSTR = "numstr"


class NumStr:
    """a numeral as text: optional minus, optional 0x, digits in base ten or sixteen; its value is known, its digits are not"""

    def new(self, neg, base, e): return St(NUMSTR, {"neg": neg, "pre": base == 16, "base": base, "v": I(None, e)})
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def drop(self, v, k):
        f = dict(v.f)
        head = ("-" if f["neg"] else "") + ("0x" if f["pre"] else "")
        if k > len(head): raise Unsupported("digits of a numeral")
        if k == 0: return v
        if f["neg"]: f["neg"] = False; k -= 1
        if k == 1: raise Unsupported("half a prefix")
        if k == 2: f["pre"] = False
        return St(NUMSTR, f)

    def head(self, v): return ("-" if v.f["neg"] else "") + ("0x" if v.f["pre"] else "")

    def slice(self, eng, v, r):
        if r.hi is not None: raise Unsupported("part of a numeral")
        return self.drop(v, eng.conc(r.lo) if r.lo is not None else 0)

    def read(self, eng, v, ty, radix):
        """what parsing gives: digits only, with a minus where the type has one"""
        signed_ = ty == BIGI or ty in BITS and signed(ty)
        if v.f["pre"] or v.f["neg"] and not signed_: return Err(Str("parse"))
        if v.f["base"] != radix: raise Unsupported("numeral read in another base")
        e = pscale(v.f["v"].e, -1) if v.f["neg"] else v.f["v"].e
        if ty == BIGI: return Ok(SIGNED.mk(e))
        if ty == BIGU: return Ok(St(BIGU, {"v": I(None, e)}))
        lo, hi = trange(ty)
        if eng.decide(eng.cmp("<=", e, hi)) and eng.decide(eng.cmp(">=", e, lo)): return Ok(I(ty, e))
        return Err(Str("parse"))

    def method(self, eng, ref, v, n, args):
        if n in ("as_str", "clone", "to_owned", "to_string", "into", "as_ref", "trim"): return v
        if n in ("starts_with", "strip_prefix", "trim_start_matches"):
            x = eng.deref(args[0])
            x = x.v if isinstance(x, Str) else chr(x.e) if isinstance(x, I) and x.ty == "char" else None
            if x is None: raise Unsupported("pattern")
            if x not in ("-", "0x", "-0x", "+", "0X", "0b", "0o", "_", " "): raise Unsupported(f"prefix {x!r} of a numeral")
            if x in ("0b", "0o") and not self.head(v): raise Unsupported("leading zeros")
            y = bool(x) and self.head(v).startswith(x)
            if n == "starts_with": return y
            if n == "strip_prefix": return Some(self.drop(v, len(x))) if y else NONE
            return self.drop(v, len(x)) if y else v
        if n == "is_empty": return False
        if n == "parse":
            h = eng.cur_targs
            if len(h) == 1: return self.read(eng, v, h[0].n, 10)
        return NI


class Numeral:
    """the decimal form of a number, as a string or a JSON number"""
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def method(self, eng, ref, v, n, args):
        if n in ("to_string", "as_str", "clone", "to_owned", "into", "as_ref", "trim"): return v
        e = eng.norm(v.a[0].f["v"].e)
        if n in ("as_i64", "as_u64", "as_i128", "as_u128", "is_i64", "is_u64"):      # of a JSON number
            ty = n.split("_")[1]
            lo, hi = trange(ty)
            r = eng.decide(eng.cmp(">=", e, lo)) and eng.decide(eng.cmp("<=", e, hi))
            return r if n[0] == "i" else Some(I(ty, e)) if r else NONE
        if n == "is_f64": return False
        return NI


class Var:
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return En("Variable", "Var", (eng.deref(args[0]),)) if n == "new_unchecked" else NI
    def method(self, eng, ref, v, n, args): return v.a[0] if n == "get_unchecked" else NI


BIGU, BIGI, WR = "num_bigint::BigUint", "num_bigint::BigInt", "Wr"


def install(eng, p, nbytes):
    eng.contracts.update({WR: Writer(), "num_bigint::Sign": Sign(), "Sign": Sign(), "numeral": Numeral(), NUMSTR: NumStr(), BIGI: BigS(), "fnv::FnvHasher": Fnv(), "FnvHasher": Fnv(), "LC": LinC(), "LinearCombination": LinC(),
                          "bellperson::LinearCombination": LinC(), "Variable": Var(), "bellperson::Variable": Var(), RD: Reader(), E: Elem(p, nbytes), "CtOption": CtOption(), "Choice": Choice(), BIGU: BigC(),
                          "io::Error": IoError(), "std::Error": IoError(), "lossy": Lossy(), "io::ErrorKind": Kind(), "io::SeekFrom": Seek()})
    return eng


def le(x, n): return [I("u8", x >> 8 * i & 255) for i in range(n)]
def u32(x): return le(x, 4)
def u64(x): return le(x, 8)


def symbytes(eng, name, n):
    """n unknown bytes and the integer they stand for"""
    bs = [eng.insym("u8", f"{name}_{i}") for i in range(n)]
    e = 0
    for i, x in enumerate(bs): e = padd(e, pscale(x.e, 1 << 8 * i))
    return bs, e
