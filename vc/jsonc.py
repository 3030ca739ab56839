"""Contracts of serde / serde_json and of files of text.  A JSON document is Str/number text, a sequence, or a map:
  Op("js", (text,))  string     Op("jn", (number,))  number     Op("ja", items)  array
Text of a number is Op("dec", (value,)): its canonical decimal form (no sign, no leading zero)."""
from eng import *

NI = NotImplemented


def dec(x): return Op("dec", (x,), "str")


def astext(eng, v):
    v = eng.deref(v)
    if isinstance(v, Op) and v.f == "to_string" and isinstance(v.a[0], I): return dec(I(None, v.a[0].e))
    if isinstance(v, Op) and v.f == "to_string" and isinstance(v.a[0], St): return dec(I(None, v.a[0].f["v"].e))
    if isinstance(v, Op) and v.f == "dec": return dec(I(None, v.a[0].e))
    if isinstance(v, (Str, Op)): return v
    raise Unsupported("text")


class Text:
    """str of a number"""
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI
    notkeys = ()

    def binop(self, eng, op, a, b):
        """comparison of keys put together from literals and keys of which only inequality to `notkeys` is known"""
        a, b = eng.deref(a), eng.deref(b)
        if op not in ("==", "!=") or not all(isinstance(x, Str) or isinstance(x, Op) and x.f in ("key", "fmt") for x in (a, b)) or isinstance(a, Str) and isinstance(b, Str): return NI
        parts = lambda x: list(x.a) if isinstance(x, Op) and x.f == "fmt" else [x]
        r = self.same(parts(a), parts(b))
        if r is None: raise Unsupported("comparison of unknown keys")
        return r == (op == "==")

    def same(self, p, q):
        if [vkey(x) for x in p] == [vkey(x) for x in q]: return True
        for s, t in ((p, q), (q, p)):
            if len(s) == 1 and isinstance(s[0], Op) and len(t) == 1 and isinstance(t[0], Str): return False if t[0].v in self.notkeys else None
            if isinstance(s[0], Str) and isinstance(t[0], Str):
                x, y = s[0].v, t[0].v
                k = min(len(x), len(y))
                if x[:k] != y[:k]: return False
                if len(t) == 1 and len(s) == 2 and isinstance(s[1], Op) and s[1].f == "key":
                    if len(y) < len(x) or y[len(x):] in self.notkeys: return False
                if len(s) == 2 == len(t) and x == y and isinstance(s[1], Op) and isinstance(t[1], Op): return False   # distinct keys, same prefix
        return None

    def method(self, eng, ref, v, n, args):
        if isinstance(v, Op) and v.f in ("key", "fmt", "json"):
            if n in ("as_str", "clone", "to_owned", "to_string", "into", "as_ref", "borrow"): return v
            if n in ("as_bytes", "into_bytes"): return Op("bytes", (v,), "bytes")
            if n in ("eq", "ne"):
                r = self.binop(eng, "==", v, args[0])
                return r if r is NI or n == "eq" else not r
            return NI
        if not (isinstance(v, Op) and v.f in ("dec", "to_string")): return NI
        if n in ("as_str", "clone", "to_owned", "to_string", "into", "as_ref", "trim", "borrow"): return v
        if n == "is_empty": return False
        if n == "parse":
            h = eng.cur_hint
            t = eng.cur_targs[0].n if eng.cur_targs else h.a[0].n if h is not None and h.n == "Result" and h.a else None
            x = astext(eng, v).a[0]
            if t in BITS:
                lo, hi = trange(t)
                if eng.decide(eng.cmp(">=", x.e, lo)) and eng.decide(eng.cmp("<=", x.e, hi)): return Ok(I(t, x.e))
                return Err(Str("ParseIntError"))
        return NI


def hook_from_str(c):
    """PrimeField::from_str of a decimal: its value modulo the prime"""
    old = c.static

    def static(eng, n, args):
        if n == "from_str":
            x = eng.deref(args[0])
            if isinstance(x, Op) and x.f in ("dec", "to_string"):
                return Some(c.fromtext(eng, astext(eng, x).a[0].e))
        return old(eng, n, args)
    c.static = static


class Ser:
    """serde::Serializer: records what it is given"""
    assoc = {"Ok": "Json", "Error": "SerError"}
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def val(self, eng, x):
        x = eng.deref(x)
        if isinstance(x, Str) or isinstance(x, Op) and (x.ty == "str" or x.f in ("dec", "to_string")): return Op("js", (astext(eng, x),), "Json")
        if isinstance(x, I): return Op("jn", (I(None, x.e),), "Json")
        if isinstance(x, V): return Op("ja", [self.val(eng, y) for y in x.e], "Json")
        if isinstance(x, Op) and x.ty == "Json": return x
        f = eng.find_method(eng.tyof(x), "serialize", [x])
        if f:
            r = eng.deref(eng.call_fn(f, [Ref(Cell(x)), St("Ser", {})]))
            if r.v == "Ok": return r.a[0]
            raise Unsupported("inner value refused")
        raise Unsupported(f"serialisation of {eng.tyof(x)}")

    def method(self, eng, ref, v, n, args):
        if n in ("serialize_str", "collect_str", "serialize_u64", "serialize_u32", "serialize_u8", "serialize_newtype_struct", "collect_seq", "serialize_some", "serialize_i64", "serialize_u128"):
            return Ok(self.val(eng, args[-1]))
        if n in ("serialize_seq", "serialize_tuple"): return Ok(St("SerSeq", {"v": V([])}))
        if n == "is_human_readable": return True
        return NI


class SerSeq:
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def method(self, eng, ref, v, n, args):
        if n == "serialize_element":
            eng.store(ref.c, ref.p, St("SerSeq", {"v": V(v.f["v"].e + [eng.contracts["Ser"].val(eng, args[0])])}))
            return Ok(UNIT)
        if n == "end": return Ok(Op("ja", v.f["v"].e, "Json"))
        return NI


class De:
    """serde::Deserializer over a document: calls the visitor that fits"""
    assoc = {"Error": "DeError"}
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def method(self, eng, ref, v, n, args):
        if n not in ("deserialize_any", "deserialize_str", "deserialize_string", "deserialize_seq", "deserialize_tuple"): return NI
        j, vis = v.f["j"], eng.deref(args[-1])
        kinds = {"js": ["visit_borrowed_str", "visit_str", "visit_string"] if n != "deserialize_string" else ["visit_string", "visit_str"], "ja": ["visit_seq"], "jn": ["visit_u64"]}[j.f]
        if n in ("deserialize_str", "deserialize_string") and j.f != "js" or n in ("deserialize_seq", "deserialize_tuple") and j.f != "ja": return Err(Op("invalid type", (), "DeError"))
        for k in kinds:
            f = eng.find_method(eng.tyof(vis), k, [vis])
            if f:
                if j.f != "ja": return eng.call_fn(f, [vis, j.a[0]])
                c = Cell(St("SeqAcc", {"v": V(list(j.a)), "i": I("usize", 0)}))
                r = eng.deref(eng.call_fn(f, [vis, Ref(c)]))
                if r.v == "Ok" and c.v.f["i"].e < len(j.a): return Err(Op("trailing elements", (), "DeError"))   # serde_json: end of the sequence
                return r
        return Err(Op("invalid type", (), "DeError"))


class SeqAcc:
    assoc = {"Error": "DeError"}
    def assoc_const(self, eng, n): return None
    def static(self, eng, n, args): return NI

    def method(self, eng, ref, v, n, args):
        if n == "size_hint": return NONE
        if n == "next_element":
            if not eng.cur_targs: raise Unsupported("element type")
            t = eng.cur_targs[0]
            i = v.f["i"].e
            if i >= len(v.f["v"].e): return Ok(NONE)
            j = v.f["v"].e[i]
            eng.store(ref.c, ref.p, St("SeqAcc", {"v": v.f["v"], "i": I("usize", i + 1)}))
            r = self.read(eng, t, j)
            return NI if r is NI else Ok(Some(r.a[0])) if r.v == "Ok" else r
        return NI

    def read(self, eng, t, j):
        """the value of type t a document stands for"""
        bad = Err(Op("invalid type", (), "DeError"))
        if t.n in ("String", "str"): return Ok(j.a[0]) if j.f == "js" else bad
        if t.n in BITS:
            if j.f != "jn": return bad
            lo, hi = trange(t.n)
            ok = eng.decide(eng.cmp(">=", j.a[0].e, lo)) and eng.decide(eng.cmp("<=", j.a[0].e, hi))
            return Ok(I(t.n, j.a[0].e)) if ok else bad
        if t.n == "Vec":
            if j.f != "ja": return bad
            out = []
            for x in j.a:
                r = self.read(eng, t.a[0], x)
                if r is NI or r.v != "Ok": return r
                out.append(r.a[0])
            return Ok(V(out))
        f = eng.find_method(t.n, "deserialize", [])
        if f: return eng.deref(eng.call_fn(f, [St("De", {"j": j})]))
        return NI


class TypeIdC:
    def assoc_const(self, eng, n): return None

    def static(self, eng, n, args):
        if n == "of" and eng.cur_targs: return Op("typeid", (Str(eng.cur_targs[0].n),), "TypeId")
        return NI

    def binop(self, eng, op, a, b):
        a, b = eng.deref(a), eng.deref(b)
        if op in ("==", "!="): return (a.a[0].v == b.a[0].v) == (op == "==")
        return NI

    def method(self, eng, ref, v, n, args): return NI


class Fs:
    """text files by name; w: those written"""

    def __init__(self, files): self.files, self.w, self.lines = files, {}, []
    def assoc_const(self, eng, n): return None

    def name(self, eng, x):
        x = eng.deref(x)
        if not isinstance(x, Str): raise Unsupported("file name")
        return x.v

    def read(self, eng, x):
        n = self.name(eng, x)
        if n in self.w: return Ok(self.text(n))
        return Ok(self.files[n]) if n in self.files else Err(Op("NotFound", (), "io"))

    def text(self, n):
        return self.w[n]

    def static(self, eng, n, args):
        if n in ("create", "open"):
            k = self.name(eng, args[0])
            if n == "create": self.w[k] = []
            elif k not in self.files and k not in self.w: return Err(Op("NotFound", (), "io"))
            return Ok(St("fs::File", {"n": Str(k)}))
        return NI

    def method(self, eng, ref, v, n, args):
        k = v.f["n"].v
        if n in ("write_str", "write_all", "write_text"):
            x = eng.deref(args[0])
            if isinstance(x, Op) and x.f == "bytes": x = x.a[0]
            if k not in self.w: return Err(Op("not writable", (), "io"))
            self.w[k].append(x)
            return Ok(UNIT)
        if n in ("flush", "sync_all"): return Ok(UNIT)
        if n == "read_to_string":
            r = self.read(eng, Str(k))
            a = args[0]
            c, p = eng.through((a.c, a.p))
            eng.store(c, p, r.a[0])
            return Ok(I("usize", 1))
        return NI


class OKey:
    """a map key of which nothing is known except that it is none of the names given (`not_`)"""

    def __init__(self, not_): self.no = not_
    def new(self, i): return Op("key", (I(None, i),), "str")


def jsonfns(eng, fs=None):
    """serde_json on whole values: a document stands for the value it was made from"""
    def to_string(e, a):
        return Ok(Op("json", (e.deref(a[0]),), "str"))

    def back(e, x):
        if isinstance(x, list): x = x[0] if len(x) == 1 else None
        if isinstance(x, Op) and x.f == "json": return Ok(x.a[0])
        raise Unsupported("document")

    def to_writer(e, a):
        e.mcall(a[0] if isinstance(a[0], Ref) else Ref(Cell(a[0])), "write_str", [Op("json", (e.deref(a[1]),), "str")], None)
        return Ok(UNIT)

    def from_reader(e, a):
        v = e.deref(a[0])
        if v.n == "fs::File":
            r = fs.read(e, v.f["n"])
            return back(e, r.a[0])
        raise Unsupported("reader")
    f = eng.fncontracts
    f[("serde_json", "to_string")] = f[("serde_json", "to_string_pretty")] = to_string
    f[("serde_json", "to_vec")] = lambda e, a: Ok(Op("bytes", (Op("json", (e.deref(a[0]),), "str"),), "bytes"))
    f[("serde_json", "from_str")] = lambda e, a: back(e, e.deref(a[0]))
    f[("serde_json", "to_writer")] = f[("serde_json", "to_writer_pretty")] = to_writer
    f[("serde_json", "from_reader")] = from_reader
    if fs is not None:
        def write(e, a):
            x = e.deref(a[1])
            if isinstance(x, Op) and x.f == "bytes": x = x.a[0]
            fs.w[fs.name(e, a[0])] = [x]
            return Ok(UNIT)
        f[("fs", "read_to_string")] = lambda e, a: fs.read(e, a[0])
        f[("fs", "write")] = write


def install(eng, fs=None):
    eng.contracts.update({"Ser": Ser(), "SerSeq": SerSeq(), "De": De(), "SeqAcc": SeqAcc(), "any::TypeId": TypeIdC(), "TypeId": TypeIdC(), "str": Text(), "String": Text()})
    if fs is not None:
        for n in ("fs::File", "File"): eng.contracts[n] = fs
    return eng
