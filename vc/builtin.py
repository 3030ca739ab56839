"""The part of core/std the executor knows (each entry is a trusted specification of a std function)."""
from eng import *
import seq

NI = NotImplemented


def deep_flat(eng, v):
    """leaf list of a nested array value"""
    v = eng.deref(v)
    if isinstance(v, V):
        out = []
        for x in v.e: out += deep_flat(eng, x)
        return out
    return [v]


def free(eng, segs, args, fr, h):
    n = segs[-1]
    if n == "swap" and len(args) == 2:
        a, b = args
        x, y = eng.load(a.c, a.p), eng.load(b.c, b.p)
        if isinstance(x, I) and isinstance(y, I) and x.ty is None: x = I(y.ty, x.e)
        if isinstance(x, I) and isinstance(y, I) and y.ty is None: y = I(x.ty, y.e)
        eng.store(a.c, a.p, y); eng.store(b.c, b.p, x)
        return UNIT
    if n in ("take", "replace") and len(segs) >= 2 and segs[-2] == "mem":
        a = args[0]; x = eng.load(a.c, a.p)
        eng.store(a.c, a.p, args[1] if n == "replace" else (V([]) if isinstance(x, V) else eng.default(TyRef(eng.tyof(x)))))
        return x
    if n == "from_raw_parts":
        # elements behind a pointer cast: the pointee, flattened
        p = args[0]
        if isinstance(p, En) and p.n == "ptrcast": p = p.a[0]
        if not isinstance(p, En) or p.n != "ptr": raise Unsupported("raw pointer")
        flat = deep_flat(eng, p.a[0])
        k = eng.conc(args[1], "raw length")
        if k > len(flat): raise Panic("from_raw_parts beyond the object")
        return Ref(Cell(V(flat[:k])))
    if n in ("min", "max") and len(args) == 2:
        o = eng.order(args[0], args[1])
        if n == "min": return args[0] if o != "Greater" else args[1]
        return args[1] if o != "Greater" else args[0]
    if n == "size_of": return NI
    if n == "once": return It([args[0]])
    if n == "repeat": 
        def g():
            while True: yield args[0]
        return It(g())
    if n == "zip": return method(eng, Ref(Cell(aslist_it(eng, args[0]))), None, "It", "zip", args[1:], fr, (), h)
    if n == "drop": return UNIT
    if n == "scope" and len(args) == 1: return eng.call_val(args[0], [UNIT])
    if n in ("now", "elapsed"): return Op(n, (), "Instant")
    if n == "format": return Str("<fmt>")
    return NI


def static(eng, tn, n, args, p, fr, h):
    if tn in ("Vec", "String", "VecDeque", "HashMap", "BTreeMap"):
        if n in ("new", "with_capacity"):
            if tn == "String": return Str("")
            if tn == "VecDeque": return V([])
            if tn in ("HashMap", "BTreeMap"): return St("HashMap", {"m": V([])})
            if tn == "Vec":
                ta = p[-2]["a"] if len(p) >= 2 else []
                return V([], eng.rty(ta[0], fr).n if ta else None)
            return NI
        if tn in ("Vec", "VecDeque") and n == "from":
            v = eng.deref(args[0])
            if isinstance(v, V): return V(v.e, v.ty)
    if tn in BITS:
        if n == "from":
            v = eng.deref(args[0])
            if isinstance(v, (bool, B)): return eng.b2i(v, tn)
            if isinstance(v, I): return I(tn, eng.wrap(tn, v.e))
            f = eng.find_method(tn, "from", args)
            if f: return eng.call_fn(f, args)
        if n == "try_from":
            v = eng.deref(args[0]); lo, hi = trange(tn)
            if eng.decide(eng.cmp("<=", v.e, hi)) and eng.decide(eng.cmp(">=", v.e, lo)): return Ok(I(tn, v.e))
            return Err(Str("TryFromIntError"))
        if n in ("from_str_radix", "from_str"):
            v = eng.deref(args[0])
            if isinstance(v, St) and v.n == "numstr": return eng.contracts["numstr"].read(eng, v, tn, eng.conc(args[1]) if len(args) > 1 else 10)
            if isinstance(v, Str): return m_str_parse(v, tn, eng.conc(args[1]) if len(args) > 1 else 10)
        if n in ("max_value", "min_value"): return I(tn, trange(tn)[n == "max_value"])
        if n in ("from_le_bytes", "from_be_bytes"):
            v = eng.deref(args[0]); bs = v.e if n == "from_le_bytes" else v.e[::-1]
            e = 0
            for i, b in enumerate(bs): e = padd(e, pscale(b.e, 1 << (8 * i)))
            return I(tn, e)
        if n == "default": return I(tn, 0)
        if args:
            return method(eng, args[0] if isinstance(args[0], Ref) else Ref(Cell(args[0])), eng.deref(args[0]), tn, n, args[1:], fr, (), h)
    if tn == "String" and n in ("from_utf8_lossy", "from_utf8"):
        b = eng.deref(args[0])
        if isinstance(b, seq.SQ):
            if n == "from_utf8_lossy": return St("lossy", {"b": b})
            raise Unsupported("string of unknown bytes")
        b = [eng.norm(x.e) for x in b.e]
        if any(not isinstance(x, int) for x in b): raise Unsupported("string of unknown bytes")
        if n == "from_utf8_lossy": return Str(bytes(b).decode("utf-8", "replace"))
        try: return Ok(Str(bytes(b).decode()))
        except UnicodeDecodeError: return Err(Str("FromUtf8Error"))
    if tn == "String" and n == "from": return args[0] if isinstance(args[0], Str) else eng.deref(args[0])
    if tn in ("Box", "Rc", "Arc") and n == "new": return args[0]
    if tn.split("::")[-1] in ("Mutex", "RwLock") and n == "new": return St(tn.split("::")[-1], {"v": args[0]})
    if tn == "Option" or tn == "Result":
        if n in ("Some", "Ok", "Err"): return En(tn, n, args)
    if n == "default" and not args: return eng.default(TyRef(tn))
    return NI


def aslist_it(eng, v):
    x = eng.iterate(v)
    return It(list(x) if isinstance(x, list) else x)


def lst(eng, v):
    """python list of an iterator value (finite)"""
    x = eng.iterate(v)
    if isinstance(x, list): return x
    raise Unsupported("infinite iterator")


def m_int(eng, ref, v, n, args, h):
    ty = v.ty
    if n in ("clone", "to_owned", "into_iter") and n != "into_iter": return v
    A = [eng.deref(a) for a in args]
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        t = ty or A[0].ty
        return I(t, eng.wrap(t, eng.arith({"a": "+", "s": "-", "m": "*"}[n[9]], v, A[0])))
    if n in ("overflowing_add", "overflowing_sub", "overflowing_mul", "checked_add", "checked_sub", "checked_mul", "saturating_sub", "saturating_add"):
        t = ty or A[0].ty
        op = n.split("_")[1]
        e = eng.arith({"add": "+", "sub": "-", "mul": "*"}[op], v, A[0])
        lo, hi = trange(t)
        if n.startswith("overflowing"):
            w = eng.wrap(t, e)
            return T([I(t, w), eng.bnot(eng.cmp("==", w, e))])
        ok = eng.decide(eng.cmp(">=", e, lo)) and eng.decide(eng.cmp("<=", e, hi))
        if n.startswith("checked"): return Some(I(t, e)) if ok else NONE
        if ok: return I(t, e)
        return I(t, hi if op == "add" else lo)
    if n == "wrapping_neg": return I(ty, eng.wrap(ty, pscale(v.e, -1)))
    if n in ("wrapping_shl", "wrapping_shr"): return eng.binop("<<" if n.endswith("l") else ">>", v, A[0])
    if n == "pow":
        b, k = eng.norm(v.e), eng.conc(A[0])
        if isinstance(b, int): return I(ty, eng.wrap(ty, b ** k))
        r = 1
        for _ in range(k): r = eng.wrap(ty, pmul(r, b))
        return I(ty, r)
    if n == "cmp":
        o = eng.order(v, A[0]); return ORD[o]
    if n == "partial_cmp": return Some(ORD[eng.order(v, A[0])])
    if n in ("min", "max"): return free(eng, [n], [v, A[0]], None, None)
    if n in ("eq", "ne", "lt", "le", "gt", "ge"):
        return eng.binop({"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n], v, A[0])
    if n in ("add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr"):
        return eng.binop({"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "bitand": "&", "bitor": "|", "bitxor": "^", "shl": "<<", "shr": ">>"}[n], v, A[0])
    if n in ("to_le_bytes", "to_be_bytes"):
        k = BITS[ty] // 8; e = eng.norm(v.e); out = []
        for i in range(k):
            l, e = eng.split(e, 8); out.append(I("u8", l))
        return V(out if n == "to_le_bytes" else out[::-1], "u8")
    if n == "into":
        if h is not None and h.n in BITS: return I(h.n, eng.wrap(h.n, v.e))
        if h is not None:
            f = eng.find_method(h.n, "from", [v])
            if f: return eng.call_fn(f, [v])
            c = eng.contracts.get(h.n)
            if c: return c.static(eng, "from", [v])
    if n == "to_string": return Op("to_string", (v,), "str")
    if n == "abs" : 
        return v if eng.decide(eng.cmp(">=", v.e, 0)) else I(ty, eng.wrap(ty, pscale(v.e, -1)))
    e = eng.norm(v.e)
    if n in ("leading_zeros", "trailing_zeros", "count_ones", "is_power_of_two", "next_power_of_two", "swap_bytes", "reverse_bits", "rotate_left", "rotate_right", "ilog2", "div_ceil", "isqrt"):
        if isinstance(e, int):
            b = BITS[ty or "i32"]; u = e & ((1 << b) - 1)
            if n == "leading_zeros": return I("u32", b - u.bit_length())
            if n == "trailing_zeros": return I("u32", b if u == 0 else (u & -u).bit_length() - 1)
            if n == "count_ones": return I("u32", bin(u).count("1"))
            if n == "is_power_of_two": return u != 0 and u & (u - 1) == 0
            if n == "next_power_of_two": return I(ty, 1 if u <= 1 else 1 << (u - 1).bit_length())
            if n == "swap_bytes": return I(ty, int.from_bytes(u.to_bytes(b // 8, "little"), "big"))
            if n == "reverse_bits": return I(ty, int(format(u, f"0{b}b")[::-1], 2))
            if n == "ilog2":
                if u == 0: raise Panic("ilog2(0)")
                return I("u32", u.bit_length() - 1)
            k = eng.conc(A[0])
            if n == "div_ceil": return I(ty, -(-u // k))
            k %= b
            if n == "rotate_right": k = (b - k) % b
            return I(ty, ((u << k) | (u >> (b - k))) & ((1 << b) - 1))
        if n == "div_ceil":
            k = eng.conc(A[0]); return I(ty, eng.divc(padd(e, k - 1), k)[1])
        if n == "leading_zeros" and not signed(ty):
            b = BITS[ty]
            for k in range(b):
                if eng.decide(eng.cmp(">=", e, 1 << (b - 1 - k))): return I("u32", k)
            return I("u32", b)
    return NI


def m_vec(eng, ref, v, n, args, fr, targs, h):
    c, p = ref.c, ref.p
    E = v.e
    if n == "len": return I("usize", len(E))
    if n == "is_empty": return len(E) == 0
    if n == "push":
        x = args[0]
        if isinstance(x, I) and x.ty is None and v.ty in BITS: x = I(v.ty, x.e)
        eng.store(c, p, V(E + [x], v.ty)); return UNIT
    if n == "push_back": return m_vec(eng, ref, v, "push", args, fr, targs, h)
    if n == "push_front": eng.store(c, p, V([args[0]] + E, v.ty)); return UNIT
    if n == "pop_back": n = "pop"
    if n in ("front", "back"): n = {"front": "first", "back": "last"}[n]
    if n == "pop_front":
        if not E: return NONE
        eng.store(c, p, V(E[1:], v.ty)); return Some(E[0])
    if n == "pop":
        if not E: return NONE
        eng.store(c, p, V(E[:-1], v.ty)); return Some(E[-1])
    if n == "remove":
        i = eng.conc(args[0])
        if i >= len(E): raise Panic("remove")
        eng.store(c, p, V(E[:i] + E[i + 1:], v.ty)); return E[i]
    if n == "insert":
        i = eng.conc(args[0])
        if i > len(E): raise Panic("insert")
        eng.store(c, p, V(E[:i] + [args[1]] + E[i:], v.ty)); return UNIT
    if n == "clear": eng.store(c, p, V([], v.ty)); return UNIT
    if n == "truncate": eng.store(c, p, V(E[:eng.conc(args[0])], v.ty)); return UNIT
    if n in ("extend", "extend_from_slice", "append"):
        src = args[0]
        o = eng.deref(src)
        if isinstance(o, seq.SQ):
            k = len(E)
            eng.store(c, p, seq.SQ(eng.norm(padd(o.n, k)), lambda e: o.read(eng, eng.norm(psub(e, k))) if eng.decide(eng.cmp(">=", e, k)) else seq.elem(eng, v, e), (), v.ty))
            if n == "append": eng.store(src.c, src.p, V([], v.ty))
            return UNIT
        xs = [eng.deref(x) for x in lst(eng, src)]
        eng.store(c, p, V(E + xs, v.ty))
        if n == "append":
            s = args[0]; eng.store(s.c, s.p, V([], v.ty))
        return UNIT
    if n == "resize":
        k = eng.conc(args[0]); eng.store(c, p, V((E + [args[1]] * max(0, k - len(E)))[:k], v.ty)); return UNIT
    if n in ("clone", "to_vec", "to_owned", "into_vec", "into_boxed_slice"): return V(E, v.ty)
    if n in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "deref", "borrow_mut"): return Ref(c, p)
    if n in ("iter", "iter_mut", "par_iter", "par_iter_mut", "into_par_iter_mut"): return It([Ref(c, p + (("i", i),)) for i in range(len(E))])
    if n in ("into_iter", "drain", "into_par_iter"):
        if n == "drain":
            r = args[0]
            lo = eng.conc(r.lo) if r.lo is not None else 0
            hi = (eng.conc(r.hi) + (1 if r.incl else 0)) if r.hi is not None else len(E)
            if lo > hi or hi > len(E): raise Panic("drain")
            eng.store(c, p, V(E[:lo] + E[hi:], v.ty))
            return It(E[lo:hi])
        return It(list(E))
    if n in ("first", "last"):
        if not E: return NONE
        return Some(Ref(c, p + (("i", 0 if n == "first" else len(E) - 1),)))
    if n in ("get", "get_mut"):
        i = args[0]
        if isinstance(i, Rng): raise Unsupported("get range")
        e = eng.norm(eng.deref(i).e)
        if not isinstance(e, int): e = eng.conc(eng.deref(i))
        return Some(Ref(c, p + (("i", e),))) if 0 <= e < len(E) else NONE
    if n == "swap":
        i, j = eng.conc(args[0]), eng.conc(args[1])
        if max(i, j) >= len(E): raise Panic("swap")
        L = list(E); L[i], L[j] = L[j], L[i]
        eng.store(c, p, V(L, v.ty)); return UNIT
    if n == "fill": eng.store(c, p, V([args[0]] * len(E), v.ty)); return UNIT
    if n == "reverse": eng.store(c, p, V(E[::-1], v.ty)); return UNIT
    if n in ("sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by_key", "sort_unstable"):
        if n == "sort_unstable_by_key": raise Unsupported(n)
        rf = lambda x: Ref(Cell(x))
        if n == "sort_by": le = lambda a, b: eng.call_val(args[0], [rf(a), rf(b)]).v != "Greater"
        elif n.startswith("sort_by"): le = lambda a, b: eng.order(eng.call_val(args[0], [rf(a)]), eng.call_val(args[0], [rf(b)])) != "Greater"
        else: le = lambda a, b: eng.order(a, b) != "Greater"
        eng.store(c, p, V(insertion(eng, E, le), v.ty)); return UNIT
    if n == "dedup":
        out = []
        for x in E:
            if not out or not eng.decide(eng.eq(out[-1], x)): out.append(x)
        eng.store(c, p, V(out, v.ty)); return UNIT
    if n == "retain": eng.store(c, p, V([x for x in E if eng.decide(eng.deref(eng.call_val(args[0], [Ref(Cell(x))])))], v.ty)); return UNIT
    if n == "split_off":
        k = eng.conc(args[0])
        if k > len(E): raise Panic("split_off")
        eng.store(c, p, V(E[:k], v.ty)); return V(E[k:], v.ty)
    if n in ("starts_with", "ends_with"):
        q = eng.deref(args[0]).e
        if len(q) > len(E): return False
        return eng.eqall(zip(E[:len(q)] if n[0] == "s" else E[len(E) - len(q):], q))
    if n in ("copy_from_slice", "clone_from_slice"):
        s = eng.deref(args[0])
        if len(s.e) != len(E): raise Panic("copy_from_slice length")
        eng.store(c, p, V(s.e, v.ty)); return UNIT
    if n in ("chunks", "chunks_mut", "chunks_exact", "par_chunks", "par_chunks_mut", "chunks_exact_mut", "par_chunks_exact"):
        k = eng.conc(args[0])
        if k == 0: raise Panic("chunk size 0")
        top = len(E) - len(E) % k if "exact" in n else len(E)
        return It([Ref(c, p + (("s", i, min(i + k, len(E))),)) for i in range(0, top, k)])
    if n == "windows":
        k = eng.conc(args[0]); return It([Ref(c, p + (("s", i, i + k),)) for i in range(0, len(E) - k + 1)])
    if n in ("split_at", "split_at_mut"):
        k = eng.conc(args[0])
        if k > len(E): raise Panic("split_at")
        return T([Ref(c, p + (("s", 0, k),)), Ref(c, p + (("s", k, len(E)),))])
    if n == "concat":
        out = []
        for x in E: out += eng.deref(x).e
        return V(out)
    if n == "contains":
        for x in E:
            if eng.decide(eng.eq(x, args[0])): return True
        return False
    if n in ("as_ptr", "as_mut_ptr"): return En("ptr", "ptr", (V(E),))
    if n == "eq": return eng.eq(v, args[0])
    if n == "ne": return eng.bnot(eng.eq(v, args[0]))
    if n == "into": return v
    if n == "map": return V([eng.call_val(args[0], [x]) for x in E])
    if n == "try_into": return Ok(v)
    if n == "with_min_len" or n == "reserve": return UNIT
    return NI


def m_it(eng, ref, v, n, args, fr, targs, h):
    fin = isinstance(v.items, list)
    if not fin and n not in ("zip", "next", "take", "map", "enumerate", "skip"): raise Unsupported(f"{n} on infinite iterator")
    L = v.items[v.pos:] if fin else None
    call = eng.call_val
    if n == "next":
        if fin:
            if not L: return NONE
            x = It(v.items); x.pos = v.pos + 1
            eng.store(ref.c, ref.p, x)
            return Some(L[0])
        return Some(next(v.items))
    if n in ("into_iter", "iter", "by_ref", "with_min_len", "fuse", "into_par_iter"): return v if n != "by_ref" else ref
    if n == "rev": return It(L[::-1])
    if n == "enumerate":
        if fin: return It([T([I("usize", i), x]) for i, x in enumerate(L)])
        return It(T([I("usize", i), x]) for i, x in enumerate(v.items))
    if n == "skip":
        k = eng.conc(args[0])
        if fin: return It(L[k:])
        for _ in range(k): next(v.items)
        return v
    if n == "take":
        k = eng.conc(args[0])
        if fin: return It(L[:k])
        return It([next(v.items) for _ in range(k)])
    if n == "step_by": return It(L[::eng.conc(args[0])])
    if n in ("cloned", "copied"): return It([eng.deref(x) for x in L])
    if n == "zip":
        o = eng.iterate(args[0])
        src = L if fin else v.items
        if not isinstance(src, list) and not isinstance(o, list): raise Unsupported("zip of infinite iterators")
        return It([T([a, b]) for a, b in zip(src, o)] if isinstance(src, list) else [T([next(src), b]) for b in o])
    if n == "chain": return It(L + lst(eng, args[0]))
    if n == "map":
        if fin: return It([call(args[0], [x]) for x in L])
        return It(call(args[0], [x]) for x in v.items)
    if n == "for_each":
        for x in L: call(args[0], [x])
        return UNIT
    if n == "filter": return It([x for x in L if eng.decide(call(args[0], [Ref(Cell(x))]))])
    if n == "filter_map":
        out = [call(args[0], [x]) for x in L]; return It([x.a[0] for x in out if x.v == "Some"])
    if n == "flat_map":
        out = []
        for x in L: out += lst(eng, call(args[0], [x]))
        return It(out)
    if n == "flatten":
        out = []
        for x in L: out += lst(eng, x)
        return It(out)
    if n == "fold":
        a = args[0]
        for x in L: a = call(args[1], [a, x])
        return a
    if n == "reduce":
        # rayon reduce(identity, op) / Iterator::reduce(op)
        if len(args) == 2: a = call(args[0], [])
        elif not L: return NONE
        else: a, L = L[0], L[1:]
        for x in L: a = call(args[-1], [a, x])
        return a if len(args) == 2 else Some(a)
    if n in ("all", "any"):
        for x in L:
            r = eng.decide(eng.deref(call(args[0], [x])))
            if r != (n == "all"): return r
        return n == "all"
    if n == "count" or n == "len": return I("usize", len(L))
    if n == "last": return Some(L[-1]) if L else NONE
    if n == "nth":
        k = eng.conc(args[0]); return Some(L[k]) if k < len(L) else NONE
    if n in ("sum", "product"):
        if not L:
            if h is not None: 
                return I(h.n, 0 if n == "sum" else 1)
            raise Unsupported("empty sum")
        a = eng.deref(L[0])
        for x in L[1:]: a = eng.binop("+" if n == "sum" else "*", a, x)
        return a
    if n in ("max", "min"):
        if not L: return NONE
        a = L[0]
        for x in L[1:]: a = free(eng, [n], [a, x], fr, None)
        return Some(a)
    if n == "collect_vec": return V(L)
    if n == "collect":
        t = targs[0] if targs else h
        if t is not None and isinstance(t, TyRef) and t.n == "Result":
            out = []
            for x in L:
                x = eng.deref(x)
                if x.v == "Err": return x
                out.append(x.a[0])
            return Ok(V(out))
        if t is not None and isinstance(t, TyRef) and t.n in ("HashMap", "BTreeMap"):
            r = Ref(Cell(St("HashMap", {"m": V([])})))
            m_map(eng, r, eng.load(r.c, r.p), "extend", [It(list(L))])
            return eng.load(r.c, r.p)
        if t is not None and isinstance(t, TyRef) and t.n in ("String", "HashSet"): raise Unsupported("collect into " + t.n)
        return V(L)
    if n == "position":
        for i, x in enumerate(L):
            if eng.decide(eng.deref(call(args[0], [x]))): return Some(I("usize", i))
        return NONE
    if n == "find":
        for x in L:
            if eng.decide(eng.deref(call(args[0], [Ref(Cell(x))]))): return Some(x)
        return NONE
    if n in ("take_while", "skip_while"):
        k = 0
        while k < len(L) and eng.decide(eng.deref(call(args[0], [Ref(Cell(L[k]))]))): k += 1
        return It(L[:k] if n == "take_while" else L[k:])
    if n == "unzip": return T([V([x.e[0] for x in L]), V([x.e[1] for x in L])])
    if n == "cycle": 
        def cyc():
            while True:
                yield from L
        return It(cyc())
    if n == "try_for_each":
        for x in L:
            r = call(args[0], [x])
            if r.v in ("Err", "None"): return r
        return Ok(UNIT)
    return NI


def m_en(eng, ref, v, n, args, h):
    good = v.v in ("Some", "Ok")
    x = v.a[0] if v.a else None
    if v.n in ("Option", "Result"):
        if n in ("unwrap", "expect", "unwrap_unchecked"):
            if good: return x
            raise Panic(f"{n} on {v.v}")
        if n in ("unwrap_or",): return x if good else args[0]
        if n == "unwrap_or_else": return x if good else eng.call_val(args[0], [] if v.v == "None" else [x])
        if n == "unwrap_or_default":
            return x if good else eng.default(h)
        if n in ("is_some", "is_ok"): return good
        if n in ("is_none", "is_err"): return not good
        if n in ("as_ref", "as_mut"): return En(v.n, v.v, [Ref(ref.c, ref.p + (("a", i),)) for i in range(len(v.a))])
        if n == "map": return En(v.n, v.v, (eng.call_val(args[0], [x]),)) if good else v
        if n == "map_err": return v if good else En(v.n, v.v, (eng.call_val(args[0], [x]),))
        if n in ("and_then",): return eng.call_val(args[0], [x]) if good else v
        if n == "ok_or": return Ok(x) if good else Err(args[0])
        if n == "ok_or_else": return Ok(x) if good else Err(eng.call_val(args[0], []))
        if n == "ok": return Some(x) if good else NONE
        if n == "map_or": return eng.call_val(args[1], [x]) if good else args[0]
        if n in ("copied", "cloned"): return En(v.n, v.v, [eng.deref(a) for a in v.a])
        if n == "take":
            eng.store(ref.c, ref.p, NONE); return v
        if n in ("get_or_insert", "get_or_insert_with", "insert") and v.n == "Option" and ref is not None:
            if not good or n == "insert": eng.store(ref.c, ref.p, Some(eng.call_val(args[0], []) if n == "get_or_insert_with" else args[0]))
            return Ref(ref.c, ref.p + (("a", 0),))
        if n == "replace" and v.n == "Option":
            eng.store(ref.c, ref.p, Some(args[0])); return v
        if n in ("is_some_and", "is_ok_and"): return eng.call_val(args[0], [x]) if good else False
        if n == "is_none_or": return True if not good else eng.call_val(args[0], [x])
        if n == "map_or_else": return eng.call_val(args[1], [x]) if good else eng.call_val(args[0], [] if v.v == "None" else [x])
        if n == "or": return v if good else args[0]
        if n == "filter": return (v if eng.decide(eng.call_val(args[0], [Ref(ref.c, ref.p + (("a", 0),)) if ref is not None else x])) else NONE) if good else v
        if n == "or_else": return v if good else eng.call_val(args[0], [] if v.v == "None" else [x])
        if n in ("iter", "into_iter"): return It([x] if good else [])
        if n in ("context", "with_context"): return v if good else Err(Str("context"))
    if n == "clone": return v
    if v.v in ORD:
        if n == "reverse": return ORD[{"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[v.v]]
        if n == "then": return v if v.v != "Equal" else args[0]
        if n == "then_with": return v if v.v != "Equal" else eng.call_val(args[0], [])
        if n in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
            return {"is_lt": v.v == "Less", "is_le": v.v != "Greater", "is_gt": v.v == "Greater", "is_ge": v.v != "Less", "is_eq": v.v == "Equal", "is_ne": v.v != "Equal"}[n]
    if n == "eq": return eng.eq(v, args[0])
    return NI


def m_map(eng, ref, v, n, args):
    E = v.f["m"].e
    at = lambda i: Ref(ref.c, ref.p + (("f", "m"), ("i", i), ("f", "1")))

    def find(k):
        for i, x in enumerate(E):
            if eng.decide(eng.eq(x.e[0], k)): return i
        return None
    if n in ("contains_key", "get", "get_mut", "remove"):
        i = find(args[0])
        if n == "contains_key": return i is not None
        if i is None: return NONE
        if n != "remove": return Some(at(i))
        eng.store(ref.c, ref.p, St("HashMap", {"m": V(E[:i] + E[i + 1:])}))
        return Some(E[i].e[1])
    if n == "insert":
        i = find(args[0])
        if i is None:
            eng.store(ref.c, ref.p, St("HashMap", {"m": V(E + [T([eng.deref(args[0]), args[1]])])})); return NONE
        old = E[i].e[1]
        eng.store(at(i).c, at(i).p, args[1])
        return Some(old)
    if n == "len": return I("usize", len(E))
    if n == "is_empty": return not E
    if n in ("iter", "iter_mut"): return It(eng.iterate(ref))
    if n in ("into_iter", "drain"): return It([T(list(t.e)) for t in E])
    if n in ("keys", "values", "values_mut"): return It([Ref(ref.c, ref.p + (("f", "m"), ("i", i), ("f", "0" if n == "keys" else "1"))) for i in range(len(E))])
    if n in ("into_keys", "into_values"): return It([t.e[n == "into_values"] for t in E])
    if n == "extend":
        if seq.symbolic(eng, args[0]): return seq.am_extend(eng, ref, seq.to_sit(eng, args[0]))
        for t in eng.iterate(args[0]):
            t = eng.deref(t)
            m_map(eng, ref, eng.load(ref.c, ref.p), "insert", [eng.deref(t.e[0]), eng.deref(t.e[1])])
        return UNIT
    if n == "append":
        o = args[0]
        c, p = eng.through((o.c, o.p))
        for t in eng.load(c, p).f["m"].e: m_map(eng, ref, eng.load(ref.c, ref.p), "insert", list(t.e))
        eng.store(c, p, St("HashMap", {"m": V([])}))
        return UNIT
    return NI


def method(eng, ref, v, tn, n, args, fr, targs, h):
    if isinstance(v, St) and v.n == "HashMap":
        r = m_map(eng, ref, v, n, args)
        if r is not NI: return r
    if isinstance(v, St) and v.n in ("Mutex", "RwLock") and n in ("lock", "read", "write"): return Ok(Ref(ref.c, ref.p + (("f", "v"),)))
    if isinstance(v, seq.AM):
        r = seq.m_am(eng, ref, v, n, args)
        if r is not NI: return r
    if isinstance(v, seq.SIt): r = seq.m_sit(eng, ref, v, n, args, h, targs)
    elif isinstance(v, seq.SQ): r = seq.m_sq(eng, ref, v, n, args, h)
    elif isinstance(v, Rng) and v.hi is not None and seq.symbolic(eng, v) and n not in ("contains", "clone"):
        it = seq.to_sit(eng, v); r = seq.m_sit(eng, Ref(Cell(it)), it, n, args, h, targs)
    elif isinstance(v, It) and n == "zip" and seq.symbolic(eng, args[0]):
        it = seq.to_sit(eng, v); r = seq.m_sit(eng, ref, it, n, args, h, targs)
    elif isinstance(v, I): r = m_int(eng, ref, v, n, args, h)
    elif isinstance(v, V): r = m_vec(eng, ref, v, n, args, fr, targs, h)
    elif isinstance(v, It): r = m_it(eng, ref, v, n, args, fr, targs, h)
    elif isinstance(v, En): r = m_en(eng, ref, v, n, args, h)
    elif isinstance(v, Rng):
        r = m_vec_range(eng, ref, v, n, args, fr, targs, h)
    else: r = NI
    if r is not NI: return r
    if n in ("clone", "to_owned", "borrow", "as_ref", "cloned", "copied"): return v if n != "as_ref" else ref
    if n == "into":
        if h is not None:
            c = eng.contracts.get(h.n)
            if c:
                r = c.static(eng, "from", [v])
                if r is not NI: return r
            if h.n == tn: return v
            f = eng.find_method(h.n, "from", [v], trait="From")
            if f: return eng.call_fn(f, [v])
        return v
    if n in ("eq", "ne"):
        r = eng.eq(v, args[0]); return r if n == "eq" else eng.bnot(r)
    if n in ("lt", "le", "gt", "ge"):
        return eng.binop({"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n], v, args[0])
    if isinstance(v, (bool, B)):
        if n == "then": return Some(eng.call_val(args[0], [])) if eng.decide(v) else NONE
        if n == "then_some": return Some(args[0]) if eng.decide(v) else NONE
        if n == "not": return eng.bnot(v)
    if isinstance(v, Str):
        r = m_str(eng, ref, v, n, args, targs, h)
        if r is not NI: return r
    return NI


def m_str(eng, ref, v, n, args, targs, h):
    """strings of known content"""
    A = [eng.deref(a) for a in args]
    if n in ("to_string", "as_str", "into", "to_owned", "into_owned", "clone"): return v
    if v.v == "<fmt>": return NI
    if n == "len": return I("usize", len(v.v.encode()))
    if n == "is_empty": return not v.v
    if n in ("as_bytes", "into_bytes"): return V([I("u8", b) for b in v.v.encode()], "u8")
    if n in ("trim", "trim_start", "trim_end"): return Str({"trim": v.v.strip, "trim_start": v.v.lstrip, "trim_end": v.v.rstrip}[n]())
    if n in ("chars", "bytes"): return It([I("char", ord(c)) for c in v.v] if n == "chars" else [I("u8", b) for b in v.v.encode()])
    p = None
    if A:
        p = A[0].v if isinstance(A[0], Str) else (chr(A[0].e) if isinstance(A[0], I) and A[0].ty == "char" else None)
    if p is not None:
        if n == "trim_start_matches":
            x = v.v
            while p and x.startswith(p): x = x[len(p):]
            return Str(x)
        if n in ("starts_with", "ends_with"): return getattr(v.v, n.replace("_", ""))(p)
        if n == "contains": return p in v.v
        if n == "strip_prefix": return Some(Str(v.v[len(p):])) if v.v.startswith(p) else NONE
        if n == "split": return It([Str(x) for x in v.v.split(p)])
        if n == "push_str": eng.store(ref.c, ref.p, Str(v.v + p)); return UNIT
        if n == "push": eng.store(ref.c, ref.p, Str(v.v + p)); return UNIT
    if n == "parse" and (targs or h):
        t = targs[0].n if targs else (h.a[0].n if h.n == "Result" and h.a else None)
        if t in BITS: return m_str_parse(v, t, 10)
        c = eng.contracts.get(t)
        if c: return c.static(eng, "from_str", [v])
    return NI


def m_str_parse(v, t, radix):
    """std's integer parsing: optional sign (minus for signed types only), digits of the radix, in range"""
    x, d = v.v, v.v[1:] if v.v[:1] in ("+", "-") else v.v
    if not d or any(ch not in "0123456789abcdefghijklmnopqrstuvwxyz"[:radix] for ch in d.lower()) or x[0] == "-" and not signed(t): return Err(Str("ParseIntError"))
    x, (lo, hi) = int(x, radix), trange(t)
    return Ok(I(t, x)) if lo <= x <= hi else Err(Str("ParseIntError"))


def insertion(eng, E, le):
    """stable sort; le(a, b) decides whether a may stay before b"""
    out = []
    for x in E:
        k = len(out)
        while k > 0 and not le(out[k - 1], x): k -= 1
        out.insert(k, x)
    return out


def m_vec_range(eng, ref, v, n, args, fr, targs, h):
    if n in ("into_par_iter", "into_iter", "clone"):
        if v.hi is None: return It(eng.iterate(v))
        return It(lst(eng, v))
    if n == "contains":
        x = eng.deref(args[0]); r = True
        if v.lo is not None: r = eng.decide(eng.binop(">=", x, v.lo))
        if r and v.hi is not None: r = eng.decide(eng.binop("<=" if v.incl else "<", x, v.hi))
        return r
    x = eng.iterate(v)
    return m_it(eng, Ref(Cell(It(x))), It(x), n, args, fr, targs, h)
