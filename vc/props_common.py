"""Counterexamples of failed obligations as concrete cases for the driver."""


def W(*v): return [str(int(x)) for x in v]


def gl_hint(name, cex):
    out = []
    v = [x for k, x in sorted(cex.items()) if isinstance(x, int) and 0 <= x < 1 << 64]
    if not v: return out
    a = v[0]; b = v[1] if len(v) > 1 else 0
    for f in range(4):
        for t in ("arith", "div", "order"): out.append(dict(test=t, words=W(a, b, f)))
        for t in ("inv", "sqrt"): out.append(dict(test=t, words=W(a, f)))
        out.append(dict(test="exp", words=W(a, b, f))); out.append(dict(test="exp", words=W(b, a, f)))
    out += [dict(test="conv", words=W(x)) for x in v] + [dict(test="repr", words=W(a, b)), dict(test="repr", words=W(b, a))]
    return out


def ext_hint(name, cex):
    n = 5 if name.startswith("F5G") else 3
    g = lambda c: [cex.get(f"{c}{i}", 0) or 0 for i in range(n)]
    f = (1 if cex.get("da") == 1 else 0) | (2 if cex.get("db") == 1 else 0)
    w = W(*g("a"), *g("b"), f, cex.get("s", cex.get("x", cex.get("b", 5))) or 5)
    return [dict(test=t + str(n), words=w) for t in ("ring", "inv", "cmp")] + [dict(test="inv" + str(n), words=W(*g("b"), *g("a"), f, 1)),
            dict(test=f"exp{n}", words=W(*g("a"), f & 1, cex.get("e", 5) or 0))]


def limbs(x): return [(x >> (64 * k)) & (2 ** 64 - 1) for k in range(4)]


def pos_hint(name, cex):
    if "ni" in cex: return [dict(test="len_gl", words=W(cex["ni"] % 20, cex["nc"] % 8, 1))]
    return [dict(test="hash_gl", words=W(*[cex.get(f"i{k}", 0) for k in range(8)], *[cex.get(f"c{k}", 0) for k in range(4)], cex.get("out", 12)))]


def posc_hint(name, cex):
    t = {"poseidon_bn128": "bn_ref", "poseidon_bls12381": "bls_ref", "poseidon_bn128_opt": "bn_opt", "poseidon_bls12381_opt": "bls_opt"}[name.split()[0]]
    if "n" in cex:  # refused lengths are part of every case: selected by the last word
        n = cex["n"]
        z = next(z for z in range(400) if (z % 5 == 0) == (n == 0) and (n == 0 or 17 + z % 20 == n))
        return [dict(test=t, words=W(0, *([1] * 68), z))]
    n = int(name.split()[1])
    st = [cex.get("s", 0)] + [cex.get(f"i{k}", 0) for k in range(16)]
    return [dict(test=t, words=W(n - 1, *[w for x in st for w in limbs(x)], z)) for z in range(n + 2)]


MOD = {"bn": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
       "bls": 52435875175126190479447740508185965837690552500527637822603658699938581184513}


def stk_hint(name, cex):
    cv = cex.get("cv")
    if cv in (0, 1): cv = ("bn", "bls")[cv]
    if "row" in cex: return [dict(test="leaf_" + cv, words=W(s, *r)) for s in (0, 1, 7, 312) for r in (cex["row"], [x + 1 for x in cex["row"]])]
    if cex.get("node"): return [dict(test="node_" + cv, words=W(*[(k * 0x9E3779B97F4A7C15 + s) % 2**64 for k in range(1, 69)])) for s in range(8)]
    if "h" in cex: return [dict(test="tree_" + cv, words=W(cex["h"], cex["w"], s)) for s in (0, 1, 2, 3, 9, 27, 3003, 81 * 7919)]
    if cex.get("sizes") and ("h" in cex["sizes"][0] or "size of" in name) or name.split()[1:] == "honest opening accepted".split():
        cv = "bls" if name.startswith("bls") else "bn"
        hs = [(z["h"], z.get("w", 1)) for z in cex.get("sizes", []) if "h" in z and z["h"] <= 1 << 20]
        return [dict(test=("tree_" if h < 400 and w < 80 else "big_") + cv, words=W(h, min(w, max(1, (1 << 22) // h)), s)) for h, w in hs + [(1, 1), (16, 3), (17, 1), (257, 2), (65537, 1), (4097, 5), (300, 150), (70000, 2)] for s in (1, 2)]
    if cex.get("sizes") and "row" in cex["sizes"][0]:
        cv = "bls" if name.startswith("bls") else "bn"
        return [dict(test="leaf_" + cv, words=W(s, *[(s * j + 17 * j * j + 1) % 2**32 * 0xFFFFFFF for j in range(n)])) for z in cex["sizes"] for n in (z["row"], z["row"] + 1) if n <= 200000 for s in (0, 1, 7)]
    if cex.get("sizes") and "levels" in cex["sizes"][0]:
        cv = "bls" if name.startswith("bls") else "bn"
        return [dict(test="fold_" + cv, words=W(n, (0x123456789abcdef0 << 3) * s, s, s % 9, s % 3, s * 7, s * 3)) for z in cex["sizes"] for n in (z["levels"], z["levels"] + 1) for s in range(6)]
    if cex.get("sizes") and "nb" in cex["sizes"][0]:
        cv = name.split()[0].replace("bn128", "bn").replace("bls12381", "bls")
        ops = 5 if cv == "gl" else 6
        arg = lambda n, nb: ((n - 1) % 40 + 40 * (min(nb, 63) - 1) + 40 * 63 * ((n - 1) // 40)) * ops + 4
        return [dict(test="perm_" + cv, words=W(*pre, arg(n, z["nb"]))) for z in cex["sizes"] for n in (z["n"], z["n"] + 1, z["n"] + 64, 300, 5000) if n < 160000 for pre in ((), (77 * ops, 99 * ops, 3))]
    if "depth" in cex:
        d, i = cex["depth"], cex["idx"]
        h = max(1, min(16 ** min(d, 2), 300))
        return [dict(test="bind_" + cv, words=W(h, 2, s, i % h, k, a, b)) for s in (0, 5) for k in range(8) for a, b in ((0, 0), (1, 17), (i, 33), (3, 1))]
    if "op" in cex:
        ops = 5 if cv == "gl" else 6
        put, many, draw, three, per = (0, 1, 3, 2, 4) if cv == "gl" else (0, 5, 3, 2, 4)
        out = []
        for seed in (1, 2, 9):
            v = lambda j: ((j + seed) * 1000003 % (2**60)) * ops + put
            w = []
            p, o, q = cex.get("pending", 0), cex.get("out", 0), cex.get("out3", 0)
            if o or q:
                r = 8 if cv == "gl" else 16
                w += [v(j) for j in range(r)]
                if cv == "gl": w += [draw] * (12 - o)
                else: w += [per] * (17 - o - (1 if q else 0)) + ([draw] * (3 - q) if q else [])
            else: w += [v(j) for j in range(p)]
            op = cex["op"]
            if op == "perm": w.append((cex["n"] - 1 + 40 * (cex["nb"] - 1)) * ops + per)
            elif op == "get_fields1": w.append(draw)
            elif op == "get_field": w.append(three)
            elif op == "many": w.append((seed * 20 * 7919 + cex["n"] % 20) * ops + many)
            elif op == "digest": w.append(seed * 77777 * ops + 1)
            elif op != "new": w.append(v(99))
            t = "trans_" if op != "perm" else "perm_"
            out.append(dict(test=t + cv, words=W(*w, *[draw] * 20, *[three] * 14)))
            out.append(dict(test=t + cv, words=W(*w, v(5), *[draw] * 3, (9 + 40 * 29) * ops + per, *[draw] * 20)))
        return out
    if "l0" in cex:
        x = sum((cex[f"l{j}"] or 0) << 64 * j for j in range(4)) * pow(2**256, -1, MOD[cv]) % MOD[cv]
        return [dict(test="dig_" + cv, words=W(*limbs(x), 1, 2, 3, 4, 5, 6, 7, 8))]
    if "e0" in cex: return [dict(test="dig_" + cv, words=W(1, 2, 3, 4, *[cex[f"e{j}"] or 0 for j in range(4)], 5, 6, 7, 8))]
    return [dict(test="dig_bn", words=W(*[(k * 0x9E3779B97F4A7C15 + s) % 2**64 for k in range(12)])) for s in range(18)]


def fft_hint(name, cex):
    t = cex.get("t")
    out = []
    for s in (1, 2, 3):
        if t == "poly": out += [dict(test=f"poly{d}", words=W(cex["n"], f, s)) for d in (3, 5) for f in (0, 13, 26)]
        elif t == "fft": out += [dict(test=f"fft{d}", words=W(cex["nb"], cex["np"] - 1, f, s)) for d in (3, 5) for f in (0, 1, 2)] + [dict(test="fftb3", words=W(13, cex["np"] - 1, 0, s))]
        elif t == "ffth": out += [dict(test=f"ffth{d}", words=W(f, s, *[2 * b + (x == "ifft") for x, b in cex["before"]])) for d in (3, 5) for f in (0, 1)]
        elif t == "lde": out += [dict(test=f"lde{d}", words=W(cex["nb"], cex["np"] - 1, f, s, cex["xb"])) for d in (3, 5) for f in (0, 1)] + [dict(test="ldeb3", words=W(12 + s % 2, cex["np"] - 1, 0, s, 1))]
    for z in cex.get("sizes", []):
        if "n" in z: out += [dict(test=f"poly{d}", words=W(n, f, s)) for n in (z["n"], z["n"] + 1) for d in (3, 5) for f in (0, 13, 26) for s in (1, 2)]
    if t == "lde": out += [dict(test="ldew", words=W(k // 7, k % 7)) for k in range(14)]
    if "v" in cex: out.append(dict(test="log2", words=W(cex["v"])))
    if "hist" in cex: out.append(dict(test="br", words=W(*cex["hist"])))
    if t == "br" and "k" in cex: out.append(dict(test="br", words=W(*[y for x in range(min(1 << cex["k"], 64)) for y in (cex["k"], x)])))
    if name.endswith("any history"):
        d = int(name.split()[2])
        for z in cex.get("sizes", []):
            for x in (z.get("cached", 0), z.get("cached", 0) - 1): out.append(dict(test="br", words=W(d, x % 2**64, d, (1 << d) - 1, d + 1, x % 2**64, d, (1 << d) // 3)))
    if name.startswith("BRs of") and int(name.split()[2]) < 15:
        d = int(name.split()[2])
        for z in cex.get("sizes", []) + [dict(start=0, end=1 << d)]: out.append(dict(test="brs", words=W(d, z.get("start", 0), max(z.get("end", 1), 1) - 1)))
    if name.endswith("any number of polynomials"):
        nb = int(name.split()[1].rstrip(",")).bit_length() - 1
        nps = {z["np"] for z in cex.get("sizes", []) if "np" in z} | {1, 2}
        if nb <= 20: out += [dict(test="trans", words=W(nb, tb, x - 1)) for tb in range(nb + 1) for x in sorted(nps) if x << nb <= 1 << 21]
    if t == "trans": out.append(dict(test="trans", words=W(cex["nb"], cex["tb"], cex["np"] - 1)))
    return out


R1CS_BIG = {"linear combination": [0], "any number of constraints": [1], "wire map": [2], "text": [6], "any number of custom": [4, 5, 6], "any number of uses": [7, 8],
            "any file": [3, 9, 2, 1], "loaded circuit": [2, 1]}


def alg_hint(name, cex):
    M = 0x9E3779B97F4A7C15
    k, f = cex.get("k"), cex.get("f")
    i = lambda x, d=0: int(cex[x]) if isinstance(cex.get(x), int) and not isinstance(cex.get(x), bool) else d
    out = []
    if name.startswith("C20") or k == "count" or (k == "any" and "nc" not in cex) or "witness file" in name:
        w = ["wtns_" + f] if f in ("bls", "bn") else ["wtns_bls", "wtns_bn"]
        for t in w:
            for mu in range(16):
                for n in sorted({0, 1, 2, 3, i("n", 5) % 3000} | {max(0, z["len"] - 76) // 32 for z in cex.get("sizes", []) if 0 <= z.get("len", -1) < 76 + 32 * 3000}):
                    for s in range(8): out.append(dict(test=t, words=W(s % 3, n, s * M % 2**64, s + n, mu, (s * 0x010203040506 + s + n) % 2**64)))
        return out
    big = [w for w, s in R1CS_BIG.items() if f"{name} ".split(" ", 1)[1].startswith(w)]
    if big and "k" not in cex:
        t = "r1cs_big_" + name.split()[0]
        return [dict(test=t, words=W(w, n, s, s)) for w in R1CS_BIG[big[0]] for n in (300, 1100, 5000, 70000) for s in (1, 2)]
    if k in ("wf", "bad", "any"):
        t = "r1cs_" + f
        o, nc, nw, npo, npi, ex = i("order"), i("nc", 2), i("nw", 4), i("npo", 1), i("npi", 1), i("extra")
        mus = [0] if k == "wf" else [i("mu")] if i("mu") else range(1, 16)
        for mu in mus:
            for s in range(24):
                for a, b, n, e in ((o, nc, nw, ex), (s % 6, 1 + s % 5, 1 + s % 9, 0)):
                    wh = i("at", i("s") + 256 * max(0, i("d"))) if s == 0 else s * M % 2**64 if s > 8 else s
                    out.append(dict(test=t, words=W(a, b, n, npo, npi, e, s * M % 2**64, s, mu, wh)))
        return out
    if "flags" in cex:
        for s in range(16):
            for fl in {cex["flags"], cex["flags"] | 4, cex["flags"] | 16, cex["flags"] | 28}:
                out += [dict(test=t, words=W(i("ni", 1) - 1 + s // 8, i("nw", 2) + s // 4, max(i("nc"), s % 4), s * M % 2**64, fl)) for t in ("circ_bls", "circ_bn")]
        return out
    for z in cex.get("sizes", []):
        if "words" in z:
            for s in range(4):
                n = z["words"] + s
                w = [(s * j + j + 1) * M % 2**64 >> 7 for j in range(n)]
                for q in range(min(n, 3) + 1): out.append(dict(test="a32", words=W(n, *[0] * q, *w[q:])))
        if "nc" in z:
            for ni, na, nc in {(z["ni"], z["na"], z["nc"]), (z["ni"] + 1, z["na"] + 1, z["nc"] + 1), (3, 5, 300), (300, 300, 3), (70000, 80000, 2), (2, 3, 70000)}:
                if ni < 200000 and ni + na < 400000 and nc < 150000:
                    out += [dict(test=t, words=W(ni - 1, ni + na, nc, s * M % 2**64, f)) for s in (1, 2) for f in (32, 35, 36, 39, 60, 63, 100) if f < 64 or nc < 10 for t in ("circ_bls", "circ_bn")]
        if "entries" in z:
            k = "flat"
            out += [dict(test="flatn", words=W(n, d)) for n in (z["entries"], z["entries"] + 1, 300, 5000, 70001, 140000) for d in (0, 1, 2, 40, 200)]
    if k == "a32":
        n = i("n")
        out.append(dict(test="a32", words=W(n, *[i(f"w{j}") for j in range(n)])))
        for s in range(8):
            w = [(s * j + j + 1) * M % 2**64 >> 7 for j in range(n)]
            for z in range(min(n, 3) + 1): out.append(dict(test="a32", words=W(n, *[0] * z, *w[z:])))
        return out
    if k == "fnv": return [dict(test="fnv", words=W(n, *[(n + j + 1) * M % 2**64 for j in range(n // 8 + 1)])) for n in range(40)]
    if k == "flat": return out + [dict(test="flat", words=W(s * M % 2**64, s)) for s in range(40)] + [dict(test="inputs", words=W(s)) for s in range(40)]
    if k == "wasm": return [dict(test=t, words=W(*[(s * 8 + j) * M % 2**64 if (s + j) % 4 else 0 for j in range(8)])) for s in range(12) for t in ("wasm", "inputs")]
    return out


def ser_hint(name, cex):
    M = 0x9E3779B97F4A7C15
    k = cex.get("k")
    out = []
    if "val" in cex or "numeral" in name:
        v = cex.get("val")
        if isinstance(v, int):
            x, b = abs(v), []
            while x: b.append(x % 2**64); x >>= 64
            out += [dict(test="pil", words=W((v < 0) + f, 0, *(b or [0]))) for f in (0, 2, 4, 6)]
        for s in range(64):
            out += [dict(test="pil", words=W(f, s % 3, *[(s * 3 + j + 1) * M % 2**64 >> (s * 7 % 60 if j else 0) for j in range(1 + s % 5)])) for f in range(4)]
        return out
    if name.startswith("any documents"): k = "join"
    if k == "join":
        A, big = 3 << 20, lambda n: (3 << 25 | min(n, 0xffff) << 32) if n else 0
        for z in [*(cex["sizes"] if isinstance(cex.get("sizes"), list) else []), *([cex["sizes"]] if isinstance(cex.get("sizes"), dict) else []), dict(entries1=300, publics1=300), dict(entries2=5000, publics1=5000), dict(entries1=65535, publics1=69000, entries2=65535)]:
            if not isinstance(z, dict): continue
            g = lambda q: min(max(z.get(q, 0), 0), 69000)
            for a, b in ((A, A), (A, 0), (1 << 20, A), (1 << 21, A), (0, A), (A | 5 << 22, A)):
                for s in range(2): out.append(dict(test="join", words=W(a | 1 << 25 | big(g("entries1")), g("publics1"), b | 1 << 25 | big(g("entries2")), g("publics2"), s + 7)))
        for s in range(60):
            out += [dict(test="join", words=W(a, s % 14, b, (s * 5) % 14, s * M % 2**64)) for a, b in ((A | s * M % 2**20, A | s * 77777 % 2**20), (A, s), (s * M % 2**20, A), (1 << 21 | s, 1 << 20))]
        return out
    if k == "vec": return [dict(test="vec", words=W(0, *[(s * j + j + s) * M % 2**64 for j in range(s)])) for s in range(20)] + [dict(test="vec", words=W(4000, 1, 2, 3))]
    w = lambda s, n: [(s * 9 + j) * M % 2**64 if (s + j) % 5 else (0, 1, 2**64 - 2**32, 2**32)[s % 4] for j in range(n)]
    for s in range(40):
        out += [dict(test="f3", words=W(s, *w(s, 3))), dict(test="f5", words=W(s, *w(s, 5))), dict(test="gl", words=W(*w(s, 5)))]
        out += [dict(test=t, words=W(*w(s, 4))) for t in ("dig_bn", "dig_bls")]
        if s < 8: out += [dict(test=t, words=W(s, s % 9, *w(s, 8))) for t in ("tree_bn", "tree_bls")]
    return out


def gn_hint(name, cex):
    M = 0x9E3779B97F4A7C15
    out = []
    for s in range(30):
        r = s * M % 2**64
        out += [dict(test="proof", words=W(r)), dict(test="key", words=W(r, s % 5)), dict(test="pub", words=W(r, s % 9)), dict(test="pubbad", words=W(r, s))]
        out += [dict(test="bad", words=W(r + j, j % 2, j // 2)) for j in range(12)]
    return out


def pil_hint(name, cex):
    M = 0x9E3779B97F4A7C15
    out = []
    ns = [cex["n"]] if "n" in cex else [z["n"] for z in cex.get("sizes", []) if "n" in z]
    for n in ns + list(range(0, 40)) + [48, 49, 60, 61, 121, 144, 145, 400]: out.append(dict(test="publics", words=W(cex.get("nb", 5), n, n * M % 2**64)))
    for s in range(30):
        out.append(dict(test="gate", words=W(s % 5, s % 30, s // 5 % 2, *[(s * 36 + j + 1) * M % 2**64 for j in range(36)])))
    return out
