"""Loads the syntax trees of the real sources (syn, via tools/rastdump) and indexes their items."""
import json, os, subprocess, re, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BIN = os.path.join(ROOT, "build/rastdump/release/rastdump")
FF = None


def ff_src():
    import glob
    c = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/ff_ce-0.12*/src/lib.rs"))
    c += glob.glob("/root/.cargo/registry/src/*/ff_ce-0.12*/src/lib.rs") + glob.glob("/usr/local/cargo/registry/src/*/ff_ce-0.12*/src/lib.rs")
    return c[0]


def ensure():
    if not os.path.exists(BIN):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.88.0", CARGO_TARGET_DIR=os.path.join(ROOT, "build/rastdump"))
        subprocess.run(["cargo", "build", "--release", "-q"], cwd=os.path.join(ROOT, "tools/rastdump"), env=env, check=True)


class Missing(Exception):
    pass


def load(files):
    ensure()
    r = subprocess.run([BIN] + files, capture_output=True, text=True, check=True)
    return json.loads(r.stdout)


def parse_use(t):
    """'crate :: a :: { b , c as d }' -> [(alias, [path])]"""
    toks = re.findall(r"[A-Za-z_0-9]+|::|[{},*]", t)
    out = []

    def tree(i, pre):
        path = list(pre)
        while i < len(toks):
            k = toks[i]
            if k == "{":
                i += 1
                while toks[i] != "}":
                    i = tree(i, path)
                    if toks[i] == ",":
                        i += 1
                return i + 1
            if k == "*":
                out.append(("*", path))
                return i + 1
            if k == "::":
                i += 1
                continue
            if k in (",", "}"):
                break
            if k == "as":
                out.append((toks[i + 1], path))
                return i + 2
            path = path + [k]
            i += 1
        if path and path[-1] == "self":
            path = path[:-1]
        out.append((path[-1] if path else "", path))
        return i
    tree(0, [])
    return out


class Mod:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.fns, self.consts, self.types, self.structs, self.enums, self.traits = {}, {}, {}, {}, {}, {}
        self.uses, self.globs = {}, []
        self.impls, self.lazy = [], {}
        self.macros = []


def cfg_ok(cfgs):
    for c in cfgs or []:
        if "avx" in c and "not(" not in c and "target_feature" in c:
            return False
        if "test" in c or 'feature="cuda"' in c:
            return False
    return True


class Prog:
    """all loaded modules; names are resolved inside a module, then by (module, item), then uniquely"""

    def __init__(self, files, repo=None):
        repo = repo or REPO
        paths = {}
        for f in files:
            p = f if f.startswith("/") else os.path.join(repo, f)
            paths[p] = f
        ast = load(list(paths))
        self.mods = {}
        for p, f in paths.items():
            v = ast.get(p, {"error": "missing"})
            if "error" in v:
                raise Missing(f"{f}: {v['error']}")
            stem = os.path.basename(p)[:-3]
            if stem == "lib":
                stem = os.path.basename(os.path.dirname(os.path.dirname(p))).replace("-", "_")
                if stem.startswith("ff_ce"):
                    stem = "ff"
            elif stem == "mod":
                stem = os.path.basename(os.path.dirname(p))
            m = Mod(stem, p)
            self.mods[stem] = m
            self.collect(m, v["items"])
        self.impls = {}
        for m in self.mods.values():
            for im in m.impls:
                t = im["ty"]
                if t["k"] == "path":
                    n = self.tyname(m, t["p"])
                    self.impls.setdefault(n, []).append((m, im))

    def hoist(self, m, it):
        """types and impls declared inside a function body become items of the module, under a name of their own"""
        for f in [it] if it.get("k") == "fn" else [x for x in it.get("items") or [] if x and x.get("k") == "fn"]:
            loc = [s["i"] for s in f.get("body") or [] if s.get("k") == "item" and s.get("i") and s["i"].get("k") in ("struct", "enum", "impl")]
            names = [x["n"] for x in loc if x["k"] in ("struct", "enum")]
            if not names: continue
            t = json.dumps(f)
            self.nloc = getattr(self, "nloc", 0) + 1
            for n in names: t = t.replace(f'"n": "{n}"', f'"n": "{n}__{self.nloc}"')
            g = json.loads(t)
            f.clear(); f.update(g)
            loc = [s["i"] for s in f["body"] if s.get("k") == "item" and s.get("i") and s["i"].get("k") in ("struct", "enum", "impl")]
            f["body"] = [s for s in f["body"] if not (s.get("k") == "item" and s.get("i") in loc)]
            self.collect(m, loc)

    def collect(self, m, items):
        for it in items:
            k = it.get("k")
            if k in ("fn", "impl") and cfg_ok(it.get("cfg")): self.hoist(m, it)
            if k in ("fn", "const", "struct", "enum", "type", "trait") and not cfg_ok(it.get("cfg")):
                continue
            if k == "fn":
                m.fns[it["n"]] = it
            elif k == "const":
                m.consts[it["n"]] = it
            elif k == "lazy":
                for c in it["items"]:
                    m.consts[c["n"]] = c
            elif k == "struct":
                m.structs[it["n"]] = it
            elif k == "enum":
                m.enums[it["n"]] = it
            elif k == "type":
                m.types[it["n"]] = it
            elif k == "trait":
                m.traits[it["n"]] = it
            elif k == "impl":
                if cfg_ok(it.get("cfg")):
                    m.impls.append(it)
            elif k == "use":
                for al, p in parse_use(it["t"]):
                    if al == "*":
                        m.globs.append(p)
                    else:
                        m.uses[al] = p
            elif k == "mod" and it.get("items"):
                if cfg_ok(it.get("cfg")):
                    self.collect(m, it["items"])
            elif k == "macroitem":
                m.macros.append(it["m"])

    # -------- names
    def find(self, m, segs, kind, seen=0):
        """segs: list of names; kind: 'fns'|'consts'|...; returns (module, item) or None"""
        if seen > 6 or not segs:
            return None
        segs = [s for s in segs if s not in ("crate", "self", "super")] or segs
        n = segs[-1]
        if len(segs) == 1:
            tab = getattr(m, kind)
            if n in tab:
                return m, tab[n]
            if n in m.uses and m.uses[n][-1:] and not (m.uses[n] == [n]):
                r = self.find2(m, m.uses[n], kind, seen + 1)
                if r:
                    return r
            for g in m.globs:
                mm = self.mods.get(g[-1])
                if mm and n in getattr(mm, kind):
                    return mm, getattr(mm, kind)[n]
            return None
        if segs[0] in m.uses and m.uses[segs[0]] != [segs[0]] and m.uses[segs[0]] != segs:
            r = self.find2(m, m.uses[segs[0]] + segs[1:], kind, seen + 1)
            if r:
                return r
        return self.find2(m, segs, kind, seen + 1)

    def find2(self, m, segs, kind, seen):
        segs = [s for s in segs if s not in ("crate", "self", "super")]
        if not segs:
            return None
        n = segs[-1]
        if len(segs) >= 2:
            mm = self.mods.get(segs[-2])
            if mm:
                tab = getattr(mm, kind)
                if n in tab:
                    return mm, tab[n]
                return self.find(mm, [n], kind, seen + 1)
        if n in getattr(m, kind) and len(segs) == 1:
            return m, getattr(m, kind)[n]
        c = [(x, getattr(x, kind)[n]) for x in self.mods.values() if n in getattr(x, kind)]
        if len(c) == 1:
            return c[0]
        return None

    def tyname(self, m, path):
        """canonical name of the type at path (syn path JSON)"""
        segs = [s["n"] for s in path]
        for kind in ("structs", "enums", "types"):
            r = self.find(m, segs, kind)
            if r:
                mm, it = r
                if kind == "types":
                    if it["t"]["k"] == "path":
                        return self.tyname(mm, it["t"]["p"])
                    return segs[-1]
                return mm.name + "::" + it["n"]
        # external type: follow aliases to the full path
        if len(segs) == 1 and segs[0] in m.uses:
            u = [s for s in m.uses[segs[0]] if s not in ("crate", "self", "super")]
            if len(u) >= 2:
                return u[-2] + "::" + u[-1]
            return u[-1]
        if len(segs) >= 2:
            if segs[0] in m.uses:
                u = m.uses[segs[0]] + segs[1:]
                return u[-2] + "::" + u[-1]
            return segs[-2] + "::" + segs[-1]
        return segs[-1]


def digest_fn(fn):
    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k != "ln"}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x
    return hashlib.sha256(json.dumps(strip(fn), sort_keys=True).encode()).hexdigest()[:16]
