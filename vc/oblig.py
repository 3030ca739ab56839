"""Obligations: one per function contract (or lemma).  Each runs the real body symbolically and checks the
postcondition on every feasible path."""
import time, traceback, os, json
from eng import *
from contracts import *
import rast

P64 = 0xFFFFFFFF00000001
_cache = {}


def prog(files):
    k = tuple(files)
    if k not in _cache:
        _cache[k] = rast.Prog(list(files))
    return _cache[k]


class Fail(Exception):
    """a postcondition that does not hold on some path; cex: dict of concrete inputs when known"""

    def __init__(self, msg, cex=None): Exception.__init__(self, msg); self.cex = cex


class Obl:
    def __init__(self, name, fn, contract, run, backend="vc+z3"):
        self.name, self.fn, self.contract, self.run, self.backend = name, fn, contract, run, backend

    def discharge(self):
        t = time.time()
        r = {"obligation": self.name, "function": self.fn, "contract": self.contract, "backend": self.backend}
        try:
            info = self.run() or {}
            r.update(status="proved", **info)
            if info.get("paths") == 0:
                r.update(status="undecided", reason="vacuous: no feasible path")
        except Fail as f:
            r.update(status="failed", reason=str(f), cex=f.cex)
        except (Unsupported, Undecided, rast.Missing) as u:
            r.update(status="undecided", reason=f"{type(u).__name__}: {u}")
            if getattr(u, "cex", None): r["cex"] = u.cex
        except Panic as u:
            r.update(status="undecided", reason=f"panic outside a path: {u}")
        except Exception as x:
            r.update(status="undecided", reason=f"internal: {x!r}", trace=traceback.format_exc()[-800:])
        r["seconds"] = round(time.time() - t, 3)
        return r


def model_vals(eng, m, syms):
    """concrete values of named integer inputs in a z3 model"""
    out = {}
    for n, v in syms.items():
        e = v.e if isinstance(v, I) else v
        if isinstance(e, (int, str)) or e is None: out[n] = e; continue
        z = m.eval(eng.zint(e), model_completion=True) if m is not None else None
        out[n] = z.as_long() if z is not None else None
    return out


def info(eng, paths):
    return {"paths": paths, "smt_queries": eng.stat["queries"], "smt_seconds": round(eng.stat["ztime"], 3),
            "executed": sorted(eng.stat["fns"]), "callee_contracts": sorted(eng.used_contracts)}


def need(eng, cond, msg, inputs):
    r = eng.prove(cond)
    if r == "ok": return
    if r == "unknown": raise Undecided(f"solver gave up: {msg}")
    raise Fail(msg, model_vals(eng, r[1], inputs) if r[1] is not None else None)


def congr(eng, d, p, msg, inputs):
    """d = 0 mod p"""
    r = {}
    for m, c in pd(d).items():
        c %= p
        if c > p // 2: c -= p
        if c: r[m] = c
    d2 = mk(r)
    if d2 == 0: return
    if isinstance(d2, int):
        k = eng.prove(False)
        if k == "ok": return
        raise Fail(msg, model_vals(eng, k[1], inputs) if k[1] is not None else None)
    z = eng.zint(d2)
    k = z3.Int("kq")
    t = eng.check(z != 0)
    if t == z3.unsat: return
    t = eng.check(z % p != 0)
    if t == z3.unsat: return
    if t == z3.unknown: raise Undecided(f"solver gave up: {msg}")
    raise Fail(msg, model_vals(eng, eng.solver.model(), inputs))
