#!/usr/bin/env python3
"""python3 check.py <ID> [--thorough]   |   python3 check.py --replay FILE   |   python3 check.py --all"""
import json, os, re, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("VC_REEXEC"):
    os.environ["VC_REEXEC"] = "1"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
for d in ("vc", "vc/props", "tools"): sys.path.insert(0, os.path.join(ROOT, d))
import subprocess, threading, importlib, multiprocessing as mp, traceback

REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
KF = os.path.join(ROOT, "known_findings.txt")
import registry

TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def log(*a): print(*a, file=sys.stderr, flush=True)


def envsh():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    return e


def known():
    """id -> (property, text)"""
    out = {}
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m: out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


# ---------------------------------------------------------------- real code driver
class Driver:
    def __init__(self, bins):
        self.bins, self.ok, self.err = bins, {}, {}

    def build(self, deadline):
        t = time.time()
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run([sys.executable, os.path.join(ROOT, "tools/mkws.py")], capture_output=True, text=True, env=envsh())
            if r.returncode:
                for b, _ in self.bins: self.err[b] = "workspace: " + r.stderr[-400:]
                self.secs = time.time() - t
                return
            for b, feats in self.bins:
                try:
                    r = subprocess.run(["cargo", "build", "--release", "--offline", "--features", feats, "--bin", b],
                                       cwd=os.path.join(ROOT, "driver"), env=envsh(), capture_output=True, text=True,
                                       timeout=max(30, deadline - time.time()))
                    if r.returncode == 0: self.ok[b] = os.path.join(TARGET, "release", b)
                    else: self.err[b] = "\n".join([l for l in r.stderr.splitlines() if l.startswith("error")][:5]) or r.stderr[-500:]
                except subprocess.TimeoutExpired:
                    self.err[b] = "build timed out"
        self.secs = time.time() - t

    def run(self, b, req, timeout):
        """-> result dict; a crash or hang of the code under test comes back as a violation"""
        scratch = os.path.join(BUILD, f"scratch-{os.getpid()}")
        os.makedirs(scratch, exist_ok=True)

        def once(rq, tmo):
            try:
                p = subprocess.run([self.ok[b]], input=json.dumps(rq), capture_output=True, text=True, timeout=tmo, cwd=scratch, env=dict(envsh(), TMPDIR=scratch))
            except subprocess.TimeoutExpired:
                return None, "timeout"
            for l in p.stdout.splitlines():
                if l.startswith("RESULT "): return json.loads(l[7:]), None
            return None, f"exit {p.returncode} {p.stderr[-300:]}"
        try:
            r, why = once(req, timeout)
            if r is not None: return r
            j = os.path.join(scratch, "journal")
            r, why2 = once(dict(req, journal=j), timeout * 2)
            if r is not None: return r
            if why2 != "timeout" and os.path.exists(j):
                try:
                    c = json.loads(open(j).read())
                    c["why"] = "process died: " + why2
                    return {"evaluations": 0, "distinct": 0, "samples": [], "tests": {}, "violations": [c]}
                except Exception: pass
            return {"evaluations": 0, "distinct": 0, "samples": [], "tests": {}, "violations": [], "error": why2}
        finally:
            import shutil
            shutil.rmtree(scratch, ignore_errors=True)


def literals(files):
    out, seen = [], set()
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.exists(p): continue
        s = open(p, errors="replace").read()
        if len(s) > 400000: continue
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:u\d+|usize|i\d+)?\b", s):
            try: v = int(m.group(1).replace("_", ""), 0)
            except ValueError: continue
            if 2 < v < 1 << 64 and v not in seen:
                seen.add(v); out.append(str(v))
    return out[:4000]


# ---------------------------------------------------------------- obligations
def child(o, conn):
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    res = {}

    def f(): res.update(o.discharge())
    t = threading.Thread(target=f); t.start(); t.join()
    def clean(x):
        if isinstance(x, dict): return {str(k): clean(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [clean(v) for v in x]
        if isinstance(x, (int, str, float, bool, type(None))): return x
        return repr(x)
    conn.send(clean(res)); conn.close()
    os._exit(0)


def discharge(obls, deadline, par):
    ctx = mp.get_context("fork")
    todo, running, done = list(enumerate(obls)), [], {}
    per = 900 if TIER == "thorough" else 300
    while todo or running:
        while todo and len(running) < par and time.time() < deadline:
            k, o = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(o, b)); p.start(); b.close()
            running.append((k, o, p, a, time.time()))
        if time.time() >= deadline:
            for k, o in todo: done[k] = dict(obligation=o.name, function=o.fn, contract=o.contract, backend=o.backend, status="undecided", reason="out of time before it was started", seconds=0)
            todo = []
        nr = []
        for k, o, p, a, t in running:
            r = None
            if a.poll(0):
                try: r = a.recv()
                except EOFError: r = {"status": "undecided", "reason": "prover process died"}
            elif not p.is_alive():
                r = {"status": "undecided", "reason": "prover process died"}
                if a.poll(0.05):
                    try: r = a.recv()
                    except EOFError: pass
            elif time.time() - t > per or time.time() > deadline:
                p.kill(); r = {"status": "undecided", "reason": "solver time limit"}
            if r is None: nr.append((k, o, p, a, t)); continue
            p.join()
            d = dict(obligation=o.name, function=o.fn, contract=o.contract, backend=o.backend, seconds=round(time.time() - t, 2))
            d.update(r)
            if "status" not in d: d.update(status="undecided", reason="no answer from the prover")
            done[k] = d
            log(f"  {d['status']:10} {d['obligation']} {d.get('reason', '')[:160]} ({d['seconds']}s)")
        running = nr
        if running: time.sleep(0.02)
    return [done[k] for k in sorted(done)]


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: json.dump(obj, f, indent=1)


def check(pid):
    t0 = time.time()
    R = registry.PROPS[pid]
    hard = t0 + (800 if TIER == "quick" else 5400)
    drv = Driver(R.get("driver", []))
    bt = threading.Thread(target=drv.build, args=(t0 + 600,), daemon=True); bt.start()
    obls, err = [], None
    try:
        import rast
        rast.ensure()
        for mod, fn in R.get("obls", []): obls += getattr(importlib.import_module(mod), fn)()
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
        log("obligation generation failed:", err)
    res = discharge(obls, min(hard, t0 + (420 if TIER == "quick" else 4000)), 6 if not bt.is_alive() else 5)
    if err: res.append(dict(obligation="generation", function="-", contract="-", backend="-", status="undecided", reason=err, seconds=0))
    bt.join()
    # counterexamples as concrete cases for the real code
    kf = known()
    failed = [r for r in res if r["status"] == "failed"]
    cases, dct = [], literals(R.get("files", []))
    for r in [r for r in res if r["status"] == "failed" or r["status"] == "undecided" and r.get("cex")]:
        try: cs = R["hint"](r["obligation"], r.get("cex") or {}) if R.get("hint") else []
        except Exception: cs = []
        r["replayed"] = cs
        cases += cs
        for v in (r.get("cex") or {}).values():
            if isinstance(v, int) and 0 <= v < 1 << 64: dct += [str(v)] * 20
    secs = R.get("secs", 12) if TIER == "quick" else R.get("secs_thorough", 300)
    undis = [r for r in res if r["status"] != "proved"]
    if undis and TIER == "quick": secs = max(secs, R.get("secs_undecided", 60))
    runs, viol, found = {}, [], {}
    for b, _ in drv.bins:
        if b not in drv.ok: continue
        only = R.get("tests")
        left = hard + 60 - time.time()
        req = dict(prop=pid, seed=SEED, secs=min(secs, max(3, left - 100)), dict=dct, cases=[c for c in cases if c.get("bin", b) == b], scale=R.get("scale", 1) if TIER == "quick" else 4)
        r = None
        if req["cases"]:
            r = drv.run(b, dict(req, cases_only=True), 200)
        if r is None or not r["violations"]:
            r = drv.run(b, req, max(60, min(left, secs * 3 + 120)))
        runs[b] = r
        for v in r["violations"]:
            m = re.search(r"KF:(\S+)", v["why"])
            if m and m.group(1) in kf and kf[m.group(1)][0] == pid: found[m.group(1)] = v
            else: viol.append((b, v))
    # where the counterexample is the function's whole input ("exact"), a failed obligation that the real code handles
    # correctly is an imprecision of the prover; everywhere else the failed obligation stands
    alarms = []
    for r in failed:
        m = re.search(r"KF:(\S+)", r.get("reason", ""))
        if m and m.group(1) in kf and kf[m.group(1)][0] == pid:
            found[m.group(1)] = r; r["status"] = "known-finding"; continue
        ran = [c for c in r["replayed"] if c.get("bin", drv.bins[0][0] if drv.bins else None) in drv.ok]
        if ran and not viol and R.get("exact"):
            r["status"] = "undecided"
            r["reason"] += " [counterexample replayed on the real code without failure: spurious]"
            continue
        alarms.append(r)
    os.makedirs(os.path.join(ROOT, "build", "replays"), exist_ok=True)
    lines = []
    if viol:
        rp = os.path.join("build", "replays", f"{pid}.json")
        write(os.path.join(ROOT, rp), dict(property=pid, kind="input", cases=[dict(bin=b, **v) for b, v in viol], failed_obligations=alarms))
        for b, v in viol: log("  real code:", b, json.dumps(v)[:600])
        lines.append(f"VIOLATION property={pid} replay={rp}")
    elif alarms:
        rp = os.path.join("build", "replays", f"{pid}.json")
        write(os.path.join(ROOT, rp), dict(property=pid, kind="obligation", failed_obligations=alarms))
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    for k, v in kf.items():
        if v[0] == pid and k in found: print(f"KNOWN-FINDING: property={pid} {v[1]}")
    ev = sum(r["evaluations"] for r in runs.values())
    proved = [r for r in res if r["status"] == "proved"]
    canary = [r for r in res if r.get("canary")]
    level = registry.level(pid)
    cov = dict(
        obligations=len(res), discharged=len(proved),
        checker_cmd=f"python3 check.py {pid}" + (" --thorough" if TIER == "thorough" else ""),
        trusted_base=registry.TRUST + R.get("trust", []),
        functions_under_contract=sorted({r["function"] for r in res if r["function"] != "-"}),
        functions_executed_symbolically=sorted({x for r in proved for x in r.get("executed", [])}),
        callee_contracts_used=sorted({x for r in proved for x in r.get("callee_contracts", [])}),
        backends=sorted({r["backend"] for r in proved}),
        solver_seconds=round(sum(r.get("smt_seconds", 0) or 0 for r in res), 2), prover_seconds=round(sum(r["seconds"] for r in res), 2),
        smt_queries=sum(r.get("smt_queries", 0) or 0 for r in res), symbolic_paths=sum(r.get("paths", 0) or 0 for r in res),
        undischarged=[dict(obligation=r["obligation"], status=r["status"], reason=r.get("reason", "")) for r in res if r["status"] != "proved"],
        obligation_list=[dict(obligation=r["obligation"], function=r["function"], contract=r["contract"], status=r["status"], seconds=r["seconds"], bounded=r.get("bounded")) for r in res],
        bounded_obligations=[r["obligation"] + ": " + str(r.get("bounded")) for r in res if r.get("bounded")],
        evaluations=ev, distinct_nontrivial=sum(r["distinct"] for r in runs.values()),
        rule="concrete cross-check of the compiled real code (never counted as proof): words drawn from boundary values, integer literals of the current sources and random words, each compared with an independent big-integer oracle; distinct = distinct input vectors",
        samples=([s for r in runs.values() for s in r["samples"]] + [dict(obligation=r["obligation"], contract=r["contract"]) for r in proved])[:12],
        per_test={b: r["tests"] for b, r in runs.items()},
        driver_errors={**drv.err, **{b: r["error"] for b, r in runs.items() if r.get("error")}},
        explanation=R.get("explanation", "")) 
    write(os.path.join(ROOT, "evidence", f"{pid}.json"), dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov,
          assumptions=R.get("assumptions", []) + registry.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol) + len(alarms)))
    for l in lines: print(l)
    log(f"{pid}: {len(proved)}/{len(res)} obligations proved, {ev} concrete cases, {len(viol)} failing inputs, {len(alarms)} failed obligations, {time.time()-t0:.1f}s")
    return 1 if lines else 0


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    R = registry.PROPS[pid]
    if d["kind"] == "input":
        drv = Driver(R["driver"]); drv.build(time.time() + 800)
        bad = 0
        for c in d["cases"]:
            r = drv.run(c["bin"], dict(prop=pid, cases=[c], cases_only=True), 200)
            for v in r["violations"]: print("FAILS", json.dumps(v)); bad = 1
        return bad
    names = {r["obligation"] for r in d["failed_obligations"]}
    obls = [o for mod, fn in R["obls"] for o in getattr(importlib.import_module(mod), fn)() if o.name in names]
    res = discharge(obls, time.time() + 800, 6)
    print(json.dumps(res, indent=1))
    return 1 if any(r["status"] == "failed" for r in res) else 0


if __name__ == "__main__":
    if "--replay" in sys.argv: sys.exit(replay(sys.argv[sys.argv.index("--replay") + 1]))
    if "--all" in sys.argv:
        for p in registry.PROPS: print(p, check(p))
        sys.exit(0)
    try:
        rc = check(sys.argv[1])
    except Exception:
        # the machinery itself failed: say so, do not raise an alarm
        traceback.print_exc()
        write(os.path.join(ROOT, "evidence", f"{sys.argv[1]}.json"), dict(property=sys.argv[1], tier=TIER, seed=SEED, level="other", coverage=dict(explanation="internal error: " + traceback.format_exc()[-800:]), wall_s=0.0))
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
