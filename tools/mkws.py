#!/usr/bin/env python3
"""Same as the sandbox's /opt/vp/mkws.py, for /verif/build/ws, plus visibility only: `mod x;` lines of the
generated lib.rs / mod.rs become `pub mod x;`, and in the files under "pubfns" free functions in column 0
become `pub fn` (so that the driver can call them). Lays out /opt/vp/ws, a cargo workspace of the parts of /repo that need no git dependency.

cargo resolves a whole workspace at once, so /repo's own Cargo.toml cannot be used while the
git dependencies of any member are missing. /opt/vp/ws has the same crates, made of symlinks to
/repo: every source file that gets compiled is the one in /repo. Only these are generated, each
time afresh from the file of the same name in /repo, by commenting out lines:
  - Cargo.toml: dependencies that come from git or from members left out
  - lib.rs / mod.rs: the mod lines of the modules left out
  - starky/src/serializer.rs: the impls for StarkProof and the tests, all of which need stark_gen.
    The impls for F3G and F5G, which most of the crate needs, stay.
Cargo.lock is /repo's, which cargo prunes; check_lock() makes sure that nothing in it changed.
Files are rewritten only when their content changes, so that cargo can work incrementally."""

import os
import re
import shutil
import sys
import tomllib

REPO = os.environ.get("VP_REPO", "/repo")
WS = os.environ.get("VP_WS", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "ws"))

# Modules left out of each lib.rs / mod.rs: they use profiler_macro, franklin_crypto, powdr or Go,
# or another module that does.
CRATES = {
    # complete, with its own Cargo.toml
    "algebraic-gpu": {
        "root": {
            "src/lib.rs": {"pub": True},
            "src/witness/mod.rs": {"pub": True},
            "src/witness/witness_calculator.rs": {"pubfns": True},
        },
    },
    "fields": {
        "deps": {"franklin-crypto"},
        # ff is ff_ce, the locked crates.io package that franklin_crypto::bellman::pairing::ff
        # re-exports: take it directly, with the line that starky/Cargo.toml has for it.
        "add_deps": 'ff = {package="ff_ce" , version="0.12", features = ["derive"]}',
        "root": {
            "src/lib.rs": {
                "drop": [
                    r"pub use franklin_crypto::bellman as bellman_ce;",
                ],
                "replace": [
                    (r"pub use bellman_ce::pairing::ff;", "pub extern crate ff;"),
                ],
            }
        },
    },
    "starky": {
        "deps": {"profiler_macro"},
        "root": {
            "src/fft_p.rs": {"pubfns": True},
            "src/merklehash_bn128.rs": {"pubfns": True},
            "src/merklehash_bls12381.rs": {"pubfns": True},
            "src/lib.rs": {
                "pub": True,
                "mods": [
                    # use profiler_macro
                    "fri", "linearhash", "pil2circom", "polsarray", "prove", "stark_gen",
                    "stark_setup", "stark_verifier_circom", "stark_verifier_circom_onchain",
                    "stark_verify", "starkinfo_fri_prover",
                    # use those
                    "interpreter", "merklehash", "starkinfo", "starkinfo_Z",
                    "starkinfo_codegen", "starkinfo_cp_prover", "starkinfo_cp_ver",
                    "starkinfo_fri_ver", "starkinfo_map",
                ],
            },
            "src/serializer.rs": {
                "drop": [
                    "use crate::fri::FRIProof;",
                    "use crate::fri::Query;",
                    "use crate::stark_gen::StarkProof;",
                ],
                # from such a line to the next "}" in column 0
                "items": [
                    "impl<M: MerkleTree> Serialize for StarkProof<M> {",
                    "impl<'de, T: MerkleTree + Default> Deserialize<'de> for StarkProof<T> {",
                    "mod tests {",
                ],
            },
        },
    },
    "recursion": {
        "deps": {"powdr", "powdr-parser-util", "algebraic"},
        "root": {
            "src/lib.rs": {"pub": True, "mods": ["pilcom", "r1cs2plonk"]},
            "src/compressor12/mod.rs": {
                "pub": True,
                "mods": ["compressor12_exec", "compressor12_setup", "plonk_setup"],
            },
        },
    },
    "recursion-gnark/ffi": {
        "skip": {"build.rs", "go"},
        "root": {"src/lib.rs": {"mods": ["ffi"]}},
    },
}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.unlink(path)
    os.symlink(target, path)


def source(text, rule):
    out = []
    item = False
    for line in text.splitlines(keepends=True):
        code = line.strip()
        if item or line.rstrip() in rule.get("items", ()):
            item = line.rstrip() != "}"
            # an attribute goes with its item
            if out and out[-1].startswith("#[") and not out[-1].startswith("// "):
                out[-1] = "// left out: " + out[-1]
            out.append("// left out: " + line)
            continue
        mod = re.fullmatch(r"(?:pub(?:\(crate\))? )?mod (\w+);", code)
        if mod and mod[1] in rule.get("mods", ()) or code in rule.get("drop", ()):
            line = "// left out: " + line
        for old, new in rule.get("replace", ()):
            if code == old:
                line = new + "\n"
        if rule.get("pub") and not line.startswith("//"):
            line = re.sub(r"^(?:pub(?:\([a-z]+\))? )?(mod \w+;)", r"pub \1", line)
            line = re.sub(r"^(?:pub\([a-z]+\) )(fn )", r"pub \1", line)
        if rule.get("pubfns"):
            line = re.sub(r"^(?:pub\([a-z]+\) )?(fn )", r"pub \1", line)
        out.append(line)
    return "".join(out)


def manifest(text, crate):
    left_out = crate.get("deps", set())
    out = []
    for line in text.splitlines(keepends=True):
        name = re.match(r"([\w-]+)\s*=\s*[\"{]", line)
        if name and name[1] in left_out:
            line = "# left out: " + line
        # feature lists: entries that turn on features of a dependency left out
        elif re.match(r"[\w-]+\s*=\s*\[", line):
            for dep in left_out:
                line = re.sub(rf'"{re.escape(dep)}(/[^"]*)?"\s*,?\s*', "", line)
        out.append(line)
        if line.strip() == "[dependencies]" and "add_deps" in crate:
            out.append(crate["add_deps"] + "\n")
    return "".join(out)


def mirror(src, dst, generated, skip):
    """Real directories on the way to a generated file, symlinks for all else."""
    os.makedirs(dst, exist_ok=True) if not os.path.islink(dst) else (os.unlink(dst), os.makedirs(dst))
    names = {n for n in os.listdir(src) if n not in skip and n != "target"}
    for old in os.listdir(dst):
        if old not in names:
            p = os.path.join(dst, old)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for name in names:
        here = [g[len(name) + 1:] for g in generated if g.startswith(name + "/")]
        if here:
            mirror(os.path.join(src, name), os.path.join(dst, name), here, ())
        elif name not in generated:
            link(os.path.join(src, name), os.path.join(dst, name))


def main():
    os.makedirs(WS, exist_ok=True)
    for name, crate in CRATES.items():
        src, dst = os.path.join(REPO, name), os.path.join(WS, name)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if crate.get("whole"):
            link(src, dst)
            continue
        roots = crate.get("root", {})
        mirror(src, dst, ["Cargo.toml", *roots], crate.get("skip", ()))
        with open(os.path.join(src, "Cargo.toml")) as f:
            write(os.path.join(dst, "Cargo.toml"), manifest(f.read(), crate))
        for path, rule in roots.items():
            with open(os.path.join(src, path)) as f:
                write(os.path.join(dst, path), source(f.read(), rule))
    write(
        os.path.join(WS, "Cargo.toml"),
        "[workspace]\nmembers = [%s]\nresolver = \"2\"\n"
        % ", ".join(f'"{n}"' for n in CRATES),
    )
    # /repo's Cargo.lock goes in when it is new or has changed since it last went in.
    with open(os.path.join(REPO, "Cargo.lock")) as f:
        lock = f.read()
    seen = os.path.join(WS, ".repo-Cargo.lock")
    if not (
        os.path.exists(os.path.join(WS, "Cargo.lock"))
        and os.path.exists(seen)
        and open(seen).read() == lock
    ):
        write(os.path.join(WS, "Cargo.lock"), lock)
        write(seen, lock)


def check_lock():
    def packages(path):
        with open(path, "rb") as f:
            return {
                (p["name"], p["version"], p.get("source"), p.get("checksum"))
                for p in tomllib.load(f)["package"]
            }

    extra = packages(os.path.join(WS, "Cargo.lock")) - packages(os.path.join(REPO, "Cargo.lock"))
    if extra:
        sys.exit(f"not in /repo/Cargo.lock: {sorted(extra, key=str)}")


if __name__ == "__main__":
    check_lock() if sys.argv[1:] == ["--check-lock"] else main()
