"""Builds the fact base: mirrors /repo's current tree as a cargo workspace, compiles it with the
rfacts driver (a rustc front end that dumps the type-checked program) and loads the result.

Nothing of /repo is executed: `cargo check` type-checks it and the driver writes down its MIR."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
if REPO != "/repo":
    WORK = os.path.join(WORK, "alt-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
WS = os.path.join(WORK, "ws")
MISSING = "ordered_iter"


class FactsError(Exception):
    pass


def _write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def _mirror(src, dst, real):
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src)) - real - {".git", "target"}
    for name in os.listdir(dst):
        if name not in names | real:
            path = os.path.join(dst, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path)
            else:
                os.unlink(path)
    for name in names:
        link, to = os.path.join(dst, name), os.path.join(src, name)
        if os.path.islink(link) and os.readlink(link) == to:
            continue
        if os.path.islink(link):
            os.unlink(link)
        elif os.path.isdir(link):
            shutil.rmtree(link)
        os.symlink(to, link)


def _lock(text):
    head, *blocks = re.split(r"(?m)^(?=\[\[package\]\]$)", text)
    packages = []
    for block in blocks:
        p = tomllib.loads(block)["package"][0]
        packages.append((p["name"], p.get("version"), block, "source" in p))
    gone = {MISSING}
    while True:
        packages = [p for p in packages if p[0] not in gone]
        packages = [
            (n, v, re.sub(rf'(?m)^ "{MISSING}( [^"]*)?",\n', "", b), s)
            for n, v, b, s in packages
        ]
        used = {
            d.split(" ")[0]
            for _, _, b, _ in packages
            for d in tomllib.loads(b)["package"][0].get("dependencies", [])
        }
        gone = {n for n, _, _, sourced in packages if sourced and n not in used}
        if not gone:
            break
    return head + "".join(b for _, _, b, _ in packages)


def make_ws():
    root = open(f"{REPO}/Cargo.toml").read()
    members = tomllib.loads(root)["workspace"]["members"]
    _mirror(REPO, WS, set(members) | {"Cargo.toml", "Cargo.lock"})
    _write(f"{WS}/Cargo.toml", re.sub(rf"(?m)^{MISSING} *=.*\n?", "", root))
    for member in members:
        _mirror(f"{REPO}/{member}", f"{WS}/{member}", {"Cargo.toml"})
        text = open(f"{REPO}/{member}/Cargo.toml").read()
        text = re.sub(
            r"""(?m)^stable_bst *= *(['"][^'"]*['"]) *$""",
            r"stable_bst = { version = \1, default-features = false }",
            text,
        )
        _write(f"{WS}/{member}/Cargo.toml", text)
    _write(f"{WS}/Cargo.lock", _lock(open(f"{REPO}/Cargo.lock").read()))
    return members


def source_files():
    out = []
    root = open(f"{REPO}/Cargo.toml").read()
    members = tomllib.loads(root)["workspace"]["members"]
    for m in members:
        for d, dirs, fs in os.walk(os.path.join(REPO, m)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "tests_openfst_data"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    out.append(os.path.join(d, f))
    out += [f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock"]
    return out


def driver_key():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(VERIF, "driver"))):
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def tree_key():
    h = hashlib.sha256(driver_key().encode())
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_ENCODED", "RUSTC", "CARGO_BUILD")):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def build_driver():
    base = os.path.join(VERIF, ".work")
    out = os.path.join(base, "driver")
    exe = os.path.join(out, "debug", "rfacts")
    stamp = os.path.join(out, "key")
    key = driver_key()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    e = _env()
    e["CARGO_TARGET_DIR"] = out
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--offline", "--quiet"],
        cwd=os.path.join(VERIF, "driver"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        raise FactsError("driver build failed:\n" + r.stdout[-4000:])
    open(stamp, "w").write(key)
    return exe


EXPECT = ["rustfst.lib.json", "rustfst_ffi.lib.json", "rustfst_cli.bin.json"]


def build(verbose=False):
    """Returns the directory with the facts of /repo's current tree, building them if needed."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(WORK, "facts", key)
        if os.path.exists(os.path.join(out, "done")):
            return out
        exe = build_driver()
        make_ws()
        shutil.rmtree(os.path.join(WORK, "facts"), ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(WORK, "target")
        # cargo's own freshness test goes by time stamps: force the workspace crates
        for fp in ("debug/.fingerprint", "debug/build"):
            fp = os.path.join(tgt, fp)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("rustfst"):
                        shutil.rmtree(os.path.join(fp, n))
        e = _env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, text=True,
                                 stdout=subprocess.PIPE, check=True).stdout.strip()
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["RFACTS_OUT"] = out
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked", "--workspace"],
                           cwd=WS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if verbose:
            print(r.stdout)
        if r.returncode:
            raise FactsError("/repo does not compile:\n" + r.stdout[-4000:])
        for f in EXPECT:
            if not os.path.exists(os.path.join(out, f)):
                raise FactsError(f"the driver wrote no {f}")
        open(os.path.join(out, "done"), "w").write("ok")
        return out


if __name__ == "__main__":
    print(build(verbose=True))
