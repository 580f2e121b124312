"""Builds the overlay: a copy of /repo's crate with a harness module appended, linked against the
model of tokio, as LLVM IR of the whole program (symbolic) or as an executable (native replay)."""
import os, re, shutil, subprocess, tomllib, hashlib, json, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "+stable"

HARNESS_FEATURES = ["json"]


def tval(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(tval(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {tval(x)}" for k, x in v.items()) + " }"
    return str(v)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, ds, fl in os.walk(p) if "/target" not in d for f in fl)
        for f in fs:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def manifest(native, rope):
    src = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    out = []
    pk = src["package"]
    out += ["[package]", 'name = "tchannel_rs"', f'version = {tval(pk["version"])}', f'edition = {tval(pk.get("edition", "2021"))}', "autobins = false", "autotests = false", "autoexamples = false", "autobenches = false", ""]
    out += ["[lib]", 'crate-type = ["rlib"]' if native else 'crate-type = ["cdylib"]', 'path = "src/lib.rs"', "doctest = false", ""]
    if native:
        out += ["[[bin]]", 'name = "replay"', 'path = "replay.rs"', ""]
    out += ["[dependencies]"]
    for k, v in src.get("dependencies", {}).items():
        out.append(f"{k} = {tval(v)}")
    if "serde_json" not in src.get("dependencies", {}):
        raise BuildError("serde_json is not a dependency any more")
    out.append(f'vk = {{ path = {tval(VERIF + "/models/vk")}{", features = [" + tval("native") + "]" if native else ""} }}')
    out += ["", "[features]"]
    for k, v in src.get("features", {}).items():
        out.append(f"{k} = {tval(v)}")
    out += ["", "[patch.crates-io]", f'tokio = {{ path = {tval(VERIF + "/models/tokio")} }}']
    if rope:
        out.append(f'bytes = {{ path = {tval(VERIF + "/models/bytes")} }}')
    out += ["", "[profile.release]", "opt-level = 1", "debug-assertions = true", "overflow-checks = true", 'panic = "abort"', "codegen-units = 1"]
    out.append("lto = false" if native else 'lto = "fat"')
    out += ["", "[profile.dev]", "opt-level = 0", 'panic = "abort"', "", "[workspace]", ""]
    return "\n".join(out)


def prepare(group, native):
    rope = group.startswith("rope")
    d = os.path.join(BUILD, group + ("-native" if native else "-sym"))
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "src.new")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), tmp)
    for dd, ds, fl in os.walk(tmp):
        for f in fl:
            if f.endswith(".rs"):
                t = open(os.path.join(dd, f)).read()
                n = re.sub(r"\b(std|core)::sync::atomic\b", "tokio::model::atomic", t)
                if n != t:
                    open(os.path.join(dd, f), "w").write(n)
    # hooks into private items, in the copy only
    ap = os.path.join(VERIF, "harness", "append", group)
    for dd, ds, fl in os.walk(ap):
        for f in fl:
            with open(os.path.join(tmp, os.path.relpath(os.path.join(dd, f), ap)), "a") as o:
                o.write(open(os.path.join(dd, f)).read())
    # keep mtimes equal to make cargo rebuild what changed: compare by content
    lib = os.path.join(tmp, "lib.rs")
    with open(lib, "a") as f:
        f.write(f'\n#[allow(dead_code, unused)]\n#[path = "{VERIF}/harness/{group}.rs"]\npub mod vk_harness;\n')
    cur = os.path.join(d, "src")
    if os.path.isdir(cur) and tree_hash_rel(cur) == tree_hash_rel(tmp):
        shutil.rmtree(tmp)
    else:
        shutil.rmtree(cur, ignore_errors=True)
        os.rename(tmp, cur)
        for dd, ds, fl in os.walk(cur):
            for f in fl:
                os.utime(os.path.join(dd, f))
    write_if_changed(os.path.join(d, "Cargo.toml"), manifest(native, rope))
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock) or tree_hash([os.path.join(REPO, "Cargo.lock")]) != readf(lock + ".of"):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
        open(lock + ".of", "w").write(tree_hash([os.path.join(REPO, "Cargo.lock")]))
    if native:
        write_if_changed(os.path.join(d, "replay.rs"), "fn main() {\n    let a: Vec<String> = std::env::args().collect();\n    vk::imp::load(&a[2]);\n    tchannel_rs::vk_harness::dispatch(&a[1]);\n    println!(\"VK done\");\n}\n")
    return d


def tree_hash_rel(p):
    h = hashlib.sha256()
    for d, ds, fl in sorted(os.walk(p)):
        ds.sort()
        for f in sorted(fl):
            h.update(os.path.relpath(os.path.join(d, f), p).encode())
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def readf(p):
    try:
        return open(p).read()
    except OSError:
        return None


def write_if_changed(p, s):
    if readf(p) != s:
        open(p, "w").write(s)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_TARGET", "CARGO_BUILD", "RUSTC")):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build(group, native=False, release=False):
    """Returns the path of the .ll file or of the executable."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, group + ("-native" if native else "-sym") + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = prepare(group, native)
        e = env()
        cmd = ["cargo", TOOLCHAIN, "build", "--offline", "--features", ",".join(HARNESS_FEATURES)]
        if native:
            if release:
                cmd.append("--release")
        else:
            cmd += ["--release", "--lib"]
            e["RUSTFLAGS"] = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -A warnings"
        if native:
            e["RUSTFLAGS"] = "-A warnings"
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(f"{' '.join(cmd)} in {d} failed:\n" + r.stdout[-6000:])
        if native:
            return os.path.join(d, "target", "release" if release else "debug", "replay")
        return os.path.join(d, "target", "release", "deps", "tchannel_rs.ll")


def build_engine():
    d = os.path.join(VERIF, "engine")
    r = subprocess.run(["cargo", TOOLCHAIN, "build", "--release", "--offline"], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-4000:])
    return os.path.join(d, "target", "release", "symir")


if __name__ == "__main__":
    import sys
    t = time.time()
    print(build(sys.argv[1], native="native" in sys.argv, release="release" in sys.argv), f"{time.time()-t:.1f}s")
