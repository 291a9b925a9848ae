#!/usr/bin/env python3
"""plant.py DEFS.py [ID ...]: writes planted bugs into /verif/seeded from their definitions, keeping
those that build, pass the repository's tests and are told apart by their demonstration. Works in a
scratch copy of /repo. Not used by any check."""
import importlib.util, json, os, shutil, subprocess, sys

SCR = "/tmp/plant"
REPO = SCR + "/repo"
OUT = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           PROTOC="/usr/bin/protoc", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

DEMO = '''#!/bin/bash
# Run in the root of the repository. Exit 0: the behaviour below holds.
set -e
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$work/Cargo.toml"
cd "$work"
exec_demo() { cargo run -q --offline 2>&1; }
exec_demo | tail -n 20
exit "${PIPESTATUS[0]}"
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
dlhn = { path = "@REPO@/dlhn"%s }
serde = { version = "1", features = ["derive"] }
serde_bytes = "0.11"
time = "0.3"
num-bigint = "0.4"
num-traits = "0.2"
bigdecimal = "0.3"

[profile.dev]
debug = 0

[workspace]
'''
PRE = '''#![allow(unused_imports, dead_code)]
use dlhn::{Deserializer, Serializer};
use serde::{Deserialize, Serialize};

fn enc<T: Serialize + ?Sized>(v: &T) -> Vec<u8> {
    let mut b = Vec::new();
    v.serialize(&mut Serializer::new(&mut b)).unwrap();
    b
}

fn dec<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Result<(T, usize), dlhn::de::Error> {
    let mut r = b;
    let v = T::deserialize(&mut Deserializer::new(&mut r))?;
    Ok((v, b.len() - r.len()))
}

fn main() {
'''


def sh(cmd, cwd=REPO, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, shell=isinstance(cmd, str), errors="replace")
    return p.returncode, p.stdout


def gen128():
    f = "".join("        f%d: u8,\n" % i for i in range(130))
    return '''
    use dlhn::{DeserializeHeader, Header, SerializeHeader};
    #[derive(SerializeHeader)]
    struct S {
%s    }
    let mut b = Vec::new();
    S::serialize_header(&mut b).unwrap();
    assert_eq!((&b[..]).deserialize_header().unwrap(), Header::Tuple(vec![Header::UInt8; 130]));
''' % f


def write(b):
    d = os.path.join(OUT, b["id"])
    os.makedirs(d, exist_ok=True)
    main = gen128() if b["main"] == "@gen128" else b["main"]
    body = main if main.startswith("\n#!raw") else PRE + main.lstrip("\n") + "}\n"
    body = body.replace("\n#!raw\n", "", 1)
    open(d + "/main.rs", "w").write(body)
    open(d + "/demo.sh", "w").write(b.get("demo") or DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.toml", "w").write(TOML % (b["feats"] or ""))
    shutil.copy("/verif/harness/Cargo.lock", d + "/demo.lock")
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return d


def reset():
    os.makedirs(SCR, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(["cp", "-a", "/repo", REPO], cwd="/")
    sh("git checkout -q -- . && git clean -fdq")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def tests():
    code, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    return code == 0, out[-1500:]


def one(b):
    reset()
    d = write(b)
    ok, o = sh(["bash", d + "/demo.sh"])
    if ok != 0:
        return "demo fails on the unchanged tree:\n" + o
    if "patch" in b:
        code, o = sh(["git", "apply", b["patch"]])
        if code:
            return "patch: " + o
    for f, old, new in b.get("edits", []):
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: %d places match" % (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    _, diff = sh(["git", "diff"])
    open(d + "/patch.diff", "w").write(diff)
    good, o = tests()
    if not good:
        return "tests notice it:\n" + o
    code, o = sh(["bash", d + "/demo.sh"], timeout=300)
    if code == 0:
        return "demo does not notice it"
    reset()
    return None


def main():
    s = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for b in m.B:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        if b["main"] is None:
            continue
        try:
            r = one(b)
        except subprocess.TimeoutExpired:
            r = "timeout"
        print(b["id"], "KEPT" if r is None else "DROPPED: " + r, flush=True)
        if r is not None:
            shutil.rmtree(os.path.join(OUT, b["id"]))


if __name__ == "__main__":
    main()
