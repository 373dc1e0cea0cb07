#!/usr/bin/env python3
"""plant.py SPEC.py... : makes /verif/seeded/<id> from specs, after confirming them in a scratch copy.
A spec defines id, prop, edits [(file, old, new)], needs, breaks and demo (the Rust statements of main)."""
import json, os, subprocess, sys, shutil
W = "/tmp/plant"
PRE = '''#![allow(unused)]
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use tedium::types::*;
use tedium::*;
type Mem = Cursor<Vec<u8>>;
fn new() -> TdmsFile<Mem> { TdmsFile::new(Cursor::new(Vec::new())).unwrap() }
fn put<D: TdmsStorageType>(f: &mut TdmsFile<Mem>, c: &[&str], v: &[D], l: DataLayout) {
    let c: Vec<ChannelPath> = c.iter().map(|c| ChannelPath::new("g", c)).collect();
    let mut w = f.writer().unwrap();
    w.write_channels(&c, v, l).unwrap();
    w.sync().unwrap();
}
fn get<F: Read + Seek, D: TdmsStorageType + Clone>(f: &mut TdmsFile<F>, c: &str, z: D) -> Vec<D> {
    let c = ChannelPath::new("g", c);
    let mut v = vec![z; f.channel_length(&c).unwrap() as usize];
    f.read_channel(&c, &mut v).unwrap();
    v
}
/// one segment: tag, flags, version, offsets, metadata, data
fn seg(toc: u32, meta: &[u8], data: &[u8]) -> Vec<u8> {
    let mut b = b"TDSm".to_vec();
    let be = toc & 0x40 != 0;
    b.extend(toc.to_le_bytes());
    let n = (meta.len() + data.len()) as u64;
    let m = meta.len() as u64;
    if be { b.extend(4713u32.to_be_bytes()); b.extend(n.to_be_bytes()); b.extend(m.to_be_bytes()); }
    else { b.extend(4713u32.to_le_bytes()); b.extend(n.to_le_bytes()); b.extend(m.to_le_bytes()); }
    b.extend(meta);
    b.extend(data);
    b
}
fn s(v: &str) -> Vec<u8> { let mut b = (v.len() as u32).to_le_bytes().to_vec(); b.extend(v.as_bytes()); b }
/// object with a full description and no properties
fn full(path: &str, ty: u32, n: u64) -> Vec<u8> {
    let mut b = s(path);
    b.extend(20u32.to_le_bytes()); b.extend(ty.to_le_bytes()); b.extend(1u32.to_le_bytes()); b.extend(n.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b
}
fn same(path: &str) -> Vec<u8> { let mut b = s(path); b.extend(0u32.to_le_bytes()); b.extend(0u32.to_le_bytes()); b }
fn objs(v: &[Vec<u8>]) -> Vec<u8> { let mut b = (v.len() as u32).to_le_bytes().to_vec(); for o in v { b.extend(o); } b }
'''
DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
set -e
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$d/main.rs" "$t/src/main.rs"
cp "$d/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
tedium = { path = "$r", features = ["chrono"] }
chrono = { version = "0.4", default-features = false }
[workspace]
EOF
cd "$t"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" SCRATCH="$t/scratch"
cargo build -q --offline
timeout 60 "$t/target/debug/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    if not os.path.exists(W):
        sh("cp -a /repo " + W)
    for spec in sys.argv[1:]:
        S = {}
        exec(open(spec).read(), S)
        sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s checkout -- ." % (W, W, W))
        out = "/tmp/planted/" + S["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/main.rs", "w").write(PRE + S.get("extra", "") + "fn main() {\n" + S["demo"] + "\n}\n")
        open(out + "/demo.sh", "w").write(DEMO)
        lock = open("/verif/harness/Cargo.lock").read().replace('name = "vh"', 'name = "demo"')
        lock = lock.replace(' "labview-interop",\n "tedium",', ' "tedium",')
        open(out + "/Cargo.lock", "w").write(lock)
        ok = sh("bash %s/demo.sh" % out, cwd=W)
        if ok.returncode:
            print(S["id"], "DEMO FAILS ON CLEAN", ok.stdout[-600:], ok.stderr[-1500:]); continue
        bad = False
        for f, a, b in S["edits"]:
            p = W + "/" + f
            t = open(p).read()
            if t.count(a) != 1:
                print(S["id"], "edit matches", t.count(a), f); bad = True; break
            open(p, "w").write(t.replace(a, b))
        if bad: continue
        diff = sh("git diff", cwd=W).stdout
        t = sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1", cwd=W)
        fails = [l for l in t.stdout.splitlines() if l.endswith("... FAILED") or l.startswith("error")]
        passed = sum(1 for l in t.stdout.splitlines() if l.endswith("... ok"))
        d = sh("bash %s/demo.sh" % out, cwd=W)
        print(S["id"], "tests failing:", fails[:4], "passed", passed, "demo exit", d.returncode, d.stderr.strip().splitlines()[:3][-2:])
        if fails or d.returncode == 0: continue
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": S["prop"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        dst = "/verif/seeded/" + S["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        sh("git checkout -- .", cwd=W)
main()
