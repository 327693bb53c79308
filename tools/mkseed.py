"""Builds seeded/<id>/ from tools/seeds/*.py descriptions, and checks each one in a scratch copy.
usage: python3-vt tools/mkseed.py [--check] [id...]   (each description: one Python dict per file)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds main.rs against the rustc_apfloat in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rustc_apfloat = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
debug = false
T
cd "$d"
unset CARGO_TARGET_DIR RUSTC_WRAPPER
export RUSTFLAGS=--cap-lints=warn CARGO_NET_OFFLINE=true HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
rustup toolchain list 2>/dev/null | grep -q '^1\.98\.1' && export RUSTUP_TOOLCHAIN=1.98.1
timeout 250 cargo run --offline -q
'''
HEAD = '''#![allow(unused_imports)]
use rustc_apfloat::ieee::*;
use rustc_apfloat::ppc::DoubleDouble;
use rustc_apfloat::*;
fn main() {
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(sid, d, wt):
    sh('git checkout -q -- .', wt)
    for f, old, new in d['edits']:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', wt).stdout.decode()
    o = os.path.join(HERE, 'seeded', sid)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.sh', 'w').write(DEMO)
    os.chmod(o + '/demo.sh', 0o755)
    open(o + '/main.rs', 'w').write(HEAD + d['demo'].rstrip() + '\n}\n')
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
              open(o + '/meta.json', 'w'), indent=1)
    sh('git checkout -q -- .', wt)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='1.98.1', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='')
    return e


def check(sid, wt):
    """-> problem text or ''"""
    o = os.path.join(HERE, 'seeded', sid)
    sh('git checkout -q -- .', wt)
    a = sh(['bash', o + '/demo.sh'], wt)
    if a.returncode:
        return 'demo fails on the unchanged tree: ' + a.stdout.decode()[-600:]
    p = sh('git apply %s/patch.diff' % o, wt)
    if p.returncode:
        return 'patch does not apply'
    t = sh('cargo test -p rustc_apfloat --all-targets --locked --offline', wt, env=env())
    r = ''
    if t.returncode:
        bad = [l for l in t.stdout.decode().splitlines() if 'FAILED' in l or l.startswith('error')]
        r = 'tests fail: %s' % bad[:4]
    else:
        b = sh(['bash', o + '/demo.sh'], wt)
        if not b.returncode:
            r = 'demo passes with the patch'
    sh('git checkout -q -- .', wt)
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    wt = tempfile.mkdtemp(prefix='seedwt')
    shutil.rmtree(wt)
    sh(['cp', '-a', '/repo', wt])
    try:
        sd = os.path.join(HERE, 'tools', 'seeds')
        for fn in sorted(os.listdir(sd)):
            sid = fn[:-3]
            if args and sid not in args:
                continue
            d = eval(open(os.path.join(sd, fn)).read())
            try:
                make(sid, d, wt)
            except AssertionError as e:
                print(sid, 'BAD EDIT', e, flush=True)
                continue
            r = check(sid, wt)
            print(sid, d['property'], r or 'ok', flush=True)
            if r:
                shutil.rmtree(os.path.join(HERE, 'seeded', sid))
    finally:
        shutil.rmtree(wt)


main()
