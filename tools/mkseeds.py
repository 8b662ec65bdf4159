#!/usr/bin/env python3
"""Developer helper: (re)creates /verif/seeded/<id>/ from the list in seeds.py and
confirms each in a scratch copy of /repo: builds, stable tests pass, demo exits 0
without and nonzero with the patch.   usage: mkseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
OUT = '/verif/seeded'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never')
DEMO = r'''#!/bin/bash
# exit 0: the property holds for the demonstrated input; nonzero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
osu-file-parser = { path = "$repo" }
rust_decimal = "1.25.0"
either = "1.7.0"
[workspace]
T
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet --manifest-path "$d/Cargo.toml"
'''
HEAD = '''#![allow(unused_imports)]
use osu_file_parser::*;
use osu_file_parser::{events::*, hitobjects::*, timingpoints::*};
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def main():
    want = sys.argv[1:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    scratch = '/tmp/seedscratch'
    if not os.path.exists(scratch):
        shutil.copytree('/repo', scratch, symlinks=True)
    for s in SEEDS:
        if want and s['id'] not in want: continue
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', scratch)
        d = f"{OUT}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + '/main.rs', 'w').write(s.get('head', HEAD) + s['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        shutil.copy('/verif/tools/demo.lock', d + '/Cargo.lock')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        clean = sh(f'bash {d}/demo.sh', scratch)
        if clean.returncode: print(s['id'], 'DEMO FAILS CLEAN', clean.stderr[-1500:]); continue
        for f, old, new, *n in s['edits']:
            p = f'{scratch}/{f}'; t = open(p).read()
            n = n[0] if n else None
            if n is None:
                if t.count(old) != 1: print(s['id'], 'EDIT', f, t.count(old)); break
                t = t.replace(old, new)
            else:
                parts = t.split(old); 
                if len(parts) <= n + 1: print(s['id'], 'EDITN', f); break
                t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
            open(p, 'w').write(t)
        else:
            open(d + '/patch.diff', 'w').write(sh('git diff', scratch).stdout)
            r = sh('cargo test --workspace --offline --lib --tests 2>&1', scratch)
            failed = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
            comp = 'error' in r.stdout and 'could not compile' in r.stdout
            bad = [l for l in failed]
            dem = sh(f'bash {d}/demo.sh', scratch)
            print(s['id'], 'compile-error' if comp else '', 'failed tests:', bad, 'demo', dem.returncode, (dem.stderr.strip().splitlines() or [''])[-2 if len(dem.stderr.strip().splitlines())>1 else -1][:150])
            if comp: print('\n'.join([l for l in r.stdout.splitlines() if l.startswith('error')][:5]))
        sh('git checkout -q -- .', scratch)
main()
