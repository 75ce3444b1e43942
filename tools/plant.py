#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded from /verif/tools/plant/*.py.

usage: plant.py [ID...]     (default: every bug which is not in seeded/ yet)

Each spec file defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...],
main=<rust source>, schemas={name: json5}, build=<loader lines>, kind="rt"|"gen", preload=<C source>)].
A bug is kept only when, in a scratch copy of /repo: the demonstration passes without the change, the
change compiles, every stable test passes with it, and the demonstration fails with it.
"""
import glob, json, os, re, shutil, subprocess, sys, importlib.util
ROOT = '/verif'
PB = '/tmp/pb'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)

DEMO = '''#!/bin/bash
# Run in the repository after a build: passes when the property holds for this scenario.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src" "$S/scratch"
cp "$HERE/main.rs" "$S/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$S/Cargo.lock"
for f in "$HERE"/*.json5; do [ -f "$f" ] && cp "$f" "$S/"; done
[ -f "$HERE/build_rs.txt" ] && cp "$HERE/build_rs.txt" "$S/build.rs"
cat > "$S/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bp3d-proto = { path = "$REPO/runtime" }
bp3d-protoc = { path = "$REPO/compiler" }
[build-dependencies]
bp3d-protoc = { path = "$REPO/compiler" }
EOF
cd "$S"
RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$S/target" cargo build -q --offline
cd "$S/scratch"
'''

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)

def stable_ok():
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', PB)
    n = sum(int(m.group(1)) for m in re.finditer(r'test result: \w+\. (\d+) passed', r.stdout))
    bad = re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M)
    return r.returncode == 0 and n >= 26 and not bad, r.stdout

def write_demo(b, d):
    demo = DEMO
    if b.get('preload'):
        open(f'{d}/fault.c', 'w').write(b['preload'])
        demo += 'gcc -O1 -shared -fPIC -o "$S/fault.so" "$HERE/fault.c" -ldl\nLD_PRELOAD="$S/fault.so" timeout 60 "$S/target/debug/demo"\n'
    else:
        demo += 'timeout 60 "$S/target/debug/demo"\n'
    open(f'{d}/demo.sh', 'w').write(demo)
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(b['main'].strip() + '\n')
    for n, t in b.get('schemas', {}).items():
        open(f'{d}/{n}.json5', 'w').write(t.strip() + '\n')
    if b.get('kind', 'rt') == 'rt':
        loads = b.get('build') or ''.join(f'    l.load("{n}.json5")?;\n' for n in b.get('schemas', {}))
        open(f'{d}/build_rs.txt', 'w').write('fn main() {\n    bp3d_protoc::generate_rust(|l| {\n' + loads +
            '    Ok(())\n    }, |p| p.set_reads_messages(true).set_writes_messages(true));\n}\n')

def plant(b):
    d = f'{ROOT}/seeded/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('git checkout -q -- .', PB)
    write_demo(b, d)
    r = sh(['bash', f'{d}/demo.sh'], PB)
    if r.returncode != 0:
        return 'demo fails on the unchanged tree:\n' + r.stdout[-3000:]
    for f, old, new in b['edits']:
        p = f'{PB}/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            return f'{f}: {t.count(old)} matches of {old!r}'
        open(p, 'w').write(t.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(sh('git diff', PB).stdout)
    ok, out = stable_ok()
    if not ok:
        return 'tests fail:\n' + out[-3000:]
    r = sh(['bash', f'{d}/demo.sh'], PB)
    sh('git checkout -q -- .', PB)
    if r.returncode == 0:
        return 'demo passes with the change'
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print('    ', (r.stdout.strip().splitlines() or ['?'])[-1][:150])
    return None

bugs = {}
for f in sorted(glob.glob(f'{ROOT}/tools/plant/*.py')):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        assert b['id'] not in bugs, b['id']
        bugs[b['id']] = b
if not os.path.isdir(PB):
    subprocess.run(['cp', '-a', '/repo', PB], check=True)
sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', PB)
ids = sys.argv[1:] or [i for i in bugs if not os.path.exists(f'{ROOT}/seeded/{i}/meta.json')]
for i in ids:
    e = plant(bugs[i])
    print(i, 'ok' if e is None else 'REJECTED ' + e, flush=True)
    if e is not None:
        shutil.rmtree(f'{ROOT}/seeded/{i}', ignore_errors=True)
