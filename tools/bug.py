"""python3 tools/bug.py SPEC.json: write seeded/<id>/ from the uncommitted diff of a scratch copy.
SPEC: {id, property, needs, what, main (path of main.rs), features}; WT = scratch copy (default /tmp/wt)."""
import json, os, shutil, subprocess, sys

WT = os.environ.get('WT', '/tmp/wt')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory, in a scratch directory, and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0 CARGO_NET_OFFLINE=true
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$here/vm.rs" "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ckb-vm = { path = "$repo", features = ["asm"] }
[profile.dev]
debug = 0
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 2
exec timeout 120 "$d/target/debug/demo"
'''


def main():
    s = json.load(open(sys.argv[1]))
    diff = subprocess.run(['git', '-C', WT, 'diff'], capture_output=True, text=True, check=True).stdout
    assert diff.strip(), 'no change'
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO.replace("exec timeout", "timeout").rstrip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(s['main'], d + '/main.rs')
    shutil.copy(os.path.join(V, 'tools', 'vm.rs'), d + '/vm.rs')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    # the demonstration passes without and fails with the change
    env = dict(os.environ)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=WT, capture_output=True, text=True)
    subprocess.run(['git', '-C', WT, 'stash', '-q'], check=True)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=WT, capture_output=True, text=True)
    subprocess.run(['git', '-C', WT, 'stash', 'drop', '-q'], check=True)
    print(s['id'], 'without', r0.returncode, 'with', r1.returncode)
    if r0.returncode or not r1.returncode or r1.returncode == 2:
        print(r0.stderr[-1500:], r1.stderr[-1500:])


main()
