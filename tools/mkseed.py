#!/usr/bin/env python3
"""Turn bug definitions into /verif/seeded/<id>/ after confirming each in a scratch copy of /repo.

usage: mkseed.py DEFS.py [id ...]      (DEFS.py: BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)])
A definition is kept only if the patched tree builds, passes `cargo test`, fails the demonstration,
and the unpatched tree passes it.  The checks never read what this writes."""
import json, os, re, runpy, shutil, subprocess, sys

SCR, SEEDED = '/tmp/sd/repo', '/verif/seeded'
BASE = '2339aa4'
DEMO_SH = '''#!/bin/bash
# Runs demo.rs (beside this script) against the crate in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/Cargo.lock.in" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "ydemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
yason = { path = "$repo", features = ["serde"] }
serde_json = { version = "1.0.79", features = ["arbitrary_precision"] }
bincode = "1.3.3"
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
'''
HEAD = '#![allow(unused_imports, dead_code)]\nuse yason::*;\nuse std::str::FromStr;\n\n'

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    if not os.path.isdir(SCR):
        sh(f'cp -a /repo {SCR}')
    for b in bugs:
        if want and b['id'] not in want: continue
        sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', SCR)
        d = f'/tmp/sd/{b["id"]}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        lock = open('/verif/harness/Cargo.lock').read().replace('yharness', 'ydemo')
        open(f'{d}/Cargo.lock.in', 'w').write(lock)
        open(f'{d}/demo.rs', 'w').write(HEAD + b['demo'].strip() + '\n')
        open(f'{d}/demo.sh', 'w').write(DEMO_SH.replace('--quiet', '--quiet --release') if b.get('release') else DEMO_SH); os.chmod(f'{d}/demo.sh', 0o755)
        rc, out = sh(f'bash {d}/demo.sh', SCR)
        if rc: print(b['id'], 'REJECTED: demo fails on the unchanged tree\n', out[-1500:]); continue
        bad = None
        for f, old, new in b['edits']:
            s = open(f'{SCR}/{f}').read()
            if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches of {old[:60]!r}'; break
            open(f'{SCR}/{f}', 'w').write(s.replace(old, new))
        if bad: print(b['id'], 'REJECTED:', bad); continue
        _, diff = sh('git diff', SCR)
        # at least one removed line has to come from the original repository
        removed = []; 
        for m in re.finditer(r'^--- a/(\S+)$(.*?)(?=^diff |\Z)', diff, re.M | re.S):
            f = m.group(1); n = 0
            _, bl = sh(f'git blame -l HEAD -- {f}', SCR); bl = bl.splitlines()
            for l in m.group(2).splitlines():
                h = re.match(r'@@ -(\d+)', l)
                if h: n = int(h.group(1)) - 1; continue
                if l.startswith('-'):
                    c = bl[n].split()[0].lstrip('^')
                    removed.append(sh(f'git merge-base --is-ancestor {c} {BASE}', SCR)[0] == 0); n += 1
                elif l.startswith(' '): n += 1
        rc, out = sh('cargo test --offline 2>&1', SCR)
        if rc: print(b['id'], 'REJECTED: tests\n', '\n'.join(l for l in out.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[:1500]); continue
        rc, out = sh(f'bash {d}/demo.sh', SCR)
        if rc == 0: print(b['id'], 'REJECTED: demo passes with the patch'); continue
        if 'could not compile' in out: print(b['id'], 'REJECTED: demo does not compile'); continue
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        dst = f'{SEEDED}/{b["id"]}'
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        why = [l for l in out.splitlines() if 'panicked' in l or 'assert' in l or 'left' in l or 'right' in l]
        print(b['id'], 'kept', 'original-lines:', f'{sum(removed)}/{len(removed)}', '|', ' '.join(why)[:200])
    sh('git checkout -q -- .', SCR)
main()
