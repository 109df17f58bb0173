#!/usr/bin/env python3
"""Confirms a seeded change in a scratch copy: usage seed.py ID [--keep]. seeded/ID holds patch.diff, demo.sh, main.rs ..."""
import subprocess, sys, os, json, shutil
W='/tmp/seedwt/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs('/tmp/seedwt', exist_ok=True)
if not os.path.isdir(W): sh(f'git -C /repo worktree list; cp -a /repo {W}')
sh(f'git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f FETCH_HEAD')
def demo(d):
    # the folder lies elsewhere when it counts, and demos name /repo: run the demo on a copy with /repo replaced
    t='/tmp/seedwt/demo'; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for r,_,fs in os.walk(t):
        for f in fs:
            p=os.path.join(r,f)
            if f.endswith(('.diff','.json')): os.remove(p); continue
            s=open(p).read()
            if '/repo' in s: open(p,'w').write(s.replace('/repo', W))
    r=sh(f'bash {t}/demo.sh', cwd=W, timeout=300)
    return r.returncode, (r.stdout+r.stderr)[-1500:]
for id in sys.argv[1:]:
    d=f'/verif/seeded/{id}'
    rc,o=demo(d); print(id,'demo unchanged rc',rc); 
    if rc: print(o)
    r=sh(f'git -C {W} apply {d}/patch.diff'); print('apply',r.returncode,r.stderr[-300:])
    tests=sh("""mkdir -p /tmp/seedwt/ws/crates && cd /tmp/seedwt/ws && for c in abe byte-fmt cryptography argon2-identity ipcbus; do ln -sfn /tmp/seedwt/repo/crates/$c crates/$c; done
cp /opt/vp/Cargo.lock . ; cp /opt/vp/ws/Cargo.toml .; export RUSTUP_TOOLCHAIN=nightly-2023-11-04 PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR=/tmp/seedwt/tt
cargo test --workspace --no-fail-fast --offline 2>&1 | tee log | grep -E '^error|FAILED|test result'"""); n=sh("grep -c '^test .*ok$' /tmp/seedwt/ws/log").stdout.strip(); print('tests ok:', n, 'FAIL' if 'FAILED' in tests.stdout or 'error' in tests.stdout else '')
    rc,o=demo(d); print(id,'demo patched rc',rc); print(o[-500:])
    sh(f'git -C {W} checkout -q -- .')
