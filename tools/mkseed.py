#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes and confirms planted bugs.
SPEC.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo='rust main', release=False)
Confirmation happens in a scratch copy under /tmp/seedw: the patch applies, the repository builds, its 63 tests
pass, the demonstration passes on the unchanged tree and fails on the changed one."""
import json, os, shutil, subprocess, sys, runpy
V = '/verif'; W = '/tmp/seedw'; KIT = V + '/tools/seedkit'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
def sh(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def fresh_copy():
    d = W + '/repo'
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        sh(f'git clone -q /repo {d}', W)
    sh('git fetch -q origin && git checkout -q -f FETCH_HEAD && git clean -fdq', d)
    head = sh('git rev-parse HEAD', '/repo')[1].strip()
    sh(f'git checkout -q -f {head}', d)
    return d
def one(b):
    d = fresh_copy()
    for f, old, new in b['edits']:
        p = f'{d}/{f}'; s = open(p).read()
        n = s.count(old)
        if n != b.get('count', {}).get(f, 1): return f'{f}: {n} matches of {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    patch = sh('git diff', d)[1]
    out = f'{V}/seeded/{b["id"]}'
    if os.path.isdir(out): shutil.rmtree(out)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(patch)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.copy(KIT + '/Cargo.toml', out + '/Cargo.toml.in'); shutil.copy(KIT + '/Cargo.lock', out)
    if b.get('toml'):
        s = open(out + '/Cargo.toml.in').read()
        for o, n in b['toml']:
            assert o in s, o
            s = s.replace(o, n)
        open(out + '/Cargo.toml.in', 'w').write(s)
    shutil.copy(KIT + '/src/kit.rs', out + '/kit.rs')
    rel = b.get('release', False)
    s = open(KIT + '/demo.sh').read().replace('@FLAGS@', '--release' if rel else '').replace('@PROFILE@', 'release' if rel else 'debug')
    open(out + '/demo.sh', 'w').write(s); os.chmod(out + '/demo.sh', 0o755)
    open(out + '/main.rs', 'w').write(b['demo'].lstrip() if 'mod kit' in b['demo'] else 'mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n' + b['demo'].lstrip())
    # the copy is the repository here
    env = dict(ENV, CARGO_TARGET_DIR=W + '/tgt')
    rc, o = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', d, env)
    passed = sum(int(l.split()[3]) for l in o.splitlines() if l.startswith('test result:'))
    if rc or passed != 63: shutil.rmtree(out); return f'tests: rc {rc}, {passed} pass\n' + '\n'.join(l for l in o.splitlines() if 'FAILED' in l or 'error' in l)[:1500]
    rc, o = sh('cargo check -p aucpace -p spake2 --no-default-features --offline', d, env)
    if rc: shutil.rmtree(out); return 'no_std check fails: ' + o[-1500:]
    denv = dict(ENV, DEMO_TARGET=W + '/dtgt')
    rc1, o1 = sh(out + '/demo.sh', d, denv)
    sh('git checkout -q -f .', d)
    # cargo looks at file times: make it rebuild
    sh('find . -name "*.rs" -not -path "./target/*" -exec touch {} +', d)
    rc0, o0 = sh(out + '/demo.sh', d, denv)
    if rc0 != 0 or rc1 in (0, 3): shutil.rmtree(out); return f'demo: clean {rc0} patched {rc1}\n{o0[-1200:]}\n---\n{o1[-1200:]}'
    return None
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
bad = 0
for b in bugs:
    if only and b['id'] not in only: continue
    r = one(b)
    print(b['id'], 'ok' if r is None else 'BAD ' + r, flush=True)
    bad += r is not None
sys.exit(bad > 0)
