#!/usr/bin/env python3
"""plant.py SPEC.py [ids]  -- each spec: dict(id, property, edits=[(file, old, new)], demo, hooks, needs, breaks, env)"""
import sys, os, subprocess, json, shutil, re, importlib.util
R='/tmp/pr/repo'
ENV=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    if not os.path.isdir(R):
        os.makedirs('/tmp/pr', exist_ok=True)
        sh('cp -a /repo /tmp/pr/repo')
    for n in ('build.sh','test.sh'):
        t=open('/opt/vp/'+n).read().replace('/repo', R)
        open('/tmp/pr/'+n,'w').write(t)
    sh(f'git -C {R} checkout -q -- .')
DEMO_SH='''#!/bin/bash
# Exits 0 if the property holds on the working tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=%(tool)s CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
binate = { path = "$repo/binate", features = ["frame"] }
bytes = "1"
dashmap = "4.0.2"
tokio = { version = "1.8", features = ["rt", "sync", "time", "test-util"] }
tokio-stream = "0.1.6"
tracing = "0.1"
[profile.dev]
debug = 0
EOF
cd "$work" || exit 2
export RUSTFLAGS="%(flags)s" MIRIFLAGS="-Zmiri-disable-stacked-borrows"
timeout 280 cargo %(cmd)s
'''
SUPPORT=open('/tmp/pl/support.rs').read()
def run(spec):
    i=spec['id']; d=f'/verif/seeded/{i}'
    sh(f'git -C {R} checkout -q -- .')
    assert sh(f'git -C {R} rev-parse HEAD').stdout==sh('git -C /repo rev-parse HEAD').stdout
    base={}
    for f,old,new in spec['edits']:
        p=f'{R}/binate/src/{f}'; t=open(p).read()
        if t.count(old)!=1: return f'{i}: EDIT count {t.count(old)} in {f}: {old[:60]!r}'
        open(p,'w').write(t.replace(old,new))
    sh(f'git -C {R} diff > /tmp/pr/patch.diff')
    # lines removed must exist in the base
    rem=[l for l in open('/tmp/pr/patch.diff') if l.startswith('-') and not l.startswith('---')]
    ok=False
    for f in {f for f,_,_ in spec['edits']}:
        b=sh(f'git -C {R} show 191f038:binate/src/{f}').stdout.split('\n')
        if any(l[1:].rstrip('\n') in b and l[1:].strip() not in ('','}',')') for l in rem): ok=True
    if not ok: return f'{i}: changes no original line'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copy('/tmp/pr/patch.diff', d+'/patch.diff')
    demo=spec['demo']
    if '//SUPPORT' in demo: demo=demo.replace('//SUPPORT', SUPPORT)
    open(d+'/demo.rs','w').write(demo)
    flags=spec.get('flags','')
    if spec.get('hooks'): flags='--cfg binate_verif '+flags
    flags='-Awarnings '+flags
    open(d+'/demo.sh','w').write(DEMO_SH%dict(flags=flags.strip(), tool=spec.get('tool','stable-x86_64-unknown-linux-gnu'), cmd=spec.get('cmd','run -q --offline')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']}, open(d+'/meta.json','w'), indent=1)
    b=sh('bash /tmp/pr/build.sh', env=ENV)
    if b.returncode: return f'{i}: BUILD FAILS\n'+b.stdout[-1500:]
    t=sh('bash /tmp/pr/test.sh /tmp/pr/out.json', env=ENV)
    r=json.load(open('/tmp/pr/out.json')); want=json.load(open('/opt/vp/BASELINE.json'))
    txt=json.dumps(r)
    failed=stable_failed(r,want)
    if failed: return f'{i}: TESTS FAIL {failed}'
    p=sh(f'bash {d}/demo.sh', cwd=R, env=ENV)
    sh(f'git -C {R} checkout -q -- .')
    c=sh(f'bash {d}/demo.sh', cwd=R, env=ENV)
    if p.returncode==0: return f'{i}: DEMO PASSES WITH PATCH\n'+p.stdout[-800:]
    if 'error: could not compile' in p.stdout: return f'{i}: DEMO does not compile\n'+p.stdout[-3000:]
    if c.returncode!=0: return f'{i}: DEMO FAILS CLEAN\n'+c.stdout[-1500:]
    return f'{i}: ok   [patched: {p.stdout.strip().splitlines()[-4:] if p.stdout.strip() else p.returncode}]'
def stable_failed(r,want):
    w=want if isinstance(want,list) else want.get('stable') or want.get('passed') or want.get('tests')
    got=set(r if isinstance(r,list) else r.get('passed',[]))
    return [x for x in w if x not in got]
if __name__=='__main__':
    sp=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    setup()
    for s in m.SPECS:
        if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
        try: print(run(s), flush=True)
        except Exception as e: print(s['id'],'EXC',repr(e), flush=True)
