#!/usr/bin/env python3
"""plant.py SPEC.py : makes /verif/seeded/<id>/ from a bug description, after confirming it in /repo's working tree.
SPEC defines id, prop, edits=[(file, old, new)], demo (rust main), needs, breaks, crate (trading-engine|quantlib).
Applies the edits to /repo, builds, runs the stable tests, the demo and the property's check, and undoes the edits."""
import subprocess,sys,os,json,stat
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for spec in sys.argv[1:]:
    g={'crate':'trading-engine','deps':''}; exec(open(spec).read(),g)
    d=f"/verif/seeded/{g['id']}"; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(),'repo dirty'
    for f,a,b in g['edits']:
        p=f'{R}/{f}'; s=open(p).read(); assert s.count(a)==1,(g['id'],f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    diff=sh('git -C /repo diff').stdout; open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.rs','w').write(g['demo'])
    lib={'trading-engine':'trading-engine = { path = "/repo/trading-engine" }','quantlib':'quantlib = { path = "/repo/quantlib" }'}[g['crate']]
    w=f"/tmp/vmon-demo-{g['id']}"
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: behaves as the property says; nonzero: violated
set -u
D="$(cd "$(dirname "$0")" && pwd)"
mkdir -p {w}/src
cp "$D/demo.rs" {w}/src/main.rs
cp /repo/Cargo.lock {w}/Cargo.lock
cat > {w}/Cargo.toml <<'EOF'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{lib}
anyhow = "1.0"
serde_json = "1.0"
{g['deps']}
[profile.dev]
opt-level = 1
debug = 0
EOF
cd {w}
CARGO_TARGET_DIR={w}/target cargo build --offline >{w}/build.log 2>&1 || {{ tail -30 {w}/build.log; rm -rf {w}; exit 3; }}
timeout 120 {w}/target/debug/demo
rc=$?
cd /
rm -rf {w}
exit $rc
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(d+'/meta.json','w'),indent=1)
    out=[]
    t=sh('/verif/tools/basetest.sh'); out.append('tests '+t.stdout.strip().split('\n')[-1])
    r=sh(f'bash {d}/demo.sh',cwd=R); out.append(f'demo(patched) rc={r.returncode} '+(r.stdout+r.stderr).strip()[-200:].replace('\n',' / '))
    c=sh(f"cd /verif && ./check.sh {g['prop']}"); v=[l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'what:' in l]
    out.append(f'check rc={c.returncode} '+' '.join(v)[:300]+(c.stderr[-300:] if c.returncode==2 else ''))
    sh('git -C /repo checkout -- .')
    r=sh(f'bash {d}/demo.sh',cwd=R); out.append(f'demo(clean) rc={r.returncode} '+(r.stdout+r.stderr).strip()[-200:].replace('\n',' / ') if r.returncode else 'demo(clean) rc=0')
    print(g['id'],g['prop']); [print('   ',o) for o in out]; sys.stdout.flush()
