"""mk.py SPECFILE : builds /verif/seeded/<id>/ from a spec (python dict in file), confirms build/tests/demo, runs the check."""
import sys,os,subprocess,json,shutil
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
CARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
goko = { path = "/repo/goko" }
pointcloud = { path = "/repo/pointcloud" }
rand = { version = "0.8.3", features = ["small_rng"] }
serde_json = "1"
[[bin]]
name = "demo"
path = "main.rs"
[profile.dev]
debug = 0
'''
DEMO='''#!/bin/bash
# builds the small program beside this script against /repo and runs it
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/Cargo.toml "$here"/main.rs "$work"/
cp /repo/Cargo.lock "$work"/Cargo.lock
cd "$work" || exit 3
export CARGO_TARGET_DIR=/repo/target/demo
cargo build --offline -q 2> "$work/build.log" || { tail -30 "$work/build.log"; exit 3; }
timeout 120 /repo/target/demo/debug/demo "$work"
'''
def make(b):
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' , 'repo dirty'
    try:
        for f,o,n in b['edits']:
            p='/repo/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    finally: sh('git -C /repo checkout -- .')
    open(d+'/Cargo.toml','w').write(b.get('cargo',CARGO)); open(d+'/main.rs','w').write(b['main']); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['what']),open(d+'/meta.json','w'),indent=1)
def confirm(i,check=True):
    d='/verif/seeded/'+i; prop=json.load(open(d+'/meta.json'))['property']; r={}
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' , 'repo dirty'
    x=sh('cd /repo && bash %s/demo.sh'%d); r['demo_clean']=x.returncode
    if x.returncode: print(x.stdout[-1500:],x.stderr[-1500:])
    try:
        a=sh('git -C /repo apply %s/patch.diff'%d); assert a.returncode==0,a.stderr
        x=sh('/tmp/rt.sh'); r['tests']=x.stdout.strip()
        x=sh('cd /repo && bash %s/demo.sh'%d); r['demo_bug']=x.returncode; r['demo_out']=(x.stdout+x.stderr)[-200:]
        if check:
            x=sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py '+prop); r['check']=x.returncode; r['out']=x.stdout[-500:]
    finally: sh('git -C /repo checkout -- .')
    print(json.dumps({i:r},indent=0)); return r
if __name__=='__main__':
    if sys.argv[1]=='confirm':
        for i in sys.argv[2:]: confirm(i)
    else:
        ns={}; exec(open(sys.argv[1]).read(),ns)
        for b in ns['BUGS']:
            if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
            try: make(b); confirm(b['id'])
            except AssertionError as e: print(b['id'],'ASSERT',e)
