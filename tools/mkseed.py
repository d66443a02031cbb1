"""mk.py: makes /verif/seeded/<id> from edits and a demo."""
import json, os, subprocess, sys
REPO=os.environ.get('PLOTLINE_REPO','/repo')
DEMO='''#!/bin/bash
# Run in the repository's root. Exits 0 if the property holds in the demonstrated case.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR || true
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%DEPS%
[workspace]
TOML
%PRE%cd "$t"
cargo build --offline -q
%RUN%
'''
def seed(id, prop, needs, breaks, edits, main, kind='core', run='timeout 120 ./target/debug/demo'):
    if os.environ.get('ONLY') and id not in os.environ['ONLY'].split(','): return
    d=f'/verif/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C',REPO,'status','--porcelain'],capture_output=True,text=True).stdout=='', 'dirty'
    try:
        for f,old,new in edits:
            p=os.path.join(REPO,f); s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',REPO,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(main.lstrip('\n'))
    if kind=='core': deps='plotline = { path = "$repo/plotline" }'; pre=''
    elif kind=='ivl':
        deps='interval = { path = "interval" }'
        pre='''# The interval crate is no member of the workspace: its tree and dates, without the plugin glue.
mkdir "$t/interval"
cp -r "$repo/plugins/interval/src" "$t/interval/src"
sed -i '/^mod plugin;/d' "$t/interval/src/lib.rs"
cat > "$t/interval/Cargo.toml" <<TOML
[package]
name = "interval"
version = "0.1.0"
edition = "2021"
[features]
default = ["date"]
date = []
fixtures = []
TOML
'''
    elif kind=='cli-clap': deps='plotline = { path = "$repo/plotline" }\nplotline-cli = { path = "$repo/plotline-cli" }\nclap = { version = "4", features = ["derive"] }'; pre=''
    elif kind=='cli': deps='plotline = { path = "$repo/plotline" }\nplotline-cli = { path = "$repo/plotline-cli" }'; pre=''
    open(d+'/demo.sh','w').write(DEMO.replace('%DEPS%',deps).replace('%PRE%',pre).replace('%RUN%',run))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
