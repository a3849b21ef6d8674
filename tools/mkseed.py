#!/usr/bin/env python3
"""mkseed.py id property file old new needs breaks demo.rs : make /verif/seeded/<id> and confirm it in a scratch copy"""
import sys, os, subprocess, json, shutil
def make(id, prop, edits, needs, breaks, demo, verify=True):
    S="/tmp/seedwork"
    subprocess.run(["rm","-rf",S]); subprocess.run(["cp","-a","/repo",S],check=True)
    for f,old,new in edits:
        p=os.path.join(S,f); s=open(p).read(); assert s.count(old)>=1,(id,f,old,s.count(old))
        assert s.count(old)==1,(id,"ambiguous",s.count(old))
        open(p,"w").write(s.replace(old,new))
    d=os.path.join("/verif/seeded",id); os.makedirs(d,exist_ok=True)
    diff=subprocess.run(["git","-C",S,"diff"],stdout=subprocess.PIPE,text=True).stdout
    open(os.path.join(d,"patch.diff"),"w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(os.path.join(d,"meta.json"),"w"),indent=1)
    open(os.path.join(d,"demo.rs"),"w").write(demo)
    open(os.path.join(d,"demo.sh"),"w").write('''#!/bin/bash
# builds demo.rs against the crate in the current directory (hooks on) and runs it
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
export RUSTFLAGS="-A warnings -A semicolon_in_expressions_from_macros --cfg rawloader_verif" CARGO_TARGET_DIR="$w/target"
mkdir "$w/src"; cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nrawloader = { path = "%s" }\\ntoml = "0.4"\\n' "$repo" > "$w/Cargo.toml"
cd "$w" && cargo build --offline --quiet 2>"$w/log" || { tail -5 "$w/log"; echo "demo does not build"; exit 3; }
timeout 200 "$w/target/debug/demo" >"$w/out" 2>&1; rc=$?; tail -5 "$w/out"; exit $rc
''')
    os.chmod(os.path.join(d,"demo.sh"),0o755)
    if verify:
        env=dict(os.environ)
        r=subprocess.run(["bash",os.path.join(d,"demo.sh")],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        r2=subprocess.run(["bash",os.path.join(d,"demo.sh")],cwd=S,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        t=subprocess.run(["bash","-c",". /opt/vp/env.sh; cd %s && CARGO_TARGET_DIR=/tmp/seedtgt cargo test --offline --quiet 2>&1 | grep '^test result' "%S],stdout=subprocess.PIPE,text=True)
        print(id,"clean rc",r.returncode,r.stdout[-200:],"| patched rc",r2.returncode,r2.stdout[-200:],"| tests:",t.stdout.replace("\n"," ; "))
    subprocess.run(["rm","-rf",S])
