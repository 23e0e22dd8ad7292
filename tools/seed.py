#!/usr/bin/env python3
"""seed.py FILE...: turns a description of a planted bug into /verif/seeded/<id>/ after trying it in a scratch copy.

The description is a python file with: id, property, needs, breaks, edits = [(file, old, new)], demo = body of main().
"""
import os, subprocess, sys, json, shutil
WT = "/tmp/seedwt"
PRE = """#![allow(unused_imports, unused_mut, dead_code)]
use spreadsheet_ods::*;
fn rt(wb: &mut WorkBook) -> WorkBook {
    let b = write_fods_buf(wb, Vec::new()).expect("write");
    read_fods_buf(&b).expect("read")
}
fn rt_ods(wb: &mut WorkBook) -> WorkBook {
    let b = write_ods_buf(wb, Vec::new()).expect("write");
    read_ods_buf(&b).expect("read")
}
fn main() {
"""
DEMO = r"""#!/bin/bash
# exit 0: the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
cp "$PWD/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
spreadsheet-ods = { path = "$PWD" }
chrono = { version = "0.4", default-features = false }
[workspace]
[profile.dev]
debug = false
E
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
cd "$t" && cargo build -q --offline || exit 3
timeout 60 "$t/target/debug/demo"
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    """names of failing baseline tests in the scratch copy"""
    e = sh(". /opt/vp/env.sh; cargo test --workspace --no-run --offline", cwd=WT, executable="/bin/bash")
    if e.returncode: return ["BUILD " + e.stdout[-1500:]]
    t = open("/opt/vp/test.sh").read().replace("/repo", WT).replace("/opt/vp/test.log", "/tmp/seedtest.log")
    open("/tmp/seedtest.sh", "w").write(t)
    sh("bash /tmp/seedtest.sh /tmp/seedtest.json", cwd=WT)
    b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open("/tmp/seedtest.json"))
    def names(x):
        for k in ("stable", "passed", "pass", "tests"):
            if k in x and isinstance(x[k], list): return set(x[k])
    return sorted(names(b) - names(r))
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    if not os.path.exists(WT): sh("cp -a /repo " + WT)
    sh("git checkout -q -- . ; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD", cwd=WT)
    out = "/tmp/seedout/" + d["id"]
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/main.rs", "w").write(PRE + d["demo"].strip("\n") + "\n}\n")
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    for fn, old, new in d["edits"]:
        p = os.path.join(WT, fn); s = open(p).read()
        assert s.count(old) == 1, (d["id"], fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(out + "/patch.diff", "w").write(sh("git diff", cwd=WT).stdout)
    bad = sh("bash %s/demo.sh" % out, cwd=WT)
    miss = tests()
    sh("git checkout -q -- .", cwd=WT)
    ok = sh("bash %s/demo.sh" % out, cwd=WT)
    good = ok.returncode == 0 and bad.returncode not in (0, 3) and not miss
    print(d["id"], "OK" if good else "REJECTED", "demo clean", ok.returncode, "patched", bad.returncode, "tests missing", miss[:5])
    if not good: print(ok.stdout[-600:], "\n--patched:", bad.stdout[-600:])
    if good:
        dst = "/verif/seeded/" + d["id"]
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
    sys.stdout.flush()
