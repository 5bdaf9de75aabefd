#!/usr/bin/env python3
"""Make planted bugs from a spec (a Python file with BUGS = [...]), confirm them in a scratch copy,
and run the property's check against them:  plant.py SPEC [--only ID,...] [--nocheck] [--also P01,P22]

Each bug: dict(id, property, edits=[(file, old, new)...], needs, breaks, kind, demo).
kind "lib": demo is a Rust program using the crate walky; "mpi": the same, started with mpirun
(np = number of processes); "cli": demo is a shell script that finds the built tool in $WALKY;
"sh": demo is a shell script."""
import os, subprocess, sys, shutil, json, time
SC = "/tmp/plant/repo"
TGT = "/tmp/plant/target"
SEEDED = "/verif/seeded"
HEAD = r'''#!/bin/bash
# run in the repository, exits 0 if the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS=-Ctarget-cpu=x86-64
unset CARGO_TARGET_DIR
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
target=${DEMO_TARGET:-$tmp/target}
'''
CRATE = r'''
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
walky = { path = "$repo"@FEAT@ }
rayon = "1"
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = false
[workspace]
EOF
(cd "$tmp" && cargo build --offline --target-dir "$target") >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
'''
RUN = '''timeout 120 "$target/debug/demo"
'''
MPIRUN = '''export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none TMPDIR=$tmp
timeout 60 mpirun -np @NP@ "$target/debug/demo"
'''
CLI = '''(cd "$repo" && cargo build --offline --bin walky --target-dir "$target"@FEAT@) >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
WALKY=$target/debug/walky
'''
def sh(cmd, cwd=None, env=None, timeout=1800):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = None; nocheck = "--nocheck" in sys.argv; also = []
    for i, a in enumerate(sys.argv):
        if a == "--only": only = sys.argv[i+1].split(",")
        if a == "--also": also = sys.argv[i+1].split(",")
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(SC):
        sh(f"git clone -q /repo {SC}; cp -a /repo/.cargo {SC}/ 2>/dev/null")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SC)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    env = {"RUSTUP_TOOLCHAIN":"stable-x86_64-unknown-linux-gnu","RUSTFLAGS":"-Ctarget-cpu=x86-64","CARGO_NET_OFFLINE":"true","CARGO_TARGET_DIR":TGT}
    for b in spec["BUGS"]:
        if only and b["id"] not in only: continue
        sh("git checkout -q -- .", cwd=SC)
        d = f"{SEEDED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        bad = False
        for f, old, new in b["edits"]:
            s = open(f"{SC}/{f}").read()
            nth = 1
            if isinstance(old, tuple): old, nth = old   # (text, k): the k-th occurrence
            elif s.count(old) != 1: print(b["id"], "EDIT not unique:", s.count(old), repr(old[:60])); bad = True; break
            pos = -1
            for _ in range(nth): pos = s.index(old, pos + 1)
            s = s[:pos] + new + s[pos+len(old):]
            open(f"{SC}/{f}", "w").write(s)
        if bad: continue
        rc, diff = sh("git diff", cwd=SC)
        open(f"{d}/patch.diff", "w").write(diff)
        feat = b["kind"] == "mpi"
        k = b["kind"]
        demo = HEAD
        if k in ("lib", "mpi"):
            open(f"{d}/demo.rs", "w").write(b["demo"].lstrip())
            demo += CRATE.replace("@FEAT@", ", features = [\"mpi\"]" if k == "mpi" else "").replace("rayon = \"1\"", "rayon = \"1\"\nmpi = { version = \"0.6\", features = [\"user-operations\", \"derive\"] }" if k == "mpi" else "rayon = \"1\"")
            demo += b.get("run", RUN) if k == "lib" else MPIRUN.replace("@NP@", str(b["np"]))
        elif k == "cli":
            demo += CLI.replace("@FEAT@", b.get("feat", "")) + b["demo"]
        else:
            demo += b["demo"]
        open(f"{d}/demo.sh", "w").write(demo); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        row = []
        # the tests and demo with the change
        rc, out = sh("cargo test --offline -- --test-threads 8", cwd=SC, env=env)
        failed = [l for l in out.splitlines() if l.startswith("test ") and "FAILED" in l or l.startswith("error")]
        known = {t.split("::", 1)[1] for t in stable.get("stable", stable if isinstance(stable, list) else [])}
        failed = [l for l in failed if l.startswith("error") or l.split()[1] in known]
        row.append("tests " + ("ok" if not failed and "test result" in out else "FAIL " + " | ".join(failed[:4])))
        if not "test result" in out: print(out[-1500:])
        rc, out = sh(". /opt/vp/env.sh; cd %s; cargo check --all-features --offline --target-dir /tmp/plant/all" % SC)
        if rc: row.append("ALL-FEATURES BUILD FAILS"); print(out[-1500:])
        t0 = time.time()
        rc, out = sh(f"bash {d}/demo.sh", cwd=SC, env={"DEMO_TARGET": "/tmp/plant/demo"})
        row.append(f"demo with change {rc}" + ("" if rc and rc != 3 else " WRONG"))
        if rc == 3 or not rc: print(out[-1500:])
        sh("git checkout -q -- .", cwd=SC)
        rc, out = sh(f"bash {d}/demo.sh", cwd=SC, env={"DEMO_TARGET": "/tmp/plant/demo"})
        row.append(f"without {rc}" + ("" if rc == 0 else " WRONG"))
        if rc: print(out[-1500:])
        if not nocheck:
            rc, out = sh(f"git -C /repo apply {d}/patch.diff")
            assert rc == 0, out
            try:
                for p in [b["property"]] + [a for a in also if a != b["property"]]:
                    t0 = time.time()
                    rc, out = sh(f"./run.sh {p}", cwd="/verif", env={"VERIF_SEED": "1", "VERIF_TIER": "quick"})
                    row.append(f"{p} -> {rc}{' CAUGHT' if rc == 1 and 'VIOLATION' in out else ' MISSED'} {time.time()-t0:.0f}s")
                    open(f"/tmp/plant/{b['id']}-{p}.log", "w").write(out)
            finally:
                sh("git -C /repo checkout -- .")
        print(b["id"], "; ".join(row), flush=True)
main()
