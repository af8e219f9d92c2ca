#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds.py (patch against /repo's HEAD, demonstration, meta data).
Usage: mkseed.py [ID...]   No check reads this or /verif/seeded."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# run with cwd = the repository root; exit 0 when the behaviour is right
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d)" || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
stroke = { path = "$REPO" }
num-traits = { version = "*", default-features = false }
[workspace]
T
export CARGO_TARGET_DIR="$W/target"
cd "$W" && timeout 250 %s
rc=$?
cd /
exit $rc
'''
HEAD = '''#![allow(incomplete_features, unused_imports, dead_code)]
#![feature(generic_const_exprs)]
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};
fn p<const N: usize>(a: [f64; N]) -> PointN<f64, N> { PointN::new(a) }
fn close(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 * (1.0 + b.abs()) }
fn near<const N: usize>(a: PointN<f64, N>, b: PointN<f64, N>) -> bool { (0..N).all(|i| close(a.axis(i), b.axis(i))) }
'''
def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp()
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
            subprocess.check_call(f"git -C /repo archive HEAD | tar -x -C {w}", shell=True)
            subprocess.check_call(f"cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True)
            for f, old, new in s["edits"]:
                q = os.path.join(w, "src", f)
                t = open(q).read()
                n = t.count(old)
                if n != 1:
                    print(s["id"], "edit matches", n, "times:", old[:60]); sys.exit(1)
                open(q, "w").write(t.replace(old, new))
            diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
        finally:
            shutil.rmtree(w)
        open(os.path.join(d, "main.rs"), "w").write((HEAD if s.get("head", True) else "") + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % s.get("cmd", "cargo run -q --offline" + (" --release" if s.get("release") else "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", s["id"])
main()
