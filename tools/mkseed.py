#!/usr/bin/env python3
"""Developer tool: build /verif/seeded/<id>/ from tools/seeds*.py and confirm each in a scratch copy.
usage: mkseed.py [--check] ID...   (--check also runs bin/check against /repo with the patch applied)"""
import glob, importlib.util, json, os, re, subprocess, sys, shutil
V = "/verif"
S = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_HUSKY_DONT_INSTALL_HOOKS="true")
DEMO = """#!/bin/bash
# exit 0: the property's behaviour is intact; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
deps=$PWD/target/debug/deps
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_HOME=${RUSTUP_HOME:-}
[ -n "$RUSTUP_HOME" ] || unset RUSTUP_HOME
lib() { ls -t "$deps"/lib"$1"-*.rlib | head -1; }
rustc --edition 2024 -A warnings -C debug-assertions=on -L dependency="$deps" \\
  --extern finquant="$(lib finquant)" --extern chrono="$(lib chrono)" --extern serde_json="$(lib serde_json)" --extern iso_currency="$(lib iso_currency)" \\
  -o "$t/demo" "$here/demo.rs" || exit 3
"$t/demo"
"""
PRE = """#![allow(unused_imports)]
use chrono::{Datelike, Duration, NaiveDate, NaiveTime, Weekday};
fn d(y: i32, m: u32, d: u32) -> NaiveDate { NaiveDate::from_ymd_opt(y, m, d).unwrap() }
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def seeds():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seeds*.py")):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out.update(m.SEEDS)
    return out


def write(i, s):
    o = f"{V}/seeded/{i}"
    os.makedirs(o, exist_ok=True)
    sh(["git", "checkout", "-q", "--", "."], S)
    for f, a, b in s["edits"]:
        p = f"{S}/{f}"
        t = open(p).read()
        n = t.count(a)
        if n != 1:
            return f"edit matches {n} times in {f}: {a[:60]!r}"
        open(p, "w").write(t.replace(a, b))
    diff = sh(["git", "diff"], S).stdout
    open(o + "/patch.diff", "w").write(diff)
    cx = '--extern num_complex="$(lib num_complex)" ' if "num_complex" in s["demo"] else ""
    open(o + "/demo.sh", "w").write(DEMO.replace('--extern finquant', cx + '--extern finquant', 1))
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.rs", "w").write(PRE + s["demo"].strip() + "\n")
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
    return None


def tests():
    r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], S)
    failed = sorted(set(re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M)))
    ok = len(re.findall(r"^test .* \.\.\. ok", r.stdout, re.M))
    return ok, failed, r.stderr if "error" in r.stderr and ok == 0 else ""


def demo(i):
    r = sh(["bash", f"{V}/seeded/{i}/demo.sh"], S)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    a = sys.argv[1:]
    check = "--check" in a
    a = [x for x in a if x != "--check"]
    allseeds = seeds()
    ids = a or [i for i in allseeds if not os.path.exists(f"{V}/seeded/{i}/meta.json")]
    if not os.path.exists(S):
        subprocess.run(["cp", "-a", "/repo", S])
    sh(["git", "checkout", "-q", "--", "."], S)
    head = sh(["git", "rev-parse", "HEAD"], "/repo").stdout.strip()
    if sh(["git", "rev-parse", "HEAD"], S).stdout.strip() != head:
        sh(["git", "fetch", "-q", "/repo", "HEAD"], S)
        sh(["git", "checkout", "-q", "--detach", "FETCH_HEAD"], S)
    good = []
    for i in ids:
        e = write(i, allseeds[i])
        if e:
            print(i, "EDIT:", e)
            shutil.rmtree(f"{V}/seeded/{i}")
            continue
        ok, failed, err = tests()
        rc, out = demo(i)
        print(f"{i}: tests ok={ok} failed={failed[:3]} {err[-300:]} demo rc={rc} {out.strip()[:160]!r}", flush=True)
        if failed or ok < 435 or rc == 0 or rc == 3:
            print("   NOT KEPT")
            shutil.rmtree(f"{V}/seeded/{i}")
            continue
        good.append(i)
    sh(["git", "checkout", "-q", "--", "."], S)
    sh(["cargo", "test", "--workspace", "--no-run", "--offline"], S)
    for i in list(good):
        rc, out = demo(i)
        if rc != 0:
            print(f"{i}: demo fails on the clean tree rc={rc} {out}")
            shutil.rmtree(f"{V}/seeded/{i}")
            good.remove(i)
    print("kept", good)
    if check:
        for i in good:
            runcheck(i, allseeds[i]["property"])


def runcheck(i, prop):
    p = f"{V}/seeded/{i}/patch.diff"
    r = subprocess.run(["git", "-C", "/repo", "apply", p])
    try:
        r = subprocess.run([f"{V}/bin/check", prop], capture_output=True, text=True, cwd=V)
        l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        w = [x for x in r.stdout.splitlines() if x.startswith("contract ") or x.startswith("no failing")]
        print(f"CHECK {i} {prop}: rc={r.returncode} {l} {w[:1]} {'' if r.returncode == 1 else r.stdout[-300:]}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])


if __name__ == "__main__":
    if sys.argv[1:2] == ["--run"]:
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            runcheck(i, json.load(open(f"{V}/seeded/{i}/meta.json"))["property"])
    else:
        main()
