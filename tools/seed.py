#!/usr/bin/env python3
"""development tool for planted bugs.
seed.py make FILE  : FILE defines SEEDS = [dict(id, prop, needs, what, edits=[(path, old, new)...], demo=rust main body or full source)]
                     each is applied to /repo, confirmed (builds, stable tests pass, demo fails with / passes without) and kept under seeded/
seed.py run [ID..] : applies each kept bug in turn, runs its property's quick check (or CHECK=...), prints caught/missed"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


DEMO = r'''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
texture2ddecoder = { path = "$R"@FEAT@ }
[workspace]
X
cd "$T" && RUSTFLAGS=-Awarnings cargo build -q --offline || exit 8
timeout 60 ./target/debug/demo
'''


def tests_ok():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "build: " + r.stdout[-1500:]
    r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open("/tmp/seed_out.json"))
    miss = set(base["stable"]) - set(out["passed"])
    return "tests: %s" % list(miss)[:5] if miss else ""


def make(f):
    g = {}
    exec(open(f).read(), g)
    only = sys.argv[3:]
    for s in g["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        if os.path.exists(d + "/patch.diff") and not only:
            continue
        os.makedirs(d, exist_ok=True)
        clean()
        if "demo" in s:
            open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", s.get("feat", "")))
            open(d + "/demo.rs", "w").write(s["demo"] + 'fn main() { println!("@@{}", out()); }\n')
            g0 = sh("bash %s/demo.sh" % d, cwd=R)
            l = [x for x in g0.stdout.splitlines() if x.startswith("@@")]
            if not l:
                print(s["id"], "BAD demo", g0.stdout)
                continue
            exp = l[0][2:]
        for p, a, b in s["edits"]:
            q = os.path.join(R, p)
            t = open(q, newline="").read()
            crlf = "\r\n" in t
            t = t.replace("\r\n", "\n")
            assert t.count(a) == 1, (s["id"], p, t.count(a), a)
            t = t.replace(a, b)
            open(q, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        subprocess.run("git -C /repo diff --binary > %s/patch.diff" % d, shell=True)
        if "demo_sh" in s:
            open(d + "/demo.sh", "w").write(s["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", s.get("feat", "")))
            main = 'fn main() {\n    let o = out();\n    let e = "@EXP@";\n    if o != e {\n        println!("got  {}\\nwant {}", o, e);\n        std::process::exit(1);\n    }\n}\n'
            open(d + "/demo.rs", "w").write(s["demo"] + main.replace("@EXP@", exp))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        t = tests_ok()
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        clean()
        sh("bash /opt/vp/build.sh")
        r0 = sh("bash %s/demo.sh" % d, cwd=R)
        ok = not t and r1.returncode not in (0, 8, 9) and r0.returncode == 0
        print(s["id"], "OK" if ok else "BAD", t, "with:", r1.returncode, "without:", r0.returncode)
        if not ok:
            print("  with:", r1.stdout[-600:], "\n  without:", r0.stdout[-600:])
            os.rename(d + "/patch.diff", "/tmp/%s.diff" % s["id"])
            sh("rm -rf %s" % d)
    clean()


def run():
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        m = json.load(open(d + "/meta.json"))
        clean()
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout)
            continue
        for p in os.environ.get("CHECK", m["property"]).split(","):
            t = time.time()
            r = sh("./check %s quick" % p, cwd=V)
            last = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "OK", "ERROR"))]
            print(i, p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "no answer"), "%.0fs" % (time.time() - t), last[-1:] , flush=True)
        clean()
    sh("git -C /repo status --short")


{"make": lambda: make(sys.argv[2]), "run": run}[sys.argv[1]]()
