#!/usr/bin/env python3
"""Planted bugs.

  plant.py add SPEC.json     make seeded/<id> from {id, property, file, old, new, needs, what, files: {name: text}, demo: [lines]}
                             ("edits": [[file, old, new], ...] for several places), confirming that it compiles, passes the
                             stable tests, changes original lines only, and that the demonstration tells the trees apart
  plant.py check ID [SEED]   run the check of the bug's property against a tree with the bug
  plant.py checkall [PROP]   the same for all

All of it happens in copies under /tmp/pl."""
import fcntl, json, os, re, subprocess, sys, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = os.environ.get("PL", "/tmp/pl")
REPO = PL + "/repo"
DEMO = '''#!/bin/bash
# exits 0 if relaxng-rust behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
RNG=$PWD/target/debug/rng
[ -x "$RNG" ] || cargo build --offline -q -p relaxng-tool || exit 99
# expect STATUS SCHEMA DOCUMENT...
expect() {
  want=$1; shift
  (cd "$here" && timeout 100 "$RNG" validate "$@" >/dev/null 2>&1)
  got=$?
  if [ $got -ne $want ]; then echo "validate $*: exit status $got instead of $want"; exit 1; fi
}
# says TEXT SCHEMA DOCUMENT...: the diagnostic contains the text
says() {
  text=$1; shift
  out=$(cd "$here" && timeout 100 "$RNG" validate "$@" 2>&1 >/dev/null)
  case "$out" in *"$text"*) ;; *) echo "validate $*: no '$text' in: $out"; exit 1;; esac
}
'''


# for schemas in the XML syntax, which the tool does not read
DRIVER = '''# as above, by way of a little program which takes the schema's syntax from its extension, prints the loaded files and the
# outcome, and ends like the tool
scratch=$(mktemp -d)
trap 'rm -r "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/driver.rs" "$scratch/src/main.rs"
cp Cargo.lock "$scratch/" 2>/dev/null
cat >"$scratch/Cargo.toml" <<END
[package]
name = "driver"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
relaxng-model = { path = "$PWD/relaxng-model" }
relaxng-validator = { path = "$PWD/relaxng-validator" }
xmlparser = "0.13"
END
(cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) >"$scratch/log" 2>&1 || { cat "$scratch/log"; exit 99; }
DRIVER=$scratch/target/debug/driver
xexpect() {
  want=$1; shift
  out=$(cd "$here" && timeout 100 "$DRIVER" "$@" 2>&1)
  got=$?
  if [ $got -ne $want ]; then echo "$*: exit status $got instead of $want: $out"; exit 1; fi
}
xsays() {
  text=$1; shift
  out=$(cd "$here" && timeout 100 "$DRIVER" "$@" 2>&1)
  case "$out" in *"$text"*) ;; *) echo "$*: no '$text' in: $out"; exit 1;; esac
}
'''
DRIVER_RS = '''use relaxng_model::{Compiler, FsFiles, Syntax};
use relaxng_validator::Validator;
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let syntax = if args[0].ends_with(".rng") { Syntax::Xml } else { Syntax::Compact };
    let mut c = Compiler::new(FsFiles, syntax);
    let model = match c.compile(std::path::Path::new(&args[0])) {
        Ok(m) => m,
        Err(e) => {
            c.dump_diagnostic(&e);
            println!("{e:?}");
            std::process::exit(1)
        }
    };
    let mut loaded: Vec<String> = c.loaded().map(|p| p.display().to_string()).collect();
    loaded.sort();
    println!("loaded {}", loaded.join(" "));
    for a in &args[1..] {
        let doc = std::fs::read_to_string(a).unwrap();
        let mut v = Validator::new(model.clone(), xmlparser::Tokenizer::from(&doc[..]));
        while let Some(r) = v.validate_next() {
            if let Err(e) = r {
                println!("{a}: {e:?}");
                std::process::exit(2)
            }
        }
    }
}
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def fresh():
    os.makedirs(PL, exist_ok=True)
    rc, o = sh("rsync -a --delete --exclude /target /repo/ %s/" % REPO) if shutil.which("rsync") else (1, "")
    if rc:
        if os.path.isdir(REPO):
            # keep the build output
            for n in os.listdir(REPO):
                if n != "target":
                    p = os.path.join(REPO, n)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        else:
            os.makedirs(REPO)
        sh("tar -C /repo --exclude=./target -cf - . | tar -C %s -xf -" % REPO)
    sh("git -C %s checkout -q -- ." % REPO)
    vp = PL + "/vp"
    shutil.rmtree(vp, ignore_errors=True)
    shutil.copytree("/opt/vp", vp, ignore=shutil.ignore_patterns("target"))
    for n in os.listdir(vp):
        f = os.path.join(vp, n)
        if os.path.isfile(f) and n.endswith((".sh", ".py")):
            s = open(f).read().replace("/opt/vp", vp).replace("/repo/", REPO + "/").replace("cd /repo", "cd " + REPO)
            open(f, "w").write(s)


def build():
    return sh("bash %s/vp/build.sh" % PL)


def tests():
    out = PL + "/out.json"
    sh("bash %s/vp/test.sh %s" % (PL, out), timeout=900)
    r = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in base if t not in set(r["passed"])]


def demo(d):
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=300)


def original(files):
    """do the removed/changed lines of the diff belong to the base commit?"""
    rc, diff = sh("git diff -U0", cwd=REPO)
    base = sh("git rev-list --max-parents=0 HEAD", cwd=REPO)[1].split()[0]
    bad = []
    f = None
    for ln in diff.split("\n"):
        m = re.match(r"--- a/(.*)", ln)
        if m:
            f = m.group(1)
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", ln)
        if m:
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                b = sh("git blame -l -s -L %d,+%d HEAD -- %s" % (a, n, f), cwd=REPO)[1]
                for x in b.strip().split("\n"):
                    if not x.lstrip("^").startswith(base[:30]):
                        bad.append(x)
    return bad


def add(spec):
    d = json.load(open(spec)) if isinstance(spec, str) else spec
    out = os.path.join(VERIF, "seeded", d["id"])
    tmp = PL + "/new"
    fresh()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for n, t in d.get("files", {}).items():
        p = os.path.join(tmp, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    with open(tmp + "/demo.sh", "w") as f:
        drive = any(ln.startswith(("xexpect", "xsays")) for ln in d["demo"])
        f.write(DEMO + (DRIVER if drive else "") + "\n".join(d["demo"]) + "\nexit 0\n")
    if drive and "driver.rs" not in d["files"]:
        open(tmp + "/driver.rs", "w").write(DRIVER_RS)
    rc, o = build()
    if rc:
        return "clean tree does not build\n" + o[-2000:]
    rc, o = demo(tmp)
    if rc:
        return "demo fails on the clean tree: %d %s" % (rc, o)
    edits = d.get("edits") or [[d["file"], d["old"], d["new"]]]
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "text occurs %d times in %s: %s" % (s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))
    bad = original([e[0] for e in edits])
    if bad:
        print("  note: touches lines that are not original:", bad[:3])
    rc, o = build()
    if rc:
        return "does not build\n" + "\n".join([x for x in o.split("\n") if "error" in x or "-->" in x][:20]) + o[-1500:]
    rc, o = demo(tmp)
    if rc == 0:
        return "demo passes with the bug"
    why = o.strip()[-300:]
    t = tests()
    if t:
        return "tests fail: %s" % t[:5]
    rc, diff = sh("git diff", cwd=REPO)
    open(tmp + "/patch.diff", "w").write(diff)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    return "ok (%s)" % why


def check(bid, seed="1", prop=None):
    d = os.path.join(VERIF, "seeded", bid)
    m = json.load(open(d + "/meta.json"))
    fresh()
    rc, o = sh("git apply %s/patch.diff" % d, cwd=REPO)
    if rc:
        return m["property"], "patch does not apply", o
    v = PL + "/verif"
    os.makedirs(v, exist_ok=True)
    for n in ("bin", "lib", "spec", "harness", "known-findings.txt", "properties.jsonl"):
        s, t = os.path.join(VERIF, n), os.path.join(v, n)
        if os.path.isdir(s):
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(s, t)
        elif os.path.exists(s):
            shutil.copy(s, t)
    t0 = time.time()
    rc, o = sh(["python3", "bin/check.py", prop or m["property"], "--seed", seed], cwd=v, timeout=900, env=dict(os.environ, RNG_REPO=REPO))
    return prop or m["property"], {0: "missed", 1: "CAUGHT"}.get(rc, "error %d" % rc) + " (%.0fs)" % (time.time() - t0), o


def main():
    a = sys.argv[1:]
    os.makedirs(PL, exist_ok=True)
    lock = open(PL + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a[0] == "add":
        specs = json.load(open(a[1]))
        for s in specs if isinstance(specs, list) else [specs]:
            print(s["id"], add(s), flush=True)
    elif a[0] == "check":
        p, r, o = check(a[1], a[2] if len(a) > 2 else "1", a[3] if len(a) > 3 else None)
        print(o[-1500:])
        print(a[1], p, r)
    elif a[0] == "checkall":
        for b in sorted(os.listdir(VERIF + "/seeded")):
            m = json.load(open(VERIF + "/seeded/" + b + "/meta.json"))
            if len(a) > 1 and m["property"] not in a[1].split(","):
                continue
            p, r, o = check(b)
            print(b, p, r, flush=True)
            if "CAUGHT" not in r:
                print(o[-600:])


main()
