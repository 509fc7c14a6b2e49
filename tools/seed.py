#!/usr/bin/env python3
"""seed.py SPECFILE [ID...]: make and verify the planted bugs described in
SPECFILE (Python which calls seed(...)), writing them to /verif/seeded/ID.

A bug is kept only if its patch changes lines of the original repository,
builds, passes the 130 tests, and its demo passes without it and fails with it.
Everything runs in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys

BASE = "7ab4112"
SCRATCH = "/tmp/seedwork/repo"
OUT = "/verif/seeded"
ENV = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV["PATH"]
PRELUDE = open(os.path.join(os.path.dirname(__file__), "demo_prelude.go.txt")).read()
DEMO = """#!/bin/bash
# Exits 0 if the behaviour demo_test.go describes holds, nonzero otherwise.
D="$(cd "$(dirname "$0")" && pwd)"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" HOME="${HOME:-/root}"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
timeout 250 go test RACE-vet=off -count=1 -timeout 240s -overlay "$T/overlay.json" -run '^TestDemo$' .
"""
wanted = sys.argv[2:]
results = []

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)

def fresh():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + SCRATCH, shell=True, check=True)
    run(["git", "init", "-q"], cwd=SCRATCH)
    run(["git", "add", "-A"], cwd=SCRATCH)
    run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], cwd=SCRATCH)

def tests():
    p = run(["go", "test", "-vet=off", "-count=1", "-json", "./..."], cwd=SCRATCH)
    passed = len([1 for l in p.stdout.splitlines() if '"Action":"pass"' in l and '"Test"' in l])
    failed = [l for l in p.stdout.splitlines() if '"Action":"fail"' in l]
    return passed, failed, p.stdout

def seed(id, prop, edits, needs, breaks, demo, race=False):
    if wanted and id not in wanted:
        return
    if not wanted and os.path.exists(f"{OUT}/{id}/patch.diff"):
        return
    run(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
    tmp = "/tmp/seedwork/" + id
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/demo_test.go", "w").write(PRELUDE + "\n" + demo.strip() + "\n")
    open(tmp + "/demo.sh", "w").write(DEMO.replace("RACE", "-race " if race else ""))
    os.chmod(tmp + "/demo.sh", 0o755)
    def die(why, out=""):
        print(f"== {id}: {why}\n{out[-3000:]}"); results.append((id, why))
    p = run(["bash", tmp + "/demo.sh"], cwd=SCRATCH)
    if p.returncode != 0:
        return die("demo fails on the unchanged tree", p.stdout)
    for f, old, new in edits:
        path = SCRATCH + "/" + f
        s = open(path).read()
        if s.count(old) != 1:
            return die(f"{f}: {s.count(old)} occurrences of {old!r}")
        open(path, "w").write(s.replace(old, new))
    g = run(["gofmt", "-l"] + sorted({f for f, _, _ in edits}), cwd=SCRATCH)
    if g.stdout.strip() and "leaf_elements" not in g.stdout:
        return die("not gofmt'ed", run(["gofmt", "-d"] + sorted({f for f, _, _ in edits}), cwd=SCRATCH).stdout)
    diff = run(["git", "diff"], cwd=SCRATCH).stdout
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
    orig = ""
    for f in {f for f, _, _ in edits}:
        orig += run(["git", "-C", "/repo", "show", f"{BASE}:{f}"]).stdout
    origl = set(orig.splitlines())
    mine = [l for l in removed if l not in origl]
    if not removed:
        return die("removes no line")
    if len(mine) == len(removed):
        return die("changes only lines of fix commits", "\n".join(mine))
    if mine:
        print(f"   {id}: note: also changes lines of fix commits: {mine}")
    p = run(["go", "build", "./..."], cwd=SCRATCH)
    if p.returncode: return die("does not build", p.stdout)
    passed, failed, out = tests()
    if failed or passed < 130:
        return die(f"tests: {passed} passed, {len(failed)} failed", "\n".join(failed)[:1500])
    p = run(["bash", tmp + "/demo.sh"], cwd=SCRATCH)
    if p.returncode == 0:
        return die("demo passes with the patch", p.stdout)
    if "--- FAIL" not in p.stdout and "panic:" not in p.stdout and "DATA RACE" not in p.stdout:
        return die("demo fails for another reason", p.stdout)
    d = f"{OUT}/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "demo_test.go"):
        shutil.copy(f"{tmp}/{f}", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    print(f"ok {id}"); results.append((id, "ok"))

fresh()
exec(open(sys.argv[1]).read())
shutil.rmtree(SCRATCH, ignore_errors=True)
bad = [r for r in results if r[1] != "ok"]
print(f"{len(results) - len(bad)} made, {len(bad)} rejected")
