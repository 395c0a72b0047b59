#!/usr/bin/env python3
"""Builds and validates planted bugs: plant.py PLANTS.py [id ...]

PLANTS.py defines PLANTS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], demo (body of a Go main package, or of a shell script if it
starts with #!). For each: the patch touches only lines of the original
repository, builds, passes the stable tests; the demo passes without and fails
with it; and the property's check is run against it in a copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/demo" "$d/scratch" && cp "$here/main.go" "$d/demo/" || exit 2
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/myyrakle/gost v0.0.0\\n\\nreplace github.com/myyrakle/gost => %s\\n' "$repo" > "$d/demo/go.mod"
cd "$d/demo" || exit 2
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "$d/bin" . || exit 2
cd "$d/scratch" && exec 3>&1 && timeout 100 "$d/bin" || exit 1
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def original_lines(repo, f, lines):
    base = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
    out = sh(["git", "-C", repo, "blame", "-s", "-l", "HEAD", "--", f]).stdout.splitlines()
    bad = []
    for n in lines:
        if not out[n - 1].lstrip("^").startswith(base[:30]):
            bad.append(n)
    return bad


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    ok = True
    for p in ns["PLANTS"]:
        if want and p["id"] not in want:
            continue
        d = tempfile.mkdtemp(prefix="plant-")
        try:
            repo = os.path.join(d, "repo")
            shutil.copytree("/repo", repo, symlinks=True)
            msg = []
            for f, old, new in p["edits"]:
                path = os.path.join(repo, f)
                s = open(path).read()
                if s.count(old) != 1:
                    print(p["id"], "edit matches", s.count(old), "times:", old[:60])
                    break
                open(path, "w").write(s.replace(old, new))
            else:
                diff = sh(["git", "-C", repo, "diff"]).stdout
                touched, cur, old = {}, None, 0
                for line in sh(["git", "-C", repo, "diff", "-U0"]).stdout.splitlines():
                    if line.startswith("--- a/"):
                        cur = line[6:]
                    m = re.match(r"@@ -(\d+)(?:,(\d+))?", line)
                    if m:
                        touched.setdefault(cur, []).extend(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
                for f, ls in touched.items():
                    b = original_lines("/repo", f, [l for l in ls if l > 0])
                    if b:
                        msg.append("lines of fix commits: %s %s" % (f, b))
                dst = os.path.join(HERE, "seeded", p["id"])
                os.makedirs(dst, exist_ok=True)
                open(os.path.join(dst, "patch.diff"), "w").write(diff)
                if p["demo"].startswith("#!"):
                    open(os.path.join(dst, "demo.sh"), "w").write(p["demo"])
                else:
                    open(os.path.join(dst, "demo.sh"), "w").write(DEMO)
                    open(os.path.join(dst, "main.go"), "w").write(p["demo"].lstrip())
                    sh(["gofmt", "-w", os.path.join(dst, "main.go")])
                os.chmod(os.path.join(dst, "demo.sh"), 0o755)
                json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]),
                          open(os.path.join(dst, "meta.json"), "w"), indent=1)
                r = sh(["go", "test", "./..."], cwd=repo)
                if r.returncode:
                    msg.append("tests fail: " + r.stdout[-600:])
                clean = sh(["bash", os.path.join(dst, "demo.sh")], cwd="/repo")
                bad = sh(["bash", os.path.join(dst, "demo.sh")], cwd=repo)
                if clean.returncode != 0:
                    msg.append("demo fails on the clean tree: " + clean.stdout[-400:])
                if bad.returncode in (0, 2):
                    msg.append("demo with the patch: exit %d %s" % (bad.returncode, bad.stdout[-400:]))
                # the check, on copies
                v = os.path.join(d, "verif")
                os.makedirs(v)
                shutil.copytree(os.path.join(HERE, "harness"), os.path.join(v, "harness"))
                for f in ("check.py", "known_findings.txt", "dict_base.json"):
                    shutil.copy(os.path.join(HERE, f), v)
                gm = os.path.join(v, "harness", "go.mod")
                s = open(gm).read()
                open(gm, "w").write(s.replace("=> /repo", "=> " + repo))
                r = sh(["python3", "check.py", p["property"]], cwd=v)
                caught = r.returncode == 1 and "VIOLATION property=" + p["property"] in r.stdout
                arrow = [l.strip() for l in r.stdout.splitlines() if "=>" in l]
                print(p["id"], "CAUGHT" if caught else "MISSED (exit %d)" % r.returncode, (arrow or [""])[-1][:150],
                      "" if not msg else "\n   INVALID: " + "; ".join(msg), flush=True)
                if msg or not caught:
                    ok = False
                continue
            ok = False
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return 0 if ok else 1


sys.exit(main())
