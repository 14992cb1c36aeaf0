#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC.py defines SEEDS = [(id, prop, needs, breaks, [(file, old, new), ...], go_test_body)].
Each is confirmed in a scratch copy of /repo and written to /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise; cwd is the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 200 go test -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestSeedDemo$' .
'''
for (i, prop, needs, breaks, edits, body) in ns["SEEDS"]:
    if only and i not in only: continue
    t = tempfile.mkdtemp(prefix="seed")
    r = t + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    for (f, old, new) in edits:
        s = open(r + "/" + f).read()
        if s.count(old) != 1: print(i, "edit matches", s.count(old), "times in", f, repr(old[:60])); sys.exit(1)
        open(r + "/" + f, "w").write(s.replace(old, new))
    d = t + "/d"; os.mkdir(d)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    imports = ns.get("IMPORTS", {}).get(i, [])
    open(d + "/demo_test.go", "w").write("package xbnf\n\nimport (\n\t\"testing\"\n" + "".join('\t"%s"\n' % x for x in imports) + ")\n\nfunc TestSeedDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n")
    subprocess.run(["gofmt", "-w", d + "/demo_test.go"], check=True)
    diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
    tt = subprocess.run("go vet . >/dev/null 2>%s/vet; go build ./... && go test -count=1 -json ./... 2>&1 | grep -c '\"Action\":\"pass\".*\"Test\"'" % t, shell=True, cwd=r, capture_output=True, text=True)
    fails = subprocess.run("go test -count=1 -json ./... 2>&1 | grep '\"Action\":\"fail\".*\"Test\"'", shell=True, cwd=r, capture_output=True, text=True).stdout
    ok = a.returncode == 0 and b.returncode != 0 and not fails and tt.stdout.strip() not in ("", "0")
    print(i, "OK" if ok else "BAD", "clean", a.returncode, "patched", b.returncode, "tests", tt.stdout.strip(), fails[:300])
    if not ok: print(a.stdout[-1500:], a.stderr[-800:], "---", b.stdout[-800:], b.stderr[-500:])
    if ok:
        o = "/verif/seeded/" + i
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.sh", o); shutil.copy(d + "/demo_test.go", o)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
