#!/usr/bin/env python3
"""Plant a bug: plant.py ID SPEC.json  (SPEC: property, needs, what_it_breaks, pkg, edits [[file, old, new]], demo (go test source)).
Writes seeded/ID, confirms it in a scratch copy (builds, stable tests pass, demo tells the trees apart) and runs the property's check.
plant.py --check ID...   re-run the property's check against planted bugs."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = """#!/bin/bash
# cwd: the repository. Runs demo_test.go inside package ./%(pkg)s through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 ./%(pkg)s
"""
def scratch():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    sh(f"cp -a /repo {d}/repo")
    return d
def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("stable") or base.get("tests") or base.get("passed") or base.get("pass")
    r = sh(f"cd {repo} && . /opt/vp/env.sh && go build ./... && go test -json ./... 2>/dev/null", executable="/bin/bash")
    ok = set(); bad = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Test") and e["Action"] == "pass": ok.add(e["Package"] + "::" + e["Test"])
        if e.get("Test") and e["Action"] == "fail": bad.add(e["Package"] + "::" + e["Test"])
    return ok, bad, r
def run_check(prop, repo, seed="1"):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER="quick")
    return sh(f"python3 run.py {prop}", cwd=V, env=env)
def check(i, repo=None):
    sd = f"{V}/seeded/{i}"; meta = json.load(open(sd + "/meta.json"))
    d = scratch()
    try:
        r = sh(f"git apply {sd}/patch.diff", cwd=d + "/repo")
        if r.returncode: print(i, "patch does not apply", r.stdout); return
        r = run_check(meta["property"], d + "/repo")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        why = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][:3]
        print(i, meta["property"], "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", *(why if not v else [str(len(v))] + [w[:200] for w in why]))
    finally: shutil.rmtree(d)
def main():
    if sys.argv[1] == "--check":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): check(i)
        return
    i, spec = sys.argv[1], json.load(open(sys.argv[2]))
    sd = f"{V}/seeded/{i}"; os.makedirs(sd, exist_ok=True)
    d = scratch(); repo = d + "/repo"
    try:
        open(sd + "/demo.sh", "w").write(DEMO % spec); os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/demo_test.go", "w").write(spec["demo"])
        json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(sd + "/meta.json", "w"), indent=1)
        r0 = sh(f"{sd}/demo.sh", cwd=repo)
        for f, old, new in spec["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1: print(f"{f}: {s.count(old)} matches of {old!r}"); sys.exit(1)
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        p = sh("git diff", cwd=repo).stdout
        open(sd + "/patch.diff", "w").write(p)
        # the changed lines must be lines of the original repository
        ok0, _, _ = stable("/repo")
        ok, bad, r = stable(repo)
        r1 = sh(f"{sd}/demo.sh", cwd=repo)
        print("demo clean rc", r0.returncode, "" if r0.returncode == 0 else r0.stdout[-1500:])
        print("demo patched rc", r1.returncode, r1.stdout[-400:])
        print("tests lost:", sorted(ok0 - ok)[:5], "of", len(ok0))
        if r0.returncode or not r1.returncode or ok0 - ok: print("NOT CONFIRMED")
        # original lines?
        base = sh("git rev-list --max-parents=0 HEAD", cwd="/repo").stdout.split()[0] if False else "ef9a552"
        for f, old, new in spec["edits"]:
            b = sh(f"git show {base}:{f}", cwd="/repo").stdout
            for l in old.splitlines():
                if l.strip() and l not in b: print("not an original line:", f, l)
    finally: shutil.rmtree(d)
    check(i)
main()
