#!/usr/bin/env python3
"""Strengthen the checks: try small syntactic changes (tools/mutator) that compile and keep the tests, and list those no check notices.
mutate.py DIR [--workers N] [--files REGEX] [--limit N] [--seed N] [--props P01,P02] [--ids FILE]
DIR keeps the scenarios of every check (quick tier) and results.ndjson; finished mutants are skipped when run again."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run as R
from suites import SUITES, PROPS
ap = argparse.ArgumentParser()
ap.add_argument("dir"); ap.add_argument("--workers", type=int, default=4); ap.add_argument("--files", default="."); ap.add_argument("--limit", type=int, default=10**9)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--props", default=""); ap.add_argument("--ids", default=""); ap.add_argument("--minutes", type=float, default=1e9)
a = ap.parse_args()
D = os.path.abspath(a.dir); os.makedirs(D, exist_ok=True)
props = a.props.split(",") if a.props else sorted(PROPS)
END = time.time() + 60 * a.minutes
def sh(c, cwd=None, env=None, timeout=600):
    p = subprocess.Popen(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"
# scenarios of all checks
def scenarios():
    for p in props:
        for s in PROPS[p]["suites"]:
            f = f"{D}/scn-{p}-{s}.ndjson"
            if os.path.exists(f): continue
            w = f"{D}/work"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            lines = []
            for g in SUITES[s]["gens"]:
                g = dict(g); g["prop"] = p
                if g.get("props") and p not in g["props"]: continue
                n = g["n"]["quick"]
                if isinstance(n, dict): n = n.get(p, n.get("*", 0))
                if n:
                    fs, _, _ = R.generate(w, g, "quick", a.seed, n, g.get("shards", 8 if n > 8000 else 4 if n > 1500 else 2))
                    for x in fs: lines += open(x).read().splitlines()
            open(f, "w").write("\n".join(l for l in lines if l.strip()) + "\n")
            print("scenarios", p, s, len(lines), flush=True)
def build(repo, exe, env):
    """harness against repo"""
    w = os.path.dirname(exe)
    gomod = open(repo + "/go.mod").read()
    mod = re.search(r"^module (\S+)", gomod, re.M).group(1); gov = re.search(r"^go (\S+)", gomod, re.M).group(1)
    lines = [l for b in re.findall(r"^require \((.*?)^\)", gomod, re.M | re.S) for l in b.splitlines() if l.strip()]
    open(w + "/h.mod", "w").write("module verifharness\n\ngo %s\n\nrequire (\n\t%s v8.0.0\n%s\n)\n\nreplace %s => %s\n" % (gov, mod, "\n".join(lines), mod, repo))
    shutil.copy(repo + "/go.sum", w + "/h.sum")
    return sh(["go", "build", "-modfile", w + "/h.mod", "-o", exe, "."], cwd=V + "/harness", env=env)
def env_for(w):
    e = R.go_env(); e["GOCACHE"] = w + "/cache"; e["GOMAXPROCS"] = "2"; e["GOMEMLIMIT"] = "4GiB"; return e
def execute(exe, p, s, out, env):
    try: os.unlink(out)
    except OSError: pass
    rc, o = sh([exe, SUITES[s]["exec"], f"{D}/scn-{p}-{s}.ndjson", out], env=env, timeout=240)
    return rc
known = R.load_known()
base = {}; unstable = {}
jl = threading.Lock()
def judge(w, p, s, lines):
    f = f"{w}/diff.ndjson"; open(f, "w").write("\n".join(lines) + "\n")
    try: bads, _ = R.judge(w, SUITES[s]["judge"], f, p, 1)
    except R.CheckError as e: return "judge-error " + str(e)[-300:]
    for b in bads:
        if b["prop"] == p and not any(k[0] == p and re.fullmatch(k[1], b["key"]) for k in known): return b["key"]
    return None
def relevant(f):
    R = {"testcases/": "P22", "functions/": "P21", "literal/": "P08 P09 P22", "plan/": "P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P23 P25", "types/parser/": "P03 P04 P05 P06 P21 P22 P01",
         "expr/": "P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25", "extensions/": "P04 P05 P06 P07 P10 P13 P14 P18 P21 P22 P23 P24"}
    for k, v in R.items():
        if f.startswith(k) and not (k == "types/" and f.startswith("types/parser/")): return [p for p in v.split() if p in props]
    return props
def one(w, m, env):
    repo = w + "/repo"; f = f"{repo}/{m['File']}"
    src = open(f"/repo/{m['File']}", "rb").read()
    open(f, "wb").write(src[:m["Off"]] + m["Text"].encode() + src[m["End"]:])
    try:
        rc, o = build(repo, w + "/vh", env)
        if rc: return dict(st="nobuild")
        pkg = "./" + os.path.dirname(m["File"]) + ("/..." if m["File"].startswith("types/") else "")
        rc, o = sh(["go", "test", "-vet=off", "-failfast", "-timeout", "60s", pkg], cwd=repo, env=env, timeout=180)
        if rc: return dict(st="tests")
        rc, o = sh(["go", "test", "-vet=off", "-failfast", "-timeout", "100s", "./..."], cwd=repo, env=env, timeout=300)
        if rc: return dict(st="tests")
        seen = []
        for p in relevant(m["File"]):
            for s in PROPS[p]["suites"]:
                out = f"{w}/ev.ndjson"
                rc = execute(w + "/vh", p, s, out, env)
                if rc: return dict(st="caught", by=p, key=f"harness exit {rc}")
                got = open(out).read().splitlines(); b = base[p, s]
                if len(got) != len(b): return dict(st="caught", by=p, key="events lost")
                d = [g for j, g in enumerate(got) if hash(g) != b[j] and (j not in unstable[p, s] or m["File"].startswith("extensions/"))]
                if d:
                    k = judge(w, p, s, d[:900 if m["File"].startswith("extensions/") else 150])
                    if k: return dict(st="caught", by=p, key=k, n=len(d))
                    seen.append(f"{p}/{s}:{len(d)}")
        return dict(st="MISSED", seen=seen)
    finally:
        shutil.copy(f"/repo/{m['File']}", f)
def worker(i, q, res):
    w = f"{D}/w{i}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns(".git"))
    env = env_for(w); cnt = 0
    def fresh():
        shutil.rmtree(w + "/cache", ignore_errors=True); shutil.copytree(D + "/cache0", w + "/cache", symlinks=True)
        sh(["go", "test", "-vet=off", "-run", "^$", "./..."], cwd=w + "/repo", env=env); build(w + "/repo", w + "/vh", env)
    fresh()
    while time.time() < END:
        try: m = q.get_nowait()
        except queue.Empty: break
        t = time.time()
        try: r = one(w, m, env)
        except Exception as e: r = dict(st="error", why=repr(e)[:300])
        r.update(id=m["ID"], file=m["File"], line=m["Line"], desc=m["Desc"], t=round(time.time() - t, 1))
        with jl:
            res.write(json.dumps(r) + "\n"); res.flush()
            if r["st"] in ("MISSED", "error"): print(json.dumps(r), flush=True)
        cnt += 1
        if cnt % 60 == 0: fresh()
    shutil.rmtree(w, ignore_errors=True)
scenarios()
w0 = D + "/w0"; shutil.rmtree(w0, ignore_errors=True); os.makedirs(w0)
env0 = env_for(w0); env0["GOMAXPROCS"] = "8"
rc, o = build("/repo", w0 + "/vh", env0)
assert rc == 0, o
for p in props:
    for s in PROPS[p]["suites"]:
        t = time.time(); rc = execute(w0 + "/vh", p, s, w0 + "/a", env0); assert rc == 0, (p, s, rc)
        x = open(w0 + "/a").read().splitlines()
        dt = time.time() - t
        bad = set()
        for _ in range(6):
            execute(w0 + "/vh", p, s, w0 + "/b", env0); y = open(w0 + "/b").read().splitlines()
            bad |= {j for j in range(len(x)) if x[j] != y[j]}
        base[p, s] = [hash(l) for l in x]; unstable[p, s] = bad
        print("baseline", p, s, len(x), "unstable", len(bad), f"{dt:.1f}s", flush=True)
shutil.rmtree(D + "/cache0", ignore_errors=True); sh(["go", "test", "-vet=off", "-run", "^$", "./..."], cwd="/repo", env=env0)
os.rename(w0 + "/cache", D + "/cache0")
shutil.rmtree(w0, ignore_errors=True)
muts = [json.loads(l) for l in subprocess.run("/tmp/mutator $(git ls-files '*.go' | grep -v _test.go | grep -v baseparser | grep -v '^codec\\|grammar/\\|errors.go')", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()]
muts = [m for m in muts if re.search(a.files, m["File"]) and not re.search(r"Errorf|errors\.New|panic|swap args of (fmt|errors)|make\(|delete fmt|ReportVisitError", m["Desc"])]
if a.ids:
    ids = set(open(a.ids).read().split()); muts = [m for m in muts if m["ID"] in ids]
rf = D + "/results.ndjson"
done = {json.loads(l)["id"] for l in open(rf)} if os.path.exists(rf) and not a.ids else set()
random.Random(a.seed).shuffle(muts)
muts = [m for m in muts if m["ID"] not in done][:a.limit]
q = queue.Queue()
for m in muts: q.put(m)
print(len(muts), "mutants", flush=True)
with open(rf, "a") as res:
    ts = [threading.Thread(target=worker, args=(i + 1, q, res)) for i in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
