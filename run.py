#!/usr/bin/env python3
"""Decide one property: generate scenarios with TLC from the specification, run them on the real code,
let TLC judge what was recorded.   run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]"""
import argparse, collections, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(HERE, "specs")
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from suites import SUITES, PROPS  # noqa: E402


class CheckError(Exception):
    pass


def short(out):
    return out if len(out) < 4000 else out[:1200] + "\n...\n" + out[-2500:]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_EXTRA="")
    envf = "/opt/vp/env.sh"
    if os.path.exists(envf):
        out = subprocess.run(["bash", "-c", f". {envf} >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        for kv in out.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k in ("PATH", "GOROOT", "GOPATH", "GOCACHE", "GOMODCACHE", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK"):
                    e[k] = v
    e["GOFLAGS"] = "-mod=mod"
    return e


def build_harness(work):
    """Compile the harness against the working tree of REPO."""
    gomod = open(os.path.join(REPO, "go.mod")).read()
    m = re.search(r"^module (\S+)", gomod, re.M)
    mod = m.group(1)
    gov = re.search(r"^go (\S+)", gomod, re.M).group(1)
    blocks = re.findall(r"^require \((.*?)^\)", gomod, re.M | re.S)
    lines = [l for b in blocks for l in b.splitlines() if l.strip()]
    lines += ["\t" + l for l in re.findall(r"^require (\S+ v\S+.*)$", gomod, re.M)]
    repl = re.findall(r"^replace .*$", gomod, re.M)
    with open(os.path.join(work, "h.mod"), "w") as f:
        f.write("module verifharness\n\ngo %s\n\nrequire (\n\t%s v8.0.0\n%s\n)\n\nreplace %s => %s\n%s\n" % (
            gov, mod, "\n".join(lines), mod, REPO, "\n".join(repl)))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "h.sum"))
    exe = os.path.join(work, "vh")
    r = sh(["go", "build", "-modfile", os.path.join(work, "h.mod"), "-o", exe, "."],
           cwd=os.path.join(HERE, "harness"), env=go_env())
    if r.returncode != 0:
        raise CheckError("harness build failed:\n" + r.stdout[-4000:])
    return exe


def tlc(work, name, module, cfg, env, args=(), workers=1, timeout=840, heap="3g"):
    """Run TLC; returns its output. Raises CheckError unless it finished normally."""
    d = tempfile.mkdtemp(prefix=name + "-", dir=work)
    cfgf = os.path.join(d, "run.cfg")
    open(cfgf, "w").write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLACP, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE",
           "-deadlock", "-workers", str(workers), "-config", cfgf, *args, os.path.join(SPECS, module + ".tla")]
    try:
        r = sh(cmd, cwd=SPECS, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"{name}: TLC timed out")
    out = r.stdout
    if r.returncode != 0 and "Error:" in out and "Parsing or semantic" not in out:
        out = out[out.index("Error:"):]
    return r.returncode, out


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0


def model_check(work, mc, tier):
    cfg = mc.get("cfg_" + tier) or mc["cfg"]
    rc, out = tlc(work, mc["module"], mc["module"], cfg, {"TIER": tier, "OUT": "/dev/null"}, mc.get("args", ()),
                  workers=mc.get("workers", 8), heap="8g")
    if rc != 0:
        raise CheckError(f"model check of {mc['module']} failed:\n" + short(out))
    return tlc_counts(out)


def generate(work, g, tier, seed, n, shards):
    files, st, tr = [], 0, 0
    def one(k):
        f = os.path.join(work, f"scn-{g['module']}-{k}.ndjson")
        cnt = n // shards + (1 if k < n % shards else 0)
        env = {"OUT": f, "N": cnt, "BASE": sum(n // shards + (1 if j < n % shards else 0) for j in range(k)),
               "TIER": tier, "PROP": g.get("prop", "")}
        rc, out = tlc(work, f"{g['module']}-{k}", g["module"], g.get("cfg", "INIT Init\nNEXT Next\nINVARIANT Law\n"), env,
                      ["-simulate", "num=1", "-depth", str(cnt + 1), "-seed", str(seed * 1000 + k)])
        if rc != 0 or not os.path.exists(f):
            raise CheckError(f"generation with {g['module']} failed:\n" + short(out))
        return f, tlc_counts(out)
    with cf.ThreadPoolExecutor(8) as ex:
        for f, (a, b) in ex.map(one, range(shards)):
            files.append(f); st += a; tr += b
    return files, st, tr


def gen_bfs(work, g, tier):
    """Scenarios from an exhaustive exploration (the module appends a line per complete behaviour)."""
    f = os.path.join(work, f"scn-{g['module']}-bfs.ndjson")
    open(f, "w").close()
    rc, out = tlc(work, g["module"] + "-bfs", g["module"], g.get("cfg_" + tier) or g["cfg"], {"OUT": f, "TIER": tier, "N": 0, "BASE": 0, "PROP": g.get("prop", "")}, workers=1, heap="6g")
    if rc != 0:
        raise CheckError(f"exploration of {g['module']} failed:\n" + short(out))
    a, b = tlc_counts(out)
    return [f], a, b


def execute(exe, suite, scn, out, timeout=600):
    """Run the scenarios. A fatal crash of the process (stack overflow, fatal error) is pinned to single scenarios by
    bisection; those get an event with hang = "yes"."""
    r = sh([exe, suite, scn, out], timeout=timeout, env=dict(os.environ, GOMAXPROCS="8", GOMEMLIMIT="6GiB"))
    if r.returncode == 0:
        return
    if r.returncode == 3:
        raise CheckError(f"harness failed on {suite}:\n" + r.stdout[-4000:])
    lines = [l for l in open(scn).read().splitlines() if l.strip()]
    if len(lines) == 1:
        o = json.loads(lines[0])
        o["hang"] = "yes"
        open(out, "w").write(json.dumps(o) + "\n")
        return
    with open(out, "w") as f:
        step = max(1, (len(lines) + 7) // 8)
        for k in range(0, len(lines), step):
            part = f"{scn}.{k}"
            open(part, "w").write("\n".join(lines[k:k + step]) + "\n")
            execute(exe, suite, part, part + ".ev", timeout)
            f.write(open(part + ".ev").read())


def judge(work, module, ev, prop, workers, extra_cfg=""):
    cfg = "INIT JInit\nNEXT JNext\nINVARIANT Judged\nCONSTANT Verdict <- TheVerdict\n" + extra_cfg
    rc, out = tlc(work, module, module, cfg, {"EVENTS": ev, "PROP": prop}, workers=workers, heap="6g")
    if rc != 0:
        raise CheckError(f"judge {module} failed:\n" + short(out))
    bads = []
    for m in re.finditer(r'^"?@@BAD\|(\d+)\|(P\d\d)\|([^|]*)\|(.*?)"?$', out, re.M):
        bads.append(dict(line=int(m[1]), prop=m[2], key=m[3], why=m[4]))
    if out.count("@@BAD|") != len(bads):
        raise CheckError("unparsed judge output:\n" + out[-3000:])
    return bads, tlc_counts(out)


def load_known():
    known = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"^KNOWN-FINDING: property=(P\d\d) key=(\S+) (.*)$", l.strip())
            if m:
                known.append((m[1], m[2], m[3]))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    work = tempfile.mkdtemp(prefix="vh-%s-" % a.prop)
    if a.setup:  # nothing is kept: checks build what they need; this warms the caches and shows the tools are there
        try:
            build_harness(work)
            print("ok")
        except CheckError as e:
            print("CHECK-ERROR", e)
            sys.exit(2)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    try:
        rc = run(a, work)
    except CheckError as e:
        print("CHECK-ERROR", e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR timeout", e)
        rc = 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, work):
    t0 = time.time()
    P = PROPS[a.prop]
    states = transitions = events = 0
    hist = collections.Counter()
    samples, allbad, per_suite = [], [], {}
    with cf.ThreadPoolExecutor(8) as pre:
        fb = pre.submit(build_harness, work)
        fmcs = [] if a.replay else [(mc, pre.submit(model_check, work, mc, a.tier)) for s in P["suites"] for mc in SUITES[s].get("mc", []) if mc.get("prop", a.prop) == a.prop]
        for mc, fu in fmcs:
            st, tr = fu.result()
            states += st; transitions += tr
            per_suite["mc:" + mc["module"]] = dict(states=st, transitions=tr)
        exe = fb.result()
    for sname in P["suites"]:
        S = SUITES[sname]
        if a.replay:
            files = [a.replay]
            st = tr = 0
        else:
            files, st, tr = [], 0, 0
            for g in S["gens"]:
                g = dict(g)
                if g.get("props") and a.prop not in g["props"]:
                    continue
                g["prop"] = a.prop
                if g.get("bfs"):
                    f, x, y = gen_bfs(work, g, a.tier)
                else:
                    n = g["n"][a.tier]
                    if isinstance(n, dict):
                        n = n.get(a.prop, n.get("*", 0))
                    if n == 0:
                        continue
                    f, x, y = generate(work, g, a.tier, a.seed, n, g.get("shards", 8 if n > 8000 else 4 if n > 1500 else 2))
                files += f; st += x; tr += y
        states += st; transitions += tr
        # execute and judge in shards
        def one(k_f):
            k, f = k_f
            ev = os.path.join(work, f"ev-{sname}-{k}.ndjson")
            execute(exe, S["exec"], f, ev)
            if os.path.getsize(ev) == 0:
                return f, ev, [], (0, 0)
            bads, cnt = judge(work, S["judge"], ev, a.prop, 2)
            return f, ev, bads, cnt
        with cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, enumerate(files)))
        for f, ev, bads, cnt in res:
            states += cnt[0]; transitions += cnt[1]
            lines = open(ev).read().splitlines()
            events += len(lines)
            for j, l in enumerate(lines):
                o = json.loads(l)
                hist[sname + ":" + str(o.get("op")) + ":" + str(o.get("tag", ""))] += 1
                if len(samples) < 4 and j in (0, len(lines) // 2) and len(l) < 6000:
                    samples.append(o)
            scn = None
            for b in bads:
                if b["prop"] != a.prop:
                    continue
                if scn is None:
                    scn = {json.loads(x)["id"]: x for x in open(f).read().splitlines() if x.strip()}
                b["scn"] = scn.get(json.loads(lines[b["line"] - 1])["id"])
                b["ev"] = lines[b["line"] - 1]
                b["suite"] = sname
                allbad.append(b)
    known = load_known()
    viol, found = {}, {}
    for b in allbad:
        kf = next((k for k in known if k[0] == a.prop and re.fullmatch(k[1], b["key"])), None)
        if kf:
            found.setdefault(kf, 0)
            found[kf] += 1
        else:
            viol.setdefault(b["key"], []).append(b)
    for kf, c in sorted(found.items()):
        print(f"KNOWN-FINDING: property={a.prop} {kf[1]} {kf[2]} ({c} events)")
    rdir = os.path.join(HERE, ".replay")
    nviol = 0
    for key, bs in sorted(viol.items()):
        nviol += len(bs)
        b = min(bs, key=lambda x: len(x["scn"] or x["ev"]))
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.prop}-{re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80]}.ndjson")
        open(path, "w").write((b["scn"] or "") + "\n")
        open(path + ".event", "w").write(b["ev"] + "\n" + b["why"] + "\n")
        print(f"VIOLATION property={a.prop} replay={path} key={key} events={len(bs)} why={b['why'][:600]}")
    wall = time.time() - t0
    if not a.replay:
        if events == 0:
            raise CheckError("no events were judged")
        evd = dict(property=a.prop, tier=a.tier, seed=a.seed, level=P.get("level", "model_checking"),
                   coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=events,
                                 samples=samples, by_kind=dict(sorted(hist.items())), specification=per_suite,
                                 exhaustive=False),
                   assumptions=P.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
    print(f"{a.prop}: {events} events judged, {states} states, {len(viol)} violation kinds, {wall:.1f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    main()
