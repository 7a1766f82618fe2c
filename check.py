#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]         run the check of a property
   check.py PROPERTY replay FILE              re-execute one recorded violation
   check.py setup                             warm the build cache
Builds the harnesses of the property from /repo's working tree (go test -c with an
overlay), runs them, merges what they covered into evidence/PROPERTY.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

def env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", CGO_ENABLED="1")
    e.pop("GOROOT", None)
    return e

def overlay(pkg, files, scratch):
    rep = {REPO + "/zzverif/kit.go": HERE + "/kit/kit.go"}
    for f in files:
        src = os.path.join(HERE, "harness", pkg.replace("/", "_"), f)
        rep[f"{REPO}/{pkg}/zz_verif_{f}"] = src
    path = os.path.join(scratch, "overlay-" + pkg.replace("/", "_") + ".json")
    json.dump({"Replace": rep}, open(path, "w"))
    return path

def build(h, scratch, tag=""):
    out = os.path.join(scratch, "bin-" + h["pkg"].replace("/", "_") + "-" + str(h["n"]) + tag)
    ov = overlay(h["pkg"], h["files"], scratch)
    cmd = ["go", "test", "-overlay", ov, "-vet=off", "-c", "-o", out]
    if h.get("tags"): cmd += ["-tags", h["tags"]]
    if h.get("race"): cmd += ["-race"]
    r = subprocess.run(cmd + ["./" + h["pkg"]], cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out if r.returncode == 0 and os.path.exists(out) else None), r.stdout

def run(binary, h, outdir, tier, budget, replay=None):
    e = env()
    e.update(VERIF_OUT=outdir, VERIF_TIER=tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_BUDGET=str(budget))
    e["GOTRACEBACK"] = "all"; e.setdefault("GOGC", "400")
    if replay: e["VERIF_REPLAY"] = replay
    cwd = os.path.join(outdir, "cwd"); os.makedirs(cwd, exist_ok=True)
    e["TMPDIR"] = cwd
    log = os.path.join(outdir, "log-" + re.sub(r"\W", "_", h["pkg"] + h["run"]) + ".txt")
    with open(log, "w") as f:
        try:
            r = subprocess.run([binary, "-test.run", "^" + h["run"] + "$", "-test.v", "-test.timeout", "0"] + h.get("args", []) + (["-test.cpuprofile", os.environ["VERIF_PROFILE"]] if os.environ.get("VERIF_PROFILE") else []),
                               cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=budget + 240)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
    return code, log

def frags(outdir):
    r = []
    for n in sorted(os.listdir(outdir)):
        if n.startswith("frag-"):
            r.append(json.load(open(os.path.join(outdir, n))))
            r[-1]["violations"] = r[-1].get("violations") or []
    return r

def known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == prop: r.append(k)
    return r

def main():
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    try:
        return check(prop, mode, spec, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def check(prop, mode, spec, scratch, t0):
    replay = None
    tier = mode
    if mode == "replay":
        replay = os.path.abspath(sys.argv[3]); tier = json.load(open(replay)).get("tier", "quick")
    total = int(spec.get("budget", {}).get(tier, 500 if tier == "quick" else 3000))
    viols, allfrags, broken, notes = [], [], [], []
    bins = {}
    for i, h in enumerate(spec["harnesses"]):
        h = dict(h, n=i)
        key = (h["pkg"], tuple(h["files"]), h.get("tags"), h.get("race"))
        if key not in bins:
            bins[key] = build(h, scratch)
        b, out = bins[key]
        if b is None:
            broken.append(f"build of harness for {h['pkg']} failed:\n{out[-4000:]}")
            continue
        outdir = os.path.join(scratch, "out%d" % i); os.makedirs(outdir)
        left = max(30, total - (time.time() - t0))
        code, log = run(b, h, outdir, tier, int(left), replay)
        fs = frags(outdir)
        text = open(log, errors="replace").read()
        if os.environ.get("VERIF_VERBOSE"): print(text[-20000:])
        if replay:
            print(text[-6000:])
        done = fs and all(f["done"] for f in fs)
        if code == 0 and (done or replay):
            pass
        elif code == "timeout":
            notes.append(f"{h['pkg']} {h['run']}: stopped by the runner's time limit"); 
            for f in fs: f["exhaustive"] = False
        elif not done and code not in (-9, 137):
            # the process died or an execution hung: confirm by running again
            outdir2 = os.path.join(scratch, "out%db" % i); os.makedirs(outdir2)
            code2, log2 = run(b, h, outdir2, tier, int(left), replay)
            fs2 = frags(outdir2)
            text2 = open(log2, errors="replace").read()
            if code2 == 0 and fs2 and all(f["done"] for f in fs2):
                notes.append("an abnormal end of the harness did not reproduce"); fs = fs2
            elif code2 in (-9, 137, "timeout"):
                broken.append("harness ended abnormally: %s / %s" % (code, code2))
            else:
                got = [v for f in fs2 for v in f["violations"]]
                if not got:
                    m = re.search(r"^(panic: .*|fatal error: .*|.*CRIT.*)$", text2, re.M)
                    sig = "died"
                    fs2.append(dict(property=prop, harness=h["run"], executions=0, states=0, transitions=0, distinct=0, exhaustive=False, samples=[], bounds={}, notes=[], done=False, wall_s=0,
                        violations=[dict(property=prop, harness=h["run"], phase="", choices=[], signature=sig, message=("process ended with %s: %s\n" % (code2, m.group(1) if m else "")) + text2[-6000:], operations=[])]))
                fs = fs2
        elif not done:
            broken.append("harness ended with %s" % code)
        elif code != 0 and not replay and not any(f["violations"] for f in fs):
            broken.append("harness ended with %s\n%s" % (code, text[-3000:]))
        allfrags += fs
        for f in fs:
            for v in f["violations"] or []:
                v["tier"] = tier
                viols.append(v)
    kn = known(prop)
    new, hit = [], {}
    for v in viols:
        k = next((k for k in kn if re.fullmatch(k["signature"], v["signature"])), None)
        if k: hit[k["signature"]] = k
        else: new.append(v)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    lines = []
    for n, v in enumerate(new[:5]):
        path = os.path.join(HERE, "evidence", "replays", f"{prop}-{n}.json")
        json.dump(v, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"# {v['signature']}: {v['message'][:600]}")
        if v.get("operations"): print("# operations: " + " ; ".join(v["operations"])[:1500])
    if mode != "replay":
        evidence(prop, tier, spec, allfrags, new, hit, notes + broken, t0)
    for l in lines: print(l)
    if lines: return 1
    if broken:
        print("CHECK-ERROR " + "\n".join(broken)); return 2
    print(f"OK property={prop} tier={tier} executions={sum(f['executions'] for f in allfrags)} wall={time.time()-t0:.1f}s")
    return 0

def evidence(prop, tier, spec, fs, new, hit, notes, t0):
    S = lambda k: sum(f[k] or 0 for f in fs)
    samples = []
    for f in fs: samples += [f"{f['harness']}: {s}" for s in (f["samples"] or [])[:4]]
    cov = {"exhaustive": bool(fs) and all(f["exhaustive"] for f in fs) and not notes,
           "samples": samples,
           "harnesses": [{k: f.get(k) for k in ("harness", "executions", "states", "transitions", "distinct", "exhaustive", "bounds", "notes", "wall_s")} for f in fs]}
    if spec["level"] == "model_checking":
        cov.update(states=S("states"), transitions=S("transitions"), traces_validated_against_impl=S("executions"), distinct_outcomes=S("distinct"))
    else:
        cov.update(evaluations=S("executions"), distinct_nontrivial=S("distinct"), rule=spec["rule"], states=S("states"), transitions=S("transitions"))
    if notes: cov["notes"] = notes
    if hit: cov["known_findings"] = [k["what"] for k in hit.values()]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

def setup():
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        seen = set()
        for p, s in CHECKS.items():
            for i, h in enumerate(s["harnesses"]):
                k = (h["pkg"], tuple(h["files"]))
                if k in seen: continue
                seen.add(k)
                b, out = build(dict(h, n=i), scratch, p)
                print(p, h["pkg"], "ok" if b else "FAILED " + out[-800:])
                if b: os.remove(b)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0

sys.exit(main())
