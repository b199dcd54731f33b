#!/usr/bin/env python3
"""Development tool (no check uses it): tries the checks against planted changes.

  sweep.py mutants [ID...]     every entry of mutants.py (or those given): build, stable tests, the property's check
  sweep.py equivalents [ID...] every diff of equivalents/ (changes after which every property still holds): all checks
                               have to stay quiet; CHECKS=C01,C02 limits which are run
  sweep.py seeded  [ID...]     every folder of /verif/seeded: the same, and its demo on the clean and the changed tree

Everything runs in a private user and mount namespace in which scratch copies stand in for /repo, /verif and
/opt/vp, so neither the real trees nor their build output is touched.   LANE=name picks the scratch copies."""
import json, os, subprocess, sys, time, shutil

LANE = os.environ.get("LANE", "a")
BASE = f"/tmp/lane-{LANE}"
HERE = os.path.dirname(os.path.abspath(__file__))

def sh(cmd, timeout=1200, shell=True):
    t = time.time()
    try:
        p = subprocess.run(cmd, shell=shell, capture_output=True, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout + p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout), time.time() - t

def inner(cmd, timeout=1200):
    script = f"mount --bind {BASE}/repo /repo && mount --bind {BASE}/verif /verif && mount --bind {BASE}/vp /opt/vp && cd /repo && {cmd}"
    return sh(["unshare", "-Urm", "bash", "-c", script], timeout, shell=False)

def prepare():
    os.makedirs(BASE, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/", f"{BASE}/repo/"], check=False) if shutil.which("rsync") else \
        subprocess.run(f"rm -rf {BASE}/repo {BASE}/verif {BASE}/vp; cp -a /repo {BASE}/repo; cp -a /verif {BASE}/verif; cp -a /opt/vp {BASE}/vp", shell=True, check=True)
    if shutil.which("rsync"):
        subprocess.run(["rsync", "-a", "--delete", "/verif/", f"{BASE}/verif/"], check=True)
        subprocess.run(["rsync", "-a", "--delete", "/opt/vp/", f"{BASE}/vp/"], check=True)

def stable_ok():
    rc, out, t = inner("bash /opt/vp/test.sh /opt/vp/out.json", 180)
    try:
        got = json.load(open(f"{BASE}/vp/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
    except Exception as e:
        return False, out[-1500:]
    want = base["stable"]
    missing = [x for x in want if x not in set(got["passed"])]
    return not missing, (out[-1500:] if len(missing) > 20 else str(missing))

def check(prop, secs=1000):
    rc, out, t = inner(f"VERIF_TIER=quick VERIF_SEED=1 timeout {secs} bash /verif/run.sh {prop}", secs + 60)
    lines = [l for l in out.splitlines() if "VIOLATION" in l or "sig=" in l]
    return rc, t, (lines[0][:260] if lines else out[-300:].replace("\n", " | ") if rc not in (0,) else "")

def reset():
    sh(f"cd {BASE}/repo && git checkout -q -- . && git clean -fdq src")

def report(rec):
    print(json.dumps(rec), flush=True)
    with open(f"{BASE}/results.jsonl", "a") as f:
        f.write(json.dumps(rec) + "\n")

def mutants(ids):
    sys.path.insert(0, HERE)
    import mutants as M
    for m in M.MUTANTS:
        mid, props, edits = m[0], m[1].split(), m[2]
        if ids and mid not in ids and not any(mid.startswith(i) for i in ids):
            continue
        reset()
        bad = None
        for f, old, new in edits:
            p = f"{BASE}/repo/src/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            report({"id": mid, "err": bad}); continue
        os.makedirs(f"{BASE}/patches", exist_ok=True)
        sh(f"cd {BASE}/repo && git diff > {BASE}/patches/{mid}.diff")
        rc, out, _ = inner("bash /opt/vp/build.sh", 900)
        if rc:
            err = [l for l in out.splitlines() if l.startswith("error")]
            i = out.find("error")
            report({"id": mid, "err": "build " + out[i:i+900]}); continue
        ok, why = stable_ok()
        rec = {"id": mid, "tests": "pass" if ok else "FAIL " + why[:300]}
        if ok or os.environ.get("ANYWAY"):
            for p in [p for p in props if p in os.environ.get("CHECKS", p)]:
                rc, t, line = check(p)
                rec[p] = f"rc={rc} {t:.0f}s {line}"
        report(rec)
    reset()

def seeded(ids):
    root = "/verif/seeded"
    for mid in sorted(os.listdir(root)):
        if ids and not any(mid.startswith(i) for i in ids):
            continue
        d = f"{root}/{mid}"
        meta = json.load(open(f"{d}/meta.json"))
        reset()
        rec = {"id": mid}
        demo = f"{BASE}/demo-{mid}"
        sh(f"rm -rf {demo}; mkdir -p {demo}; cp -a {d}/. {demo}/; rm -f {demo}/*.diff {demo}/*.patch {demo}/meta.json")
        inner("bash /opt/vp/build.sh", 900)
        rc, out, t = inner(f"bash {demo}/demo.sh", 300)
        rec["clean"] = f"rc={rc} {t:.0f}s" + ("" if rc == 0 else out[-600:])
        rc, out, t = sh(f"cd {BASE}/repo && git apply {d}/patch.diff")
        if rc:
            rec["err"] = out; report(rec); continue
        rc, out, _ = inner("bash /opt/vp/build.sh", 900)
        if rc:
            rec["err"] = "build " + out[-600:]; report(rec); continue
        rc, out, t = inner(f"bash {demo}/demo.sh", 300)
        rec["patched"] = f"rc={rc} {t:.0f}s " + out[-200:]
        ok, why = stable_ok()
        rec["tests"] = "pass" if ok else "FAIL " + why
        if not os.environ.get("NOCHECK"):
            rc, t, line = check(meta["property"])
            rec["check"] = f"{meta['property']} rc={rc} {t:.0f}s {line}"
        report(rec)
        sh(f"rm -rf {demo}")
    reset()

def reverts(ids):
    """every repair taken back: the property's check has to report the defect again"""
    for line in json.load(open("/verif/known_findings.json"))["fixed"]:
        _, prop, commit = line.split()[:3]
        prop = prop.split("=")[1]
        if ids and commit not in ids and prop not in ids:
            continue
        reset()
        rc, out, _ = sh(f"cd {BASE}/repo && git diff {commit} {commit}~1 | git apply -3 2>&1 || git diff {commit} {commit}~1 | git apply --reject 2>&1; git diff --stat HEAD")
        rec = {"id": "revert-" + commit, "apply": "clean" if "with conflicts" not in out and "reject" not in out else out[-200:]}
        rc, t, line2 = check(prop)
        rec[prop] = f"rc={rc} {t:.0f}s {line2}"
        report(rec)
        sh(f"cd {BASE}/repo && git reset -q --hard HEAD")
    reset()

def equivalents(ids):
    for f in sorted(os.listdir(f"{HERE}/equivalents")):
        if ids and not any(f.startswith(i) for i in ids):
            continue
        reset()
        rec = {"id": f}
        rc, out, _ = sh(f"cd {BASE}/repo && git apply {HERE}/equivalents/{f}")
        if rc:
            rec["err"] = out; report(rec); continue
        rc, out, _ = inner("bash /opt/vp/build.sh", 900)
        ok, why = stable_ok()
        rec["tests"] = "pass" if ok else "FAIL " + why[:300]
        for p in os.environ.get("CHECKS", ",".join(f"C{i:02}" for i in range(1, 18))).split(","):
            rc, t, line = check(p)
            if rc or os.environ.get("VERBOSE"):
                rec[p] = f"rc={rc} {t:.0f}s {line}"
        report(rec)
    reset()

if __name__ == "__main__":
    prepare()
    {"equivalents": equivalents, "mutants": mutants, "seeded": seeded, "reverts": reverts}[sys.argv[1]](sys.argv[2:])
