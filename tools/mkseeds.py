#!/usr/bin/env python3
"""Development tool: (re)writes /verif/seeded/<id>/ from the patches tried with sweep.py and the demonstrations below.
  mkseeds.py PATCHDIR [PATCHDIR...]"""
import json, os, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
KIT = f"{HERE}/seedkit"
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = []

def rust(sid, prop, needs, breaks, body, patch=None):
    SEEDS.append(("rust", sid, prop, needs, breaks, body, patch or sid))

def cli(sid, prop, needs, breaks, body, patch=None):
    SEEDS.append(("cli", sid, prop, needs, breaks, body, patch or sid))

exec(open(f"{KIT}/seeds.py").read())

def main():
    os.makedirs(SEEDED, exist_ok=True)
    for kind, sid, prop, needs, breaks, body, patch in SEEDS:
        d = f"{SEEDED}/{sid}"
        os.makedirs(d, exist_ok=True)
        for root in sys.argv[1:]:
            if os.path.exists(f"{root}/{patch}.diff"):
                shutil.copy(f"{root}/{patch}.diff", f"{d}/patch.diff")
        if not os.path.exists(f"{d}/patch.diff"):
            print("no patch for", sid)
        demo = open(f"{KIT}/{kind}_demo.sh").read().replace("@ID@", sid)
        if kind == "rust":
            shutil.copy(f"{KIT}/kit.rs", f"{d}/kit.rs")
            shutil.copy(f"{os.path.dirname(HERE)}/harness/Cargo.lock", f"{d}/lock.txt")
            pre = "#![allow(unused_imports)]\nmod kit;\nuse kit::*;\nuse serde_json::{json, Value as Json};\nuse std::collections::{BTreeMap, BTreeSet};\n\n"
            with open(f"{d}/main.rs", "w") as f:
                f.write(pre + body.strip() + "\n")
        else:
            demo = demo.replace("@BODY@", body.strip())
        with open(f"{d}/demo.sh", "w") as f:
            f.write(demo)
        os.chmod(f"{d}/demo.sh", 0o755)
        with open(f"{d}/meta.json", "w") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
            f.write("\n")

main()
