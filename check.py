#!/usr/bin/env python3
"""check.py ID quick|thorough: decides one property on /repo's current tree.
check.py setup: builds everything the checks share.   check.py replay FILE: runs a recorded violation again."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vc

MODULES = {
    "chk_lang": ["C01", "C02", "C03", "C04", "C12", "C17"],
    "chk_ir": ["C05", "C06"],
    "chk_opt": ["C07"],
    "chk_field": ["C14"],
    "chk_file": ["C09"],
    "chk_asm": ["C18"],
    "chk_export": ["C10", "C11"],
    "chk_abi": ["C08"],
}


def main():
    cmd = sys.argv[1]
    if cmd == "setup":
        vc.build("zkh", "zkf")
        return 0
    if cmd == "replay":
        d = json.load(open(sys.argv[2]))
        tool = "zkf" if d["data"].get("job", {}).get("kind") in ("file", "export") else "zkh"
        vc.build(tool)
        print(json.dumps(d, indent=1)[:4000])
        if "job" in d["data"]:
            print(json.dumps(vc.run_jobs([d["data"]["job"]], "replay", tool=os.path.join(vc.TARGET, "debug", tool)), indent=1)[:8000])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module([m for m, ids in MODULES.items() if cmd in ids][0])
    vc.build(*getattr(mod, "TOOLS", ("zkh",)))
    r = vc.Report(cmd, tier, seed)
    mod.check(cmd, tier, seed, r)
    return r.finish()


if __name__ == "__main__":
    sys.exit(main())
