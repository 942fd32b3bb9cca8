"""Development aid: confirm a planted bug.  python3 tools/plant.py ID [--keep-going]

/verif/seeded/ID/spec.py-like description is given on the command line through tools/bugs.py; applies the change to /repo,
builds, runs the stable tests, the demonstration and the property's check, and restores /repo."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))

DEMO = '''#!/bin/bash
# compiles the crate and the demonstration, and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -r "$d"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2025-04-20
cfg=(%s --cfg f16_enabled --cfg f128_enabled --cfg 'feature="unstable-float"')
rustc --edition 2021 --cap-lints allow -O --crate-type rlib --crate-name libm "${cfg[@]}" libm/src/lib.rs --out-dir "$d" || exit 3
rustc --edition 2021 --cap-lints allow -O --extern libm="$d/liblibm.rlib" "$here/demo.rs" -o "$d/demo" || exit 3
"$d/demo"
'''
ARCH = "--cfg arch_enabled --cfg 'feature=\"arch\"'"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    import bugs

    for bid in sys.argv[1:]:
        if bid.startswith("-"):
            continue
        b = bugs.BUGS[bid]
        d = os.path.join(ROOT, "seeded", bid)
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
        try:
            for path, old, new in b["edits"]:
                p = "/repo/libm/src/" + path
                s = open(p).read()
                assert s.count(old) == 1, (path, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.rs", "w").write("#![feature(f16, f128)]\n" + b["demo"])
            open(d + "/demo.sh", "w").write(DEMO.replace("-O --crate-type", "-O %s --crate-type" % b.get("flags", "")) % ("" if b.get("soft") else ARCH))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh(f"{d}/demo.sh", cwd="/repo")
            print(bid, "demo with bug:", r.returncode, (r.stdout + r.stderr)[-300:].strip(), flush=True)
            if r.returncode == 0:
                continue
            if "--notest" not in sys.argv:
                r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.json", cwd="/repo")
                if r.returncode not in (0, 1) or not os.path.exists("/tmp/plant.json"):
                    print(bid, "BUILD", (r.stdout + r.stderr)[-1500:])
                    continue
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                ok = set(json.load(open("/tmp/plant.json"))["passed"])
                os.unlink("/tmp/plant.json")
                bad = [x for x in base if x not in ok]
                print(bid, "stable tests failing:", len(bad), bad[:4], flush=True)
            if "--nocheck" not in sys.argv:
                import time

                t0 = time.time()
                r = sh(f"python3-vt checks/{b['property'].lower()}.py quick", cwd=ROOT)
                print(bid, "check:", r.returncode, "%.0fs" % (time.time() - t0), "\n".join(l[:300] for l in r.stdout.splitlines() if l.startswith(("violated", "VIOL", b["property"])))[:900], flush=True)
        finally:
            sh("git -C /repo checkout -- .")
        r = sh(f"{d}/demo.sh", cwd="/repo")
        print(bid, "demo without bug:", r.returncode, (r.stdout + r.stderr)[-300:].strip(), flush=True)


main()
