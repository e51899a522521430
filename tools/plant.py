#!/usr/bin/python3
"""plant.py ID PROP FILE <<< python: edit a scratch copy, confirm, keep as /verif/seeded/ID.
Reads a YAML-less spec from a python file: dict with edits [(file, old, new)], needs, breaks, demo."""
import json
import re, os, re, shutil, subprocess, sys, runpy
W = "/tmp/w"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV = ". /opt/vp/env.sh; "
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for id_, b in spec.items():
        if only and id_ not in only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        sh(f"cp -a /repo {W}; git -C {W} checkout -q -- .")
        bad = False
        for f, old, new in b["edits"]:
            p = f"{W}/{f}"
            s = open(p).read()
            r = re.compile(re.escape(old).replace("\\\n", "\n").replace("\n", "\n(?:[ \t]*\n)*"))
            if len(r.findall(s)) != 1:
                print(id_, "edit matches", len(r.findall(s)), "times:", old[:60]); bad = True; break
            open(p, "w").write(r.sub(lambda _: new, s))
        if bad:
            continue
        d = f"/verif/seeded/{id_}"
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {W} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        # only lines of the original repository
        base = sh("git -C /repo log --format=%H --reverse").stdout.split()
        fixed = set(sh("git -C /repo log --grep '^fix:' --format=%H").stdout.split())
        for f in {e[0] for e in b["edits"]}:
            bl = sh(f"git -C /repo blame -l -s {f}").stdout.splitlines()

            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git -C {W} diff -U0 -- {f}").stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    if bl[k - 1].split()[0].lstrip("^") in fixed:
                        print(id_, "WARNING line of a fix:", f, k, bl[k - 1][:120])
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg OPENBLAS_CORETYPE=Haswell OPENBLAS_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = sh(f"cd /repo && bash {d}/demo.sh")
        r1 = sh(f"cd {W} && bash {d}/demo.sh")
        t = sh(f"{ENV} cd {W} && PYTHONPATH={W} /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -4")
        c = sh(f"cd /verif && VERIF_REPO={W} python3-vt check.py {b['property']} quick")
        out = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "failed", "  on the real", b["property"] + ":", "  bounded", "  undecided", "  harness"))]
        print(f"== {id_} {b['property']} demo {r0.returncode}/{r1.returncode} tests: {t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]} check rc={c.returncode}")
        if r0.returncode: print("   DEMO FAILS ON CLEAN:", (r0.stdout + r0.stderr)[-300:])
        if not r1.returncode: print("   DEMO PASSES ON PATCH")
        for l in out[:6]:
            print("    ", l[:220])
    shutil.rmtree(W, ignore_errors=True)
main()
