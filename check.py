#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]: decide one property on /repo's tree.

Exit 0: every obligation the contracts of the property generate from the
current source was discharged (or, where labelled bounded, explored without a
failure).  Exit 1 with a VIOLATION line otherwise."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
BOUNDED = {"unsupported", "budget"}


def env():
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
             OPENBLAS_CORETYPE="Haswell", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return e


def known():
    """known_findings.txt -> {finding id: (property, contract, text)}"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("finding:"):
            _, rest = l.split(":", 1)
            kv, _, text = rest.strip().partition(" -- ")
            d = dict(x.split("=", 1) for x in kv.split())
            out[d["id"]] = (d["property"], d["contract"], text.strip())
    return out


def write_replay(prop, k, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{k}.json")
    json.dump(data, open(p, "w"), indent=1, default=str)
    return p


def given_of(o):
    m = dict(o.get("model") or {})
    anch = m.pop("_anchors", {})
    m.pop("_difference", None)
    m.pop("_rigid", None)
    return dict(choices=o.get("choices") or o.get("path") or {}, reals=m, anchors=anch)


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        return subprocess.call([VENV, os.path.join(HERE, "dv", "conc.py"), prop, "--replay", sys.argv[3]], env=env())
    t0 = time.time()
    thorough = tier == "thorough"
    from dv import engine, api
    for f in os.listdir(os.path.join(HERE, "evidence", "replay")) if os.path.isdir(os.path.join(HERE, "evidence", "replay")) else []:
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(HERE, "evidence", "replay", f))
    ctime = 240 if thorough else 40
    cp = subprocess.Popen([VENV, os.path.join(HERE, "dv", "conc.py"), prop, "--seed", str(seed), "--time", str(ctime),
                           "--trials", "600" if thorough else "60"], env=env(), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True)
    try:
        R = engine.explore(prop, 500 if thorough else 240, 8)
        crash = None
    except Exception:
        R, crash = [], traceback.format_exc()
    out, err = cp.communicate()
    try:
        C = json.loads(out.strip().splitlines()[-1])
        cerr = None
    except Exception:
        C, cerr = dict(results={}, secs=0), err[-2000:]

    kf = known()
    violations = []      # dict(contract, name, note, given, confirmed)
    findings = set()
    undecided = []
    # ---------------------------------------------------------- symbolic
    requests, slots = [], []
    nobl = ndis = 0
    by_backend, names, bounded = {}, {}, {}
    for r in R:
        c = r["contract"]
        if r["missing"] or not r["sym"]:
            continue
        # obligation instances, grouped by name and choices
        groups = {}
        for o in r["obls"]:
            nobl += 1
            g = names.setdefault((c, o["name"]), [0, 0])
            g[0] += 1
            if o["status"] == "proved":
                ndis += 1
                g[1] += 1
                b = "decided on the path (same term, shape, exception, identity)" if o["backend"] == "eval" else o["backend"]
                by_backend[b] = by_backend.get(b, 0) + 1
            elif o["status"] == "refuted":
                groups.setdefault((o["name"], json.dumps(o["path"], sort_keys=True)), []).append(o)
            else:
                undecided.append(dict(contract=c, obligation=o["name"], backend=o["backend"], path=o["path"]))
        seen = {}
        for (nm, _), os_ in groups.items():
            seen[nm] = seen.get(nm, 0) + 1
            if seen[nm] > 4:
                continue
            o = os_[0]
            requests.append(dict(contract=c, given=given_of(o)))
            slots.append((r, o))
        if r["unsupported"] or r["budget"]:
            bounded[c] = (r["unsupported"] + (["time budget"] if r["budget"] else []))[:3]
        if r["known"]:
            bounded.pop(c, None)
    hits = []
    if requests:
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(requests[:24], f)
        p = subprocess.run([VENV, os.path.join(HERE, "dv", "conc.py"), prop, "--seed", str(seed), "--requests", f.name],
                           env=env(), capture_output=True, text=True)
        os.unlink(f.name)
        try:
            hits = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            hits = []
    hits += [None] * (len(slots) - len(hits))
    for (r, o), h in zip(slots, hits):
        kept = (h or {}).get("kept")
        if kept is not None:
            h = None
        if h is None and kept and o["name"].startswith("defined: "):
            # the real code keeps the contract at the counterexample: an undefined value it does not use
            undecided.append(dict(contract=r["contract"], obligation=o["name"], path=o["path"],
                                  backend="the real code keeps the contract at the counterexample"))
            continue
        rigid = bool((o.get("model") or {}).get("_rigid"))
        kn = r["known"]
        if kn and kn in kf and kf[kn][0] == prop and kf[kn][1] == r["contract"]:
            findings.add(kn)
            continue
        if h is None and (rigid or r["name_conc"] if "name_conc" in r else rigid):
            undecided.append(dict(contract=r["contract"], obligation=o["name"], backend="refutation rests on assumed values",
                                  path=o["path"]))
            continue
        violations.append(dict(contract=r["contract"], obligation=o["name"], note=o.get("note"), backend=o["backend"],
                               model=o.get("model"), path=o["path"], confirmed=h, subjects=r["subjects"]))
    # ---------------------------------------------------------- concrete
    csum = dict(trials=0, distinct=0, checks=0)
    cerrors = []
    samples = []
    for c, r in C["results"].items():
        for k in csum:
            csum[k] += r[k]
        cerrors += [f"{c}: {x}" for x in r["errors"]]
        if r["sample"]:
            samples.append({c: r["sample"]})
        if r["fails"]:
            R_ = [x for x in R if x["contract"] == c]
            kn = R_[0]["known"] if R_ else None
            if kn and kn in kf and kf[kn][0] == prop and kf[kn][1] == c:
                findings.add(kn)
                continue
            f = r["fails"][0]
            if any(v["contract"] == c and v["confirmed"] for v in violations):
                continue
            h = dict(used=f["used"], fails=f["fails"], seed=f["seed"], given=None)
            prev = [v for v in violations if v["contract"] == c]
            if prev:
                prev[0]["confirmed"] = h
            else:
                violations.append(dict(contract=c, obligation=f["fails"][0][0], note=f["fails"][0][1],
                                       backend="bounded run on the real code", model=None, path=f["used"]["choices"],
                                       confirmed=h, subjects=R_[0]["subjects"] if R_ else []))
    # one line per contract is enough; confirmed ones first
    violations.sort(key=lambda v: (v["confirmed"] is None,))
    shown, k = {}, 0
    for v in violations:
        if v["contract"] in shown:
            continue
        k += 1
        h = v["confirmed"]
        data = dict(property=prop, contract=v["contract"], functions=v["subjects"], failed_obligation=v["obligation"],
                    verifier=dict(backend=v["backend"], counterexample=v["model"], path=v["path"], note=v["note"]))
        if h:
            data.update(seed=h["seed"], given=h["given"], inputs=h["used"], observed=h["fails"],
                        how=f"cd /verif && python3-vt check.py {prop} replay <this file>")
        p = write_replay(prop, k, data)
        shown[v["contract"]] = p
        print(f"failed obligation {prop}/{v['contract']}: {v['obligation']}"
              + (f" ({v['note']})" if v["note"] else ""))
        if h:
            print(f"  on the real code: {h['fails'][0][0]}: {str(h['fails'][0][1])[:300]}")
        print(f"VIOLATION property={prop} replay={p}" + ("" if h else " no-failing-input-found"))
    for f in sorted(findings):
        print(f"KNOWN-FINDING: property={prop} {kf[f][2]}")
    # ---------------------------------------------------------- evidence
    cover = {}
    for r in R:
        for path, fn, line in r["cover"]:
            if "<module>" not in fn:
                cover.setdefault(f"{path}:{fn}", set()).add(r["contract"])
    funcs = sorted({s for r in R for s in r["subjects"]})
    solver = {}
    for r in R:
        for a, b in r["stats"].items():
            solver[a] = solver.get(a, 0) + b
    assumed = sorted({a for r in R for a in r["assumed"]})
    undecided_c = {}
    for u in undecided:
        undecided_c.setdefault(u["contract"], []).append(f"{u['obligation']} ({u['backend']})")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=nobl, discharged=ndis,
            checker_cmd=f"python3-vt check.py {prop} {tier}",
            trusted_base=TRUSTED,
            functions_under_contract=funcs,
            functions_executed_symbolically=sorted(cover),
            named_obligations={f"{c}/{n}": f"{b}/{a}" for (c, n), (a, b) in sorted(names.items())},
            paths=sum(r["paths"] for r in R), infeasible_paths=sum(r["aborted"] for r in R),
            definedness_conditions_discharged=sum(r["defined"] for r in R),
            back_ends=by_backend, solver_calls_and_seconds={a: round(b, 3) for a, b in solver.items()},
            undecided_by_verifier_bounded_instead={c: v[:4] for c, v in undecided_c.items()},
            outside_verifier_bounded_instead=bounded,
            bounded_only_contracts=[r["contract"] for r in R if not r["sym"]],
            bounded_runs_on_real_code=dict(csum, seconds=round(C["secs"], 1), samples=samples[:3],
                                           note="seeded random and edge inputs; not counted as proved"),
            skipped_contracts={r["contract"]: "no such name: " + r["missing"] for r in R if r["missing"]},
            loop_invariants={r["contract"]: r["loop_inv"] for r in R if r["loop_inv"]},
            known_findings=sorted(findings),
            harness_errors=cerrors[:5] + ([cerr] if cerr else []) + ([crash] if crash else []),
        ),
        assumptions=ASSUME + ["definedness assumed on the explored path: " + a for a in assumed][:20],
        wall_s=round(time.time() - t0, 2), violations=len(shown))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {ndis}/{nobl} obligations discharged on {ev['coverage']['paths']} paths; "
          f"{len(undecided)} undecided, {len(bounded)} contracts partly outside the verifier; "
          f"{csum['trials']} bounded runs; {ev['wall_s']} s")
    for u in list(undecided_c.items())[:6]:
        print("  undecided:", u[0], u[1][:3])
    for u in list(bounded.items())[:6]:
        print("  bounded:", u)
    for u in ev["coverage"]["harness_errors"]:
        print("  harness:", u)
    return 1 if shown else 0


TRUSTED = [
    "CPython executing the source of /repo; the mechanical rewrite of dv/loader.py (float literals to exact decimals, "
    "/ and ** through helpers, while loops cut by invariants)",
    "dv/terms.py normaliser and differentiation, z3 5.3.2, cvc5",
    "dv/models.py: assumed contracts of numpy, scipy (solve_ivp, interpolators, quad, root_scalar), math, files",
]
ASSUME = [
    "machine arithmetic treated as real arithmetic (decimal literals exact)",
    "solve_ivp: the dense output solves y' = fun(t, y) from y0; status 1 means exactly one terminal event with one location",
    "PchipInterpolator and CubicSpline interpolate their tables and derivative()/antiderivative() are exact",
    "quad returns the integral; root_scalar with converged=True returns a root inside its bracket",
    "arrays are processed element by element (the operations met have that contract); the generic element stands for all",
]

if __name__ == "__main__":
    sys.exit(main())
