#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property on /repo's current tree.

1. exports the SSA of the current source (gossa) and runs the verification units of the property
2. runs the property's replay harness against the real code: inputs from the solver's models of failed
   obligations, fixed corner cases and inputs drawn from VERIF_SEED, judged by independent oracles
Exit 0: every obligation was discharged and no failing input found.  Exit 1 with a VIOLATION line otherwise."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/fivebinaries/go-cardano-serialization"
EXTRA = "encoding/hex,bytes,strings,encoding/binary,unicode/utf8,math/bits,errors"


def go_env():
    e = dict(os.environ)
    e.update({"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GONOSUMDB": "*", "GOWORK": "off"})
    try:
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env"], capture_output=True, text=True, timeout=20).stdout
        for l in o.splitlines():
            k, _, v = l.partition("=")
            if k.startswith("GO") or k in ("PATH", "HOME"):
                e[k] = v
    except Exception:
        pass
    e["GOFLAGS"] = "-mod=mod"
    return e


def build_gossa():
    b = os.path.join(HERE, "gossa", "bin", "gossa")
    src = os.path.join(HERE, "gossa", "main.go")
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        tmp = b + ".%d" % os.getpid()
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(HERE, "gossa"), env=go_env(), capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("cannot build gossa: " + r.stderr)
        os.replace(tmp, b)
    return b


def export_ssa(out=None):
    b = build_gossa()
    out = out or os.path.join(tempfile.gettempdir(), "verif_ssa_%d.json" % os.getpid())
    e = go_env()
    # the export must not touch /repo's go.mod and go.sum
    d = tempfile.mkdtemp(prefix="verif_mod_")
    try:
        for f in ("go.mod", "go.sum"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), d)
        e["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(d, "go.mod")
        r = subprocess.run([b, "-dir", REPO, "-extra", EXTRA, "-o", out], env=e, capture_output=True, text=True, timeout=300)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r.returncode:
        raise SystemExit("cannot export the SSA of %s: %s" % (REPO, r.stderr[-2000:]))
    return out


def run_harness(prop, hints, tier, seed, tmp):
    """-> (status ok|failed|broken|none, failures, stats, output)"""
    area = None
    for a in sorted(os.listdir(os.path.join(HERE, "harness"))):
        d = os.path.join(HERE, "harness", a)
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.endswith("_test.go") and re.search(r"func Test%s\(" % prop, open(os.path.join(d, f)).read()):
                    area = a
    if area is None:
        return "none", [], {}, ""
    d = os.path.join(HERE, "harness", area)
    rep = {}
    for f in os.listdir(d):
        if f.endswith(".go"):
            rep["%s/zzverif/%s/%s" % (REPO, area, f)] = os.path.join(d, f)
    for f in os.listdir(os.path.join(HERE, "harness")):
        if f.endswith(".go"):
            rep["%s/zzverif/vh/%s" % (REPO, f)] = os.path.join(HERE, "harness", f)
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    hf = os.path.join(tmp, "hints.json")
    json.dump(hints, open(hf, "w"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), tmp)
    e = go_env()
    e["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(tmp, "go.mod")
    e.update({"VERIF_HINTS": hf, "VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_TMP": tmp, "TMPDIR": tmp})
    binf = os.path.join(tmp, "h.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", binf, "./zzverif/" + area], cwd=REPO, env=e,
                       capture_output=True, text=True, timeout=400)
    if r.returncode or not os.path.exists(binf):
        return "broken", [], {}, r.stdout[-1500:] + r.stderr[-3000:]
    lim = 240 if tier == "quick" else 700
    try:
        r = subprocess.run([binf, "-test.run", "^Test%s$" % prop, "-test.timeout", "%ds" % lim], cwd=tmp, env=e, capture_output=True,
                           timeout=lim + 60)
        o = r.stdout.decode("utf-8", "replace") + r.stderr.decode("utf-8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as x:
        o, rc = "harness did not end", 1
    fails, stats = [], {}
    for l in o.splitlines():
        if l.startswith("REPLAY "):
            try:
                fails.append(json.loads(l[7:]))
            except ValueError:
                fails.append({"raw": l})
        elif l.startswith("STATS "):
            try:
                stats = json.loads(l[6:])
            except ValueError:
                pass
    if rc != 0 and not fails:
        m = re.search(r"panic: (.*)", o)
        cur = re.findall(r"^INPUT (.*)$", o, re.M)
        fails.append({"what": "the code did not return normally: " + (m.group(1)[:300] if m else o[-600:]), "input": cur[-1] if cur else None})
    return ("failed" if fails else "ok"), fails, stats, o[-4000:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from engine import runner
    from engine.ssa import Program
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        ssa = export_ssa(os.path.join(tmp, "ssa.json"))
        prog = Program(ssa)
        os.mkdir(os.path.join(tmp, "h1"))
        os.mkdir(os.path.join(tmp, "h2"))
        hs, hf, stats, hout = run_harness(prop, [], tier, seed, os.path.join(tmp, "h1"))
        if hs == "failed":      # decided; the proof is still attempted, to name the failed obligations
            limit, total = 150, 200
        else:
            limit, total = (380, 500) if tier == "quick" else (1500, 3000)
        v = runner.verify(prog, prop=prop, limit=limit, total=total)
        hints = []
        for r in v["reports"]:
            for f in r["failures"]:
                if f.get("inputs"):
                    hints.append({"unit": r["unit"], "obligation": f["obligation"], "inputs": f["inputs"]})
        if hints and hs == "ok":
            hs2, hf2, st2, hout2 = run_harness(prop, hints, tier, seed, os.path.join(tmp, "h2"))
            if hs2 == "failed":
                hs, hf, hout = hs2, hf2, hout2
        report(prop, tier, seed, t0, prog, v, hs, hf, stats, hout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, tier, seed, t0, prog, v, hs, hf, stats, hout):
    reps = v["reports"]
    bad = v["bad"]
    obl = sum(r["obligations"] for r in reps)
    dis = sum(r["discharged"] for r in reps)
    main = set(v["main"])
    by = {}
    for r in reps:
        for k, n in r["by"].items():
            by[k] = by.get(k, 0) + n
    funcs = sorted({f for r in reps for f in r["funcs"]})
    inl = sorted({f for r in reps for f in r["inlined"]} - set(funcs))
    assumed = sorted({a for r in reps for a in r["assumed"]})
    failed_units = sorted({r["unit"] for r in bad})
    nfail = 1 if (bad or hs == "failed") else 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": obl, "discharged": dis if not bad else min(dis, obl - 1 if obl else 0),
              "checker_cmd": "python3-vt check.py %s (own VC generator over go/ssa; z3 %s, cvc5 as second back end)" % (prop, z3ver()),
              "trusted_base": ["engine/ (symbolic interpreter and VC generation)", "gossa/ and golang.org/x/tools/go/ssa", "z3, cvc5"],
              "units": [{k: r[k] for k in ("unit", "part", "status", "obligations", "discharged", "queries", "solver_s", "wall_s")}
                        | ({"message": r["msg"]} if r["msg"] else {}) for r in reps],
              "functions_under_contract": funcs, "functions_inlined_in_proofs": inl,
              "contracts_used_at_call_sites": sorted({c for r in reps for c in r["contracts"]}),
              "contracts_not_used": v["demoted"],
              "solver_queries": by, "solver_seconds": round(sum(r["solver_s"] for r in reps), 1),
              "loop_invariants": sorted({l for r in reps for l in r["loops"]}),
              "vacuity": "every unit asserts that some path of the function under contract is feasible under its precondition",
              "replay_harness": {"status": hs, **stats},
              "evaluations": int(stats.get("evaluations", 0)), "distinct_nontrivial": int(stats.get("distinct", 0)),
              "rule": "replay harness: inputs from failed obligations, corner cases and seeded random inputs on the real code, judged by "
                      "independent oracles; distinct by hash of the input",
          },
          "assumptions": assumed, "wall_s": round(time.time() - t0, 2), "violations": nfail}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    known(prop)
    if not main:
        print("no unit decides %s" % prop)
        sys.exit(2)
    if nfail:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", prop + ".json")
        doc = {"property": prop, "failed_units": [{"unit": r["unit"], "part": r["part"], "status": r["status"], "message": r["msg"],
                                                   "failed_obligations": r["failures"]} for r in bad],
               "failing_inputs": hf, "harness_output": hout if hs == "failed" else "",
               "rerun": "python3-vt %s/check.py %s" % (HERE, prop)}
        json.dump(doc, open(rp, "w"), indent=1, default=str)
        for r in bad[:6]:
            print("undischarged: unit %s%s: %s %s" % (r["unit"], "" if r["part"] is None else "#%d" % r["part"], r["msg"],
                                                      "; ".join(f["obligation"] for f in r["failures"][:4])))
        for f in hf[:5]:
            print("failing input: %s" % json.dumps(f)[:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if hs == "failed" else " no-failing-input-found"))
        sys.exit(1)
    print("%s holds: %d obligations in %d units discharged, harness %s (%s evaluations), %.1f s" % (
        prop, dis, len(reps), hs, stats.get("evaluations", 0), time.time() - t0))
    if hs == "broken":
        print("note: the replay harness does not build against this tree:\n" + hout[-1500:])
    sys.exit(0)


def z3ver():
    import z3
    return z3.get_version_string()


def known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("known: "):].strip())


if __name__ == "__main__":
    main()
