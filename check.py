#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

Runs the solver jobs of the property (tools/jobs.py) with gosym, the symbolic executor in gosym/, and
replays every counterexample on the real code before reporting it.  Exit 0 or 1 (see MANIFEST.json)."""
import json, os, subprocess, sys, time, tempfile, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/tools")
import jobs as J
import replay

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def build_gosym(work):
    b = HERE + "/build/gosym"
    src = [os.path.join(HERE, "gosym", f) for f in os.listdir(HERE + "/gosym") if f.endswith(".go")]
    if os.path.exists(b) and all(os.path.getmtime(b) >= os.path.getmtime(f) for f in src):
        return b
    b = os.path.join(work, "gosym")
    p = subprocess.run(["go", "build", "-mod=vendor", "-o", b, "."], cwd=HERE + "/gosym", env=replay.env(), capture_output=True, text=True)
    if p.returncode != 0:
        print(p.stderr[-2000:])
        return None
    return b


def run_job(gosym, work, i, j, deadline):
    out = os.path.join(work, "job%d.json" % i)
    left = deadline - time.time()
    wall = min(j.get("wall", 120), left)
    rec = dict(j)
    rec.pop("ops", None)
    if wall < 3:
        rec.update(status="unknown", msg="not run: out of time")
        return rec
    cmd = [gosym, "-repo", REPO, "-harness", HERE + "/harness", "-fn", j["fn"], "-tag", "" if j["tag"] == "hudd" else j["tag"],
           "-param", ",".join("%s=%d" % kv for kv in j.get("params", {}).items()), "-out", out,
           "-timeout", str(int(j.get("timeout", 60) * 1000)), "-maxiter", str(j.get("maxiter", 100))]
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=replay.env(), start_new_session=True)
        try:
            _, err = p.communicate(timeout=wall)
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        r = json.load(open(out))
    except subprocess.TimeoutExpired:
        r = {"status": "unknown", "msg": "no answer in %.0f s" % wall}
    except Exception as e:
        r = {"status": "unknown", "msg": "the encoder stopped: %s" % e}
    rec.update(r)
    rec["secs"] = round(time.time() - t, 2)
    return rec


def name(j):
    p = ",".join("%s=%d" % kv for kv in sorted(j.get("params", {}).items()))
    return "%s[%s%s]" % (j["fn"], j["tag"], "," + p if p else "")


def known_findings(prop):
    out = []
    f = HERE + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def confirm(prop, j, r, native, work, n):
    """Replays the counterexamples of one violated job. Returns (replay file or None, note)."""
    notes = []
    rp = os.path.join(HERE, "evidence", "replay_%s_%d.json" % (prop, n))
    if j.get("kind") == "direct":
        for f in r["fails"]:
            if f["kind"] == "vacuous":
                continue
            res, msg = native.harness(j["tag"], j["fn"], f["model"], j.get("params", {}))
            if res is None:
                notes.append(msg)
                continue
            if res.get("assume"):
                notes.append("the model does not satisfy the assumptions natively")
                continue
            if res["fails"]:
                json.dump({"property": prop, "tag": j["tag"], "harness": j["fn"], "params": j.get("params", {}), "model": f["model"],
                           "solver": {"msg": f["msg"], "pos": f["pos"]}, "native": res["fails"], "trace": res.get("trace")}, open(rp, "w"), indent=1)
                return rp, res["fails"][0]
            notes.append("the counterexample (%s) does not fail natively" % f["msg"])
        if j.get("race"):
            res, msg = native.stress(j["tag"], 20 if TIER == "quick" else 60)
            if res:
                f = r["fails"][0]
                json.dump({"property": prop, "tag": j["tag"], "harness": j["fn"], "params": j.get("params", {}), "model": f["model"],
                           "solver": {"msg": f["msg"], "pos": f["pos"], "model": f.get("model")}, "native": res}, open(rp, "w"), indent=1)
                return rp, "%s: %s" % (f["msg"], res)
            notes.append("not seen in " + msg)
        if not j.get("ops"):
            return None, "; ".join(notes)
    ops = j["ops"]
    kinds = ["wrong", "nil", "error", "canon"]
    acc = list(ops) + [k + ":" + o for k in kinds for o in ops] + ["panic", "live", "table", "new"]
    budget = 60 if TIER == "quick" else 180
    res, msg = native.driver(j["tag"], {"ops": ops + ["build", "drop"], "accept": acc, "secs": budget, "seed": SEED}, budget + 60)
    if res:
        f = r["fails"][0] if r.get("fails") else {}
        json.dump({"property": prop, "tag": j["tag"], "harness": j["fn"], "params": j.get("params", {}),
                   "solver": {"msg": f.get("msg"), "pos": f.get("pos"), "model": f.get("model"), "trace": f.get("trace")},
                   "native": res}, open(rp, "w"), indent=1)
        return rp, res.get("what", "")
    notes.append("no history of public calls shows it (%s)" % msg)
    return None, "; ".join(notes)


def main():
    prop = sys.argv[1]
    start = time.time()
    spec = J.PROPS[prop]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    limit = 500 if TIER == "quick" else 3000
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 0
    results, confirmed, inconclusive = [], [], []
    tv = {"runs": 0, "agree": 0, "samples": []}
    try:
        gosym = build_gosym(work)
        js = [j for j in spec["jobs"] if TIER == "thorough" or not j.get("thorough")]
        if gosym is None:
            inconclusive.append("gosym does not build")
            js = []
        native = replay.Native(REPO, work)
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "7"))) as ex:
            order = sorted(range(len(js)), key=lambda i: -js[i].get("cost", 5))
            futs = {i: ex.submit(run_job, gosym, work, i, js[i], start + limit) for i in order}
            results = [futs[i].result() for i in range(len(js))]
        # violations: one confirmation per tag and kind is enough
        tried = {}
        for j, r in zip(js, results):
            if r["status"] == "ok":
                continue
            if r["status"] != "violated":
                inconclusive.append("%s: %s %s" % (name(j), r["status"], r.get("msg", "")))
                continue
            if confirmed:
                inconclusive.append("%s: violated, not replayed" % name(j))
                continue
            key = (j["tag"], tuple(j.get("ops") or []))
            if j.get("kind") != "direct" and key in tried:
                inconclusive.append("%s: violated; %s" % (name(j), tried[key]))
                continue
            rp, note = confirm(prop, j, r, native, work, len(confirmed))
            if rp:
                confirmed.append((rp, note, name(j)))
            else:
                tried[key] = note
                inconclusive.append("%s: violated (%s at %s), not reproduced: %s" % (name(j), r["fails"][0]["msg"], r["fails"][0]["pos"], note))
        # validation of the encoder: the witnesses of direct jobs are run natively
        if not confirmed:
            tv = validate(js, results, native)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    evidence(prop, spec, js, results, confirmed, inconclusive, tv, ev, time.time() - start)
    for l in inconclusive:
        print("inconclusive:", l)
    for l in tv.get("disagree", []):
        print("encoder disagrees:", l)
    ok = sum(r["status"] == "ok" for r in results)
    print("%s: %d of %d jobs hold, %d obligations discharged, %.0f s" % (prop, ok, len(results), sum(r.get("discharged", 0) for r in results), time.time() - start))
    for rp, note, n in confirmed:
        print("%s: %s" % (n, note))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    sys.exit(rc)


def validate(js, results, native):
    tv = {"runs": 0, "agree": 0, "samples": [], "disagree": []}
    for j, r in zip(js, results):
        if j.get("kind") != "direct" or j.get("novalidate"):
            continue
        done = 0
        for w in r.get("reaches") or []:
            if w["res"] != "sat" or done >= 2:
                continue
            done += 1
            res, msg = native.harness(j["tag"], j["fn"], w.get("model") or {}, j.get("params", {}))
            tv["runs"] += 1
            if res is None or res.get("assume"):
                tv["disagree"].append("%s witness %s: %s" % (name(j), w["label"], msg or "assumption fails"))
                continue
            bad = [k for k, v in (w.get("trace") or {}).items() if k in res["trace"] and res["trace"][k] != v]
            if res["fails"] or w["label"] not in res["reach"] or bad:
                tv["disagree"].append("%s witness %s: native fails %s, reach %s, trace differs on %s" % (name(j), w["label"], res["fails"], res["reach"], bad))
                continue
            tv["agree"] += 1
            if len(tv["samples"]) < 3:
                m = w.get("model") or {}
                tv["samples"].append({"job": name(j), "witness": w["label"], "model": dict(list(m.items())[:40]), "native_trace": res["trace"]})
    return tv


def evidence(prop, spec, js, results, confirmed, inconclusive, tv, path, wall):
    funcs, stubs = {}, set()
    for r in results:
        for f, n in (r.get("functions") or {}).items():
            funcs[f] = funcs.get(f, 0) + n
        stubs |= set(r.get("stubs") or [])
    samples = list(tv.get("samples", []))
    for r in results:
        if len(samples) >= 4:
            break
        for w in r.get("reaches") or []:
            if w["res"] == "sat":
                m = w.get("model") or {}
                samples.append({"job": r["fn"] + "/" + r["tag"], "witness": w["label"], "model": dict(list(m.items())[:30])})
                break
    cov = {
        "states": sum(r.get("forks", 0) + r.get("merges", 0) for r in results),
        "transitions": sum(r.get("steps", 0) for r in results),
        "traces_validated_against_impl": tv.get("agree", 0),
        "samples": samples[:4],
        "explanation": "states: symbolic states made by forking and merging paths; transitions: SSA instructions executed symbolically; "
                       "obligations: assertions, run-time checks (index, nil, division, conversion) and unwinding conditions given to the solver.",
        "obligations": sum(r.get("obligations", 0) for r in results),
        "discharged": sum(r.get("discharged", 0) for r in results),
        "queries": sum(r.get("queries", 0) for r in results),
        "feasibility_queries": sum(r.get("feasibility_queries", 0) for r in results),
        "solver_s": round(sum(r.get("solver_ms", 0) for r in results) / 1000, 2),
        "functions_encoded": dict(sorted(funcs.items())),
        "replaced_by_contracts": sorted(stubs),
        "bounds": spec.get("bounds", ""),
        "jobs": [{"job": name(j), "status": r["status"], "obligations": r.get("obligations", 0), "discharged": r.get("discharged", 0),
                  "solver_ms": r.get("solver_ms", 0), "secs": r.get("secs", 0), "msg": r.get("msg", ""),
                  "witnesses": {w["label"]: w["res"] for w in r.get("reaches") or []}} for j, r in zip(js, results)],
        "not_decided": inconclusive,
        "encoder_disagreements": tv.get("disagree", []),
    }
    json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
               "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)},
              open(path, "w"), indent=1)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        # the machinery failed: nothing was decided, and nothing is reported
        import traceback
        traceback.print_exc()
        print("inconclusive: the check stopped")
        sys.exit(0)
