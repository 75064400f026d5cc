"""One check: model-check the specification, generate scripts from it, run the
real code, validate the recorded executions against the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import tlc
from registry import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


class Machinery(Exception):
    """The check itself is broken; nothing is said about the code."""


def run_driver(prop, tier, seed, scripts, scratch):
    out = os.path.join(scratch, "traces.ndjson")
    work = os.path.join(scratch, "work")
    os.makedirs(work)
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.path.join(VERIF, "harness") + ":" + REPO_SRC,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED=str(seed % 4294967295), PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", VERIF_REPO_SRC=REPO_SRC, TMPDIR=work, HOME=work,
    )
    cmd = [PY, "-W", "ignore", os.path.join(VERIF, "harness", "driver.py"), prop,
           "--out", out, "--scratch", work, "--tier", tier, "--seed", str(seed)]
    if scripts is not None:
        sp = os.path.join(scratch, "scripts.json")
        with open(sp, "w", encoding="utf-8") as f:
            json.dump(scripts, f)
        cmd += ["--scripts", sp]
    log = os.path.join(scratch, "driver.log")
    limit = 420 if tier == "quick" else 7200
    with open(log, "w", encoding="utf-8") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, cwd=work,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:  # worker processes a broken run may have left behind
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    traces, open_id, ended = [], None, False
    if os.path.exists(out):
        with open(out, encoding="utf-8") as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" in d:
                    open_id = d["begin"]
                elif "end" in d:
                    ended = True
                else:
                    traces.append(d)
                    open_id = None
    if not ended:
        with open(log, encoding="utf-8", errors="replace") as f:
            tail = f.read()[-1500:]
        if open_id is not None:
            traces.append({"id": open_id, "ev": [],
                           "crash": f"the process ended (rc={rc}) during this case"})
        elif rc == 3 or "registry" in tail:
            raise Machinery("driver: " + tail)
        else:
            # e.g. the package can no longer be imported
            traces.append({"id": f"{prop}-driver", "ev": [],
                           "crash": f"the driver could not run (rc={rc}): {tail[-700:]}"})
    return traces


def validate(module, traces, scratch, jobs=3, timeout=1500):
    """({trace id: verdict}, generated, distinct)."""
    verdicts, stats = {}, [0, 0]

    def one(chunk, depth=0):
        if not chunk:
            return
        h = hashlib.sha1(",".join(t["id"] for t in chunk).encode()).hexdigest()[:10]
        path = os.path.join(scratch, f"batch.{h}.{depth}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(chunk, f)
        r = tlc.run(module, env={"TRACE_FILE": path}, workers=1, timeout=timeout)
        os.remove(path)
        stats[0] += r.generated
        stats[1] += r.distinct
        for v in r.lines["VERDICT"]:
            verdicts[v["id"]] = v
        if r.finished:
            return
        if r.rc == -1 or "OutOfMemory" in r.out or "Could not find or load" in r.out:
            raise Machinery(f"TLC on {module}: {r.error_text()}")
        rest = [t for t in chunk if t["id"] not in verdicts]
        if not rest:
            raise Machinery(f"TLC on {module} ended badly: {r.error_text()}")
        if len(rest) == 1 and len(chunk) == 1:
            # the recorded values are outside of what the specification can
            # even compare: not an execution of the specified system
            verdicts[rest[0]["id"]] = {"id": rest[0]["id"], "ok": False, "pos": 0,
                                       "bad": ["WellFormed: " + r.error_text()[:400]]}
            return
        if sum(1 for v in list(verdicts.values())
               if not v["ok"] and not v["id"].startswith("canary")) >= 5:
            return  # enough found
        mid = (len(rest) + 1) // 2
        one(rest[:mid], depth + 1)
        one(rest[mid:], depth + 1)

    # balance the chunks by size
    order = sorted(traces, key=lambda t: -len(json.dumps(t)))
    chunks = [order[i::jobs] for i in range(jobs)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(one, c) for c in chunks if c]:
            f.result()
    return verdicts, stats[0], stats[1]


def run_model(job, tier):
    """job: dict(module, cfg, expect): model-check a design module."""
    cfg = job["cfg"]
    if tier == "thorough" and job.get("deep"):
        cfg = job["deep"]
    r = tlc.run(job["module"], cfg, workers=2 if tier == "quick" else 4,
                timeout=300 if tier == "quick" else 6000,
                heap="3g" if tier == "quick" else "8g")
    expect = job.get("expect", "holds")
    if expect == "holds" and not r.finished:
        raise Machinery(f"model {job['module']}/{cfg}: {r.error_text()}")
    if expect != "holds" and not (r.violated and not r.finished):
        raise Machinery(f"model {job['module']}/{cfg} should have a counterexample: {r.error_text()}")
    return {"model": job["module"], "config": cfg, "outcome": expect,
            "generated": r.generated, "distinct": r.distinct}


def canaries(module):
    p = os.path.join(VERIF, "spec", "canary", module + ".json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return json.load(f)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop]


def check(prop, tier, seed):
    t0 = time.time()
    conf = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix=f"verif.{prop}.")
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            models = [ex.submit(run_model, j, tier) for j in conf.get("models", [])
                      if tier == "thorough" or not j.get("thorough_only")]

            scripts, sstat = None, None
            if conf.get("scripts"):
                j = conf["scripts"]
                cfg = j["deep"] if tier == "thorough" and j.get("deep") else j["cfg"]
                r = tlc.run(j["module"], cfg, workers=1, timeout=1500)
                if not r.finished:
                    raise Machinery(f"scripts from {j['module']}/{cfg}: {r.error_text()}")
                scripts = r.lines["SCRIPT"]
                if not scripts:
                    raise Machinery(f"no scripts from {j['module']}/{cfg}")
                sstat = {"model": j["module"], "config": cfg, "outcome": "scripts",
                         "generated": r.generated, "distinct": r.distinct,
                         "scripts": len(scripts)}
            traces = run_driver(prop, tier, seed, scripts, scratch)
            crashed = {t["id"]: t for t in traces if t["crash"]}
            sound = [t for t in traces if not t["crash"]]
            cans = canaries(conf["trace"])
            verdicts, gen, dist = validate(conf["trace"], sound + [c["trace"] for c in cans],
                                           scratch, jobs=conf.get("jobs", 3))
            mstats = [m.result() for m in models]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if sstat:
        mstats.append(sstat)
    for c in cans:
        v = verdicts.pop(c["trace"]["id"], None)
        if v is None:
            if any(not w["ok"] for w in verdicts.values()):
                continue  # judging stopped early, with rejections in hand
            raise Machinery(f"no verdict on the control trace {c['trace']['id']}")
        if v["ok"] != c["ok"]:
            raise Machinery(f"control trace {c['trace']['id']}: verdict {v}")

    known = load_known(prop)
    bad, shown = [], set()
    for t in traces:
        if t["id"] in crashed:
            v = {"id": t["id"], "ok": False, "pos": 0, "bad": ["CallCompletes: " + t["crash"]]}
        else:
            v = verdicts.get(t["id"])
        if v is None or v["ok"]:
            continue
        hit = next((k for k in known if k["key"] == t.get("key")), None)
        if hit:
            if hit["key"] not in shown:
                shown.add(hit["key"])
                print(f"KNOWN-FINDING: property={prop} {hit['what']}")
            continue
        bad.append((t, v))
    if not traces:
        raise Machinery("no executions recorded")

    accepted = sum(1 for t in sound if verdicts.get(t["id"], {}).get("ok"))
    nev = sum(len(t["ev"]) for t in sound)
    ops = {}
    for t in sound:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    kinds = {}
    for t in traces:
        k = t["id"].split("-", 2)[-1].rstrip("0123456789").rstrip("-.")
        kinds[k] = kinds.get(k, 0) + 1
    sample = sorted(sound, key=lambda t: abs(len(json.dumps(t)) - 1200))[:2]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": dist + sum(m["distinct"] for m in mstats),
            "transitions": gen + sum(m["generated"] for m in mstats),
            "traces_validated_against_impl": accepted,
            "traces_recorded": len(traces),
            "events_checked": nev,
            "events_by_kind": ops,
            "traces_by_kind": kinds,
            "models": mstats,
            "control_traces": len(cans),
            "samples": [{**t, "ev": t["ev"][:6]} for t in sample],
            "explanation": conf["what"],
        },
        "assumptions": conf.get("assumes", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
    for t, v in bad[:5]:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{t['id']}.json".replace("/", "_"))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "module": conf["trace"], "verdict": v,
                       "seed": seed, "trace": t}, f, indent=1)
        print(f"  {v['id']}: event {v['pos']} breaks {', '.join(map(str, v['bad']))}")
        print(f"VIOLATION property={prop} replay={path}")
    if not bad:
        print(f"OK {prop}: {accepted} executions accepted by {conf['trace']}, "
              f"{evidence['coverage']['states']} specification states, "
              f"{evidence['wall_s']} s")
    return 1 if bad else 0
