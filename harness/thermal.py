"""Histories of thermal models (spec/ThermalGen.tla), judged by spec/ThermalTrace.tla: part of C12, C13 and C14."""
import copy
import json
import multiprocessing as mp
import os
import re
import traceback

import numpy as np

import record  # noqa: puts the code on the path
import scen
import vlib
from vlib import params, real, reals

CLASSES = ["none", "empty", "one", "few", "all", "odd", "edge", "edge1", "zero", "zero1"]
SHAPES = ["none", "small", "jump", "cold", "same", "noise", "north"]
VOLC = ["none", "none", "one", "months", "varied", "north"]


def histories(depth, want, scratch, seed):
    path = os.path.join(scratch, f"tgen{seed}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(dict(max=depth, labels=CLASSES, shapes=SHAPES, volc=VOLC), f)
    r = vlib.tlc("ThermalGen", scratch, env=dict(DOM=path), workers=1,
                 args=["-simulate", f"num={15 * want}", "-depth", str(depth + 2), "-seed", str(seed)])
    cand = {ln: vlib.tla_value(ln)[1] for ln in r["lines"] if ln.startswith('<<"HIST"')}
    cand = [cand[x] for x in sorted(cand)]

    def feats(h):
        f = lambda o: tuple((k, str(o[k])) for k in o if k != "inst")  # noqa: E731
        return {(f(a), f(b), a["inst"] == b["inst"]) for a, b in zip(h, h[1:])} | {f(a) for a in h}

    fs = [feats(h) for h in cand]
    out, covered, left = [], set(), set(range(len(cand)))
    while left and len(out) < want:
        best = max(left, key=lambda j: (len(fs[j] - covered), -j))
        out.append(cand[best])
        covered |= fs[best]
        left.discard(best)
    return out


def forcing(rng, shape, m):
    if shape == "none":
        return np.zeros(m), np.zeros(m)
    if shape == "small":
        a = rng.uniform(-0.3, 0.5, m)
        return a, a + rng.uniform(-0.1, 0.1, m)
    if shape == "jump":
        return np.full(m, rng.uniform(3, 12)), np.full(m, rng.uniform(3, 12))
    if shape == "cold":
        return np.full(m, -rng.uniform(2, 9)), np.full(m, -rng.uniform(1, 5))
    if shape == "same":
        a = rng.uniform(-2, 6, m)
        return a, a.copy()
    if shape == "north":
        return rng.uniform(-3, 6, m), np.zeros(m)
    return rng.normal(0, 4, m), rng.normal(0, 4, m)


def volcanic(rng, shape, m):
    n = 1 if shape == "one" else 12
    if shape == "none":
        return np.zeros((m, 12)), np.zeros((m, 12))
    if shape == "one":
        return -rng.exponential(1, (m, n)), -rng.exponential(1, (m, n))
    if shape == "months":
        a = np.repeat(-rng.exponential(1, (m, 1)), n, axis=1)
        return a, a.copy()
    if shape == "north":
        return -rng.exponential(2, (m, n)), np.zeros((m, n))
    return -rng.exponential(2, (m, n)), -rng.exponential(0.5, (m, n))


def run_job(job):
    try:
        return _run(job)
    except Exception:  # noqa
        return dict(id=job["id"], harness=traceback.format_exc())


def _run(job):
    from ciceroscm.component_factory_functions import create_thermal_model

    rng = np.random.default_rng(job["seed"])
    kind = job["model"]
    cls = create_thermal_model("twolayer" if kind == "twolayer" else "default")
    ranges = scen.RANGES["twolayer" if kind == "twolayer" else "udm"]
    trace = dict(id=job["id"], model=kind, ops=[])
    objs, pars = {}, {}
    for o in job["ops"]:
        i = o["inst"]
        rec = dict(op=o["op"], inst=i)
        trace["ops"].append(rec)
        try:
            if o["op"] == "new":
                other = "b" if i == "a" else "a"
                if o["like"]:
                    p = pars[other]
                else:
                    p = scen.pick(rng, ranges, o["p"])
                    if p is not None and kind != "twolayer" and rng.random() < 0.3:
                        p["lm"], p["ldtime"] = int(rng.choice(scen.INTEGERS["lm"])), int(rng.choice(scen.INTEGERS["ldtime"]))
                    if p is not None and kind != "twolayer" and rng.random() < 0.25:
                        # so little is needed that the upwelling stops or turns
                        p["threstemp"] = float(rng.uniform(0.1, 1.0))
                    if p is not None and o["p"] not in ("zero", "zero1", "empty") and rng.random() < 0.7:
                        p["delta_lambda_aero"] = float(rng.uniform(-0.3, 0.8))
                    if rng.random() < 0.3:
                        # next to no feedback left when aerosols dominate
                        p = dict(p or {}, **{"lambda": 0.5 if kind == "twolayer" else 2.0, "delta_lambda_aero": -0.45})
                pars[i] = p
                rec["p"] = params(copy.deepcopy(p))
                objs[i] = cls(p)
                rec["fb"] = real(objs[i].get_feedback_gregory())
            elif o["op"] == "share":
                w = {"zero": 0.0, "some": float(rng.uniform(0, 1)), "one": 1.0, "back": 0.25}[o["w"]]
                objs[i].set_feedback_gregory(w)
                rec.update(w=real(w), fb=real(objs[i].get_feedback_gregory()))
            else:
                fn, fs = forcing(rng, o["f"], o["m"])
                vn, vs = volcanic(rng, o["v"], o["m"])
                rec.update(fn=reals(fn), fs=reals(fs), vn=[reals(x) for x in vn], vs=[reals(x) for x in vs], out=[])
                names = objs[i].get_output_dict_thermal()
                for y in range(o["m"]):
                    v = objs[i].energy_budget(fn[y], fs[y], vn[y].copy(), vs[y].copy())
                    rec["out"].append({n: real(v[x]) for n, x in names.items()})
        except Exception:  # noqa
            rec["exc"] = traceback.format_exc()[-600:]
            break
    return trace


def check(chk, scratch, model, pattern, quick, thorough):
    want = quick if vlib.TIER != "thorough" else thorough
    jobs = []
    for i, h in enumerate(histories(10, want, scratch, 1000 * vlib.SEED + (700 if model == "twolayer" else 701))):
        jobs.append(dict(id=f"{model}/{i}", model=model, ops=h, seed=[vlib.SEED, 700 + (model == "twolayer"), i]))
    chk.sample(jobs[0], limit=6)
    for b in range(0, len(jobs), 160):
        part = jobs[b : b + 160]
        with mp.get_context("fork").Pool(8) as pool:
            traces = pool.map(run_job, part, chunksize=2)
        for t in traces:
            if "harness" in t:
                raise RuntimeError(f"harness fault in {t['id']}: {t['harness']}")
        p = os.path.join(scratch, f"ttr{model}{b}.json")
        with open(p, "w", encoding="utf8") as f:
            json.dump(dict(traces=traces), f)
        r = vlib.tlc("ThermalTrace", scratch, env=dict(TRACES=p), timeout=3000)
        os.remove(p)
        chk.add_tlc(r)
        chk.cov["traces_validated_against_impl"] += len(part)
        chk.cov["thermal_histories"] = chk.cov.get("thermal_histories", 0) + len(part)
        byid = {j["id"]: j for j in part}
        ended = set()
        for ln in r["lines"]:
            v = vlib.tla_value(ln)
            ended.add(v[1])
            if v[0] == "FAIL" and re.match(pattern, v[2]):
                chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], byid[v[1]])
        missing = [j["id"] for j in part if j["id"] not in ended]
        if missing:
            raise vlib.TlcError(f"ThermalTrace: no verdict on {missing[:3]}")
