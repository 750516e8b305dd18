"""Histories of carbon cycle objects (spec/CarbonGen.tla), judged by spec/CarbonTrace.tla: part of C09, C10 and C11."""
import json
import multiprocessing as mp
import os
import re
import traceback

import numpy as np

import record
import scen
import vlib
from vlib import params, reals

CLASSES = ["none", "empty", "one", "few", "all", "odd", "edge", "zero", "zero1"]
RESP = ["rs", "rb", "both", "flat", "gap"]
POOLS = dict(veg="vegetation_carbon", soil="soil_carbon", mixed="ocean_mixed_layer_carbon", deep="ocean_deep_carbon")


def histories(box, n, depth, want, scratch, seed):
    path = os.path.join(scratch, f"cgen{seed}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(dict(n=n, max=depth, labels=CLASSES + ([] if box else RESP), box=box), f)
    r = vlib.tlc("CarbonGen", scratch, env=dict(DOM=path), workers=1,
                 args=["-simulate", f"num={20 * want}", "-depth", str(depth + 2), "-seed", str(seed)])
    cand = {ln: vlib.tla_value(ln)[1] for ln in r["lines"] if ln.startswith('<<"HIST"')}
    cand = [cand[x] for x in sorted(cand)]

    def feats(h):
        return {(json.dumps(a), json.dumps(b)) for a, b in zip(h, h[1:])} | {(json.dumps(a), "") for a in h}

    fs = [feats(h) for h in cand]
    out, covered, left = [], set(), set(range(len(cand)))
    while left and len(out) < want:
        best = max(left, key=lambda j: (len(fs[j] - covered), -j))
        out.append(cand[best])
        covered |= fs[best]
        left.discard(best)
    return out


def given(rng, kind, label):
    if label in RESP:
        p = {}
        for w in ("rs", "rb"):
            if label == w or label == "both":
                p[w + "_function"] = scen.response(rng, w)
            elif label in ("flat", "gap"):
                p.update(scen.flat_response(rng, w, label == "gap"))
        return p
    return scen.pick(rng, scen.RANGES[kind], label)


def run_job(job):
    try:
        return _run(job)
    except Exception:  # noqa
        return dict(id=job["id"], harness=traceback.format_exc())


def _run(job):
    from ciceroscm.component_factory_functions import create_carbon_cycle_model

    rng = np.random.default_rng(job["seed"])
    kind, n, idtm, y0 = job["kind"], job["n"], job["idtm"], job["y0"]
    trace = dict(id=job["id"], kind=kind, n=n, idtm=idtm, ops=[])
    model, done, conc, temps = None, 0, [], []

    def path():
        """emissions and temperatures of n years"""
        shape = rng.choice(["up", "down", "noise", "strong", "hump"])
        x = np.linspace(0, 1, n)
        e = {"up": 2 + 10 * x, "down": 3 - 7 * x, "noise": rng.normal(2, 3, n), "strong": 5 + 60 * x,
             "hump": 12 * np.cos(4 * x)}[shape] + rng.normal(0, 0.2, n)
        t = rng.uniform(-0.5, 5) * x + rng.normal(0, 0.1, n)
        return e, t

    em, temp = path()
    stop = False
    for o in job["ops"]:
        if stop:
            break
        rec = dict(op=o["op"])
        trace["ops"].append(rec)
        try:
            if o["op"] == "new":
                p = given(rng, kind, o["p"])
                rec["p"] = params(p)
                model = create_carbon_cycle_model("box" if kind == "box" else "default",
                                                  dict(nystart=y0, nyend=y0 + n - 1, idtm=idtm, emstart=y0), p)
                done, conc, temps = 0, [], []
            elif o["op"] == "reset":
                p = given(rng, kind, o["p"])
                rec["p"] = params(p)
                model.reset_co2_hold(p)
                done, conc, temps = 0, [], []
                em, temp = path()
            elif o["op"] == "years":
                e = em[done : done + o["m"]]
                t = temp[done : done + o["m"]] if o["temp"] == "given" else np.zeros(len(e))
                x, pools = [], {k: [] for k in POOLS}
                for i in range(len(e)):
                    fb = {"dtemp": t[i]} if o["temp"] == "given" else None
                    x.append(float(model.co2em2conc(y0 + done + i, float(e[i]), feedback_dict=fb)))
                    for k, a in POOLS.items():
                        pools[k].append(getattr(model, a, None))
                    if not x[-1] > 1:
                        # no carbon left in the atmosphere: outside what the model is about
                        stop = True
                        break
                e, t = e[: len(x)], t[: len(x)]
                rec.update(em=reals(e), t=reals(t), x=reals(x))
                if kind == "box" and all(isinstance(v, (int, float, np.number)) for q in pools.values() for v in q):
                    rec["pools"] = {k: reals(v) for k, v in pools.items()}
                done += len(e)
                conc += x
                temps += list(t)
            elif o["op"] == "back":
                pre = float(model.get_preindustrial_co2_conc())
                c = pre * np.exp(np.cumsum(np.abs(rng.normal(0.004, 0.004, n)) * rng.choice([1, 1, -0.7])))
                t = np.linspace(0, rng.uniform(0, 3), n) if o["temp"] == "given" else np.zeros(n)
                fb = {"dtemp": t.copy()} if o["temp"] == "given" else None
                rec.update(c=reals(c), t=reals(t))
                if o["out"]:
                    df = model.get_carbon_cycle_output(np.arange(y0, y0 + n), conc_run=True, conc_series=c.copy(), feedback_dict_series=fb)
                    rec.update(e=reals(df["Emissions"]), tab=table(df))
                else:
                    rec["e"] = reals(model.back_calculate_emissions(c.copy(), feedback_dict_series=fb))
            else:
                t = np.array(temps)
                c = np.array(conc)
                df = model.get_carbon_cycle_output(np.arange(y0, y0 + n), conc_run=False, conc_series=c.copy(), feedback_dict_series={"dtemp": t.copy()})
                rec.update(c=reals(c), t=reals(t), tab=table(df))
        except Exception:  # noqa
            rec["exc"] = traceback.format_exc()[-600:]
            break
    return trace


def table(df):
    names = {"Biosphere carbon flux": "land", "Ocean carbon flux": "ocean", "Mixed layer depth": "depth", "CO2 solubility": "sol",
             "Net Primary Production": "npp", "Net primary production": "npp"}
    return {names[c]: reals(np.broadcast_to(df[c].to_numpy(), len(df))) for c in df.columns if c in names}


def check(chk, scratch, kinds, pattern, quick, thorough):
    want = quick if vlib.TIER != "thorough" else thorough
    jobs = []
    for ki, kind in enumerate(kinds):
        for ni, (n, idtm) in enumerate([(6, 24), (11, 12), (18, 6)] if kind == "joos" else [(6, 24), (20, 24), (60, 24)]):
            seed = 1000 * vlib.SEED + 10 * ki + ni + 600
            for i, h in enumerate(histories(kind == "box", n, 9, max(4, want // (3 * len(kinds))), scratch, seed)):
                jobs.append(dict(id=f"carbon/{kind}{ni}/{i}", kind=kind, n=n, idtm=idtm, y0=[1750, 1850, 2000][i % 3], ops=h,
                                 seed=[vlib.SEED, 600 + ki, ni, i]))
    for j in jobs[:1]:
        chk.sample(j, limit=6)
    for b in range(0, len(jobs), 160):
        part = jobs[b : b + 160]
        with mp.get_context("fork").Pool(8) as pool:
            traces = pool.map(run_job, part, chunksize=2)
        for t in traces:
            if "harness" in t:
                raise RuntimeError(f"harness fault in {t['id']}: {t['harness']}")
        p = os.path.join(scratch, f"ctr{b}.json")
        with open(p, "w", encoding="utf8") as f:
            json.dump(dict(traces=traces), f)
        r = vlib.tlc("CarbonTrace", scratch, env=dict(TRACES=p), timeout=3000)
        os.remove(p)
        chk.add_tlc(r)
        chk.cov["traces_validated_against_impl"] += len(part)
        chk.cov["carbon_histories"] = chk.cov.get("carbon_histories", 0) + len(part)
        byid = {j["id"]: j for j in part}
        ended = set()
        for ln in r["lines"]:
            v = vlib.tla_value(ln)
            ended.add(v[1])
            if v[0] == "FAIL" and re.match(pattern, v[2]):
                chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], byid[v[1]])
        missing = [j["id"] for j in part if j["id"] not in ended]
        if missing:
            raise vlib.TlcError(f"CarbonTrace: no verdict on {missing[:3]}")
