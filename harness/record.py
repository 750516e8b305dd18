"""Runs histories on the real code and records what is observable."""
import copy
import logging
import multiprocessing as mp
import os
import pickle
import sys
import traceback
import warnings

import numpy as np
import pandas as pd

import data
import scen
from vlib import params, reals

sys.path.insert(0, os.path.join(data.REPO, "src"))
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def same(a, b):
    """are two input objects equal in content"""
    if isinstance(a, pd.DataFrame):
        return (isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and list(a.index) == list(b.index)
                and all(np.array_equal(a[c].to_numpy(), b[c].to_numpy(), equal_nan=a[c].dtype.kind == "f") for c in a.columns))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a)


def changed(before, after):
    """names whose value was changed or removed (additions are allowed)"""
    return sorted(k for k, v in (before or {}).items() if after is None or k not in after or not same(v, after[k]))


def table(df):
    cols = [str(c) for c in df.columns]
    out = dict(names=[c for c in cols if c != "Year"],
               cols={str(c): reals(df[c].to_numpy()) for c in dict.fromkeys(df.columns) if c != "Year" and df[c].ndim == 1})
    years = [int(y) for y in (df["Year"] if "Year" in df.columns else df.index)]
    out["years"] = years
    return out


def observe(cscm, ops):
    res = cscm.results
    obs = dict(keys=sorted(map(str, res)), series={}, tables={}, zerocum=False)
    for k, v in res.items():
        if isinstance(v, pd.DataFrame):
            obs["tables"][k] = table(v)
        else:
            obs["series"][k] = reals(v)
    cc = obs["tables"].get("carbon cycle")
    if cc is not None:
        if "Emissions" in cc["names"]:
            em = res["carbon cycle"]["Emissions"].to_numpy()
        else:
            em = res["emissions"]["CO2"].to_numpy()
        obs["zerocum"] = bool(np.any(np.cumsum(em) == 0))
    return obs


def explicit(p, inp):
    """parameters spelled out in the history"""
    p = {k: copy.deepcopy(p.get(k)) for k in ("udm", "emi", "carbon")}
    emi = p["emi"] or {}
    life = emi.get("lifetime_mode", "TAR")
    return dict(p, life=life if isinstance(life, str) else "TAR", just=emi.get("just_one", ""))


def read_variable(results, cfg, inp, name):
    """a named output variable"""
    from ciceroscm.formattingtools.reformat_cscm_results import CSCMREADER
    from ciceroscm.formattingtools.reformat_inputdata_to_cscm_format import COMMONSFILEWRITER

    try:
        gas = cfg["gaspam_file"] if "gaspam_file" in cfg else cfg["gaspam_data"] if "gaspam_data" in cfg else os.path.join(data.TD, data.TABLES["v1"])
        reader = CSCMREADER(inp.y0, inp.y1)
        years, values, unit = reader.get_variable_timeseries(results, name, COMMONSFILEWRITER(gas, inp.y0, inp.y1))
        return dict(name=name, ok=True, years=[int(y) for y in years], values=reals(np.asarray(values, dtype=float)), unit=str(unit))
    except Exception:  # noqa
        return dict(name=name, ok=False, years=[], values=[], unit=traceback.format_exc()[-300:])


def forked(fn):
    """the result of fn, called in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    pickle.dump((True, fn()), f)
                except BaseException:  # noqa
                    pickle.dump((False, traceback.format_exc()), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        raise RuntimeError("a process ended without a result")
    ok, res = pickle.loads(raw)
    if not ok:
        raise RuntimeError(res)
    return res


def run_history(job):
    """job: dict(id, seed, insts: {name: dims}, ops: [...], tmp, alone: [ops, ...]) -> (trace, inputs)

    What is under "alone" is done in processes in which nothing has run before."""
    if job.get("alone"):
        parts = [forked(lambda ops=ops: run_history(dict(job, ops=ops, alone=None))) for ops in job["alone"]]
        trace, specs = run_history(dict(job, alone=None))
        for t, _ in parts:
            trace["ops"] += t["ops"]
        return trace, specs
    from ciceroscm import CICEROSCM

    tmp = job["tmp"]
    os.makedirs(tmp, exist_ok=True)
    rng = np.random.default_rng(job["seed"])
    inputs, objs, cfgs, source = {}, {}, {}, {}
    base = list(job["insts"])
    for name, d in job["insts"].items():
        # instances "as" another one are made from the same values
        inputs[name] = scen.Inputs(d, list(job["seed"]) + [base.index(d.get("as", name))], tmp, name)
    names = list(inputs)
    trace = dict(id=job["id"], ops=[], **({"loose": True} if job.get("loose") else {}))
    held = []
    for o in job["ops"]:
        name = o["inst"]
        source.setdefault(name, o.get("inputs", name))
        inp = inputs[source[name]]
        rec = dict(op=o["op"], inst=name, **{"in": names.index(source[name])})
        trace["ops"].append(rec)
        if o["op"] == "new":
            cfg = inp.cfg()
            inp.place()
            if o.get("sharecfg"):
                # the same tables and lists, in another dictionary or in the same one
                other = cfgs[o["sharecfg"]]
                cfg = other if o.get("samecfg") else {k: other[k] for k in cfg}
            before = copy.deepcopy(cfg)
            cfgs[name] = cfg
            rec["carbon"] = params(inp.carbon0)
            try:
                objs[name] = CICEROSCM(cfg)
            except Exception:  # noqa
                rec["exc"] = traceback.format_exc()[-700:]
                break
            rec["mutated"] = changed(before, cfg)
            continue
        p = explicit(o["p"], inp) if "p" in o else scen.run_params(o, inp, rng)
        opt = {"results_as_dict": o.get("dict", True)}
        if o.get("carbonout") is not None:
            opt["carbon_cycle_outputs"] = o["carbonout"]
        if not opt["results_as_dict"]:
            opt["output_folder"] = tmp
            opt["output_prefix"] = name
            if o.get("nodictkey"):
                del opt["results_as_dict"]
        if o.get("fixed"):
            # what belongs to the instance is not for a run to change
            opt.update(nystart=1790, nyend=1930, emstart=1803, idtm=4, conc_run=True, thermal_model="twolayer", carbon_cycle_model="box")
        rec.update(dict={True: True, False: False}[bool(o.get("dict", True))], carbonout=bool(o.get("carbonout")),
                   udm=params(p["udm"]), emi=params(p["emi"]), carbon=params(p["carbon"]), lifetime=p["life"],
                   justone=p["just"])
        if o.get("broken"):
            rec["broken"] = True
        given = dict(udm=p["udm"], emi=p["emi"], carbon=p["carbon"])
        options = dict(opt)
        before = copy.deepcopy(given)
        kept = {k: copy.deepcopy(v) for k, v in cfgs[name].items()}
        try:
            objs[name]._run(opt, pamset_udm=given["udm"], pamset_emiconc=given["emi"], pamset_carbon=given["carbon"])
        except Exception:  # noqa
            rec["exc"] = traceback.format_exc()[-700:]
            if o.get("broken"):
                continue
            break
        rec["mutated"] = changed(kept, cfgs[name])
        for w in given:
            rec["mutated"] += [f"{w}.{k}" for k in changed(before[w], given[w])] if before[w] is not None else []
        rec["mutated"] += [f"options.{k}" for k in changed(options, opt)]
        # results the caller keeps
        held.append((rec, objs[name].results, copy.deepcopy(objs[name].results)))
        try:
            rec["obs"] = observe(objs[name], o)
        except Exception:  # noqa
            rec["exc"] = "results are not what they should be: " + traceback.format_exc()[-600:]
            break
        if "read" in job:
            rec["reads"] = [read_variable(objs[name].results, cfgs[name], inp, v) for v in job["read"]]
    for rec, res, then in held:
        rec["later"] = changed(then, res)
    if "read" in job:
        trace["units"] = {x: [r["em_unit"], r["conc_unit"]] for x, r in getattr(inp, "gases", {}).items()} or {"": []}
        trace["ny0"] = inp.y0
    return trace, [inputs[n].spec for n in names]


def _job(job):
    try:
        return run_history(job)
    except Exception:  # a fault of the harness itself
        return dict(id=job["id"], harness=traceback.format_exc()), []


def run_all(jobs, procs=8):
    """-> (data for SystemTrace, jobs by id)"""
    try:
        import ciceroscm  # noqa: imported, but nothing is run here
    except Exception:  # noqa
        pass
    # every history starts in a process of its own
    with mp.get_context("fork").Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1) as pool:
        res = pool.map(_job, jobs, chunksize=1)
    out = dict(traces=[], inputs=[])
    for trace, ins in res:
        if "harness" in trace:
            raise RuntimeError(f"harness fault in {trace['id']}: {trace['harness']}")
        base = len(out["inputs"])
        out["inputs"] += ins
        for o in trace["ops"]:
            o["in"] += base + 1
        out["traces"].append(trace)
    return out
