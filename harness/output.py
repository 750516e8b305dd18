"""C20: output files against results in memory, judged by spec/OutputTrace.tla (model: spec/Output.tla)."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import traceback

import numpy as np

import families
import gen
import record
import scen
import vlib
from vlib import reals


def num(s):
    return float(s) if s.strip() else float("nan")


def read_file(root, path):
    with open(os.path.join(root, path), "rb") as f:
        raw = f.read()
    out = dict(path=path, raw=hashlib.sha1(raw).hexdigest(), names=[], years=[], noyear=False, rows=0, cols={"": "#"})
    lines = raw.decode("utf8", "replace").splitlines()
    if not lines:
        return out
    head = lines[0].split("\t")
    rows = [ln.split("\t") for ln in lines[1:]]
    try:
        # the carbon cycle file has no column with the years
        out["noyear"], out["rows"] = "Year" not in head, len(rows)
        if "Year" in head:
            out["years"] = [int(float(r[head.index("Year")])) for r in rows]
        out["cols"] = {h: reals([num(r[i]) for r in rows]) for i, h in enumerate(head) if h != "Year"} or {"": "#"}
        out["names"] = [h for h in head if h != "Year"]
    except (ValueError, IndexError):
        out["names"] = ["unreadable"]
    return out


def disk(root):
    out = []
    for d, _, files in os.walk(root):
        for f in sorted(files):
            out.append(read_file(root, os.path.relpath(os.path.join(d, f), root)))
    return sorted(out, key=lambda x: x["path"])


def history(case):
    cwd = os.getcwd()
    try:
        return _history(case)
    except Exception:  # noqa
        text = traceback.format_exc()
        if os.path.join(record.data.REPO, "src") in text:
            return dict(id=case["id"], rf=False, y0=0, n=0, events=[dict(exc=text[-600:])])
        return dict(id=case["id"], harness=text)
    finally:
        os.chdir(cwd)
        shutil.rmtree(case["tmp"], ignore_errors=True)


def _history(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from ciceroscm import CICEROSCM

    # pictures are not looked at
    plt.savefig = lambda *a, **k: None
    matplotlib.figure.Figure.savefig = lambda *a, **k: None
    root = os.path.join(case["tmp"], "root")
    for d in ("output", "here", "here/deep er"):
        os.makedirs(os.path.join(root, d))
    dims = case["dims"]
    inp = scen.Inputs(dims, case["seed"], case["tmp"], "i")
    rng = np.random.default_rng(case["seed"])
    a, twin = CICEROSCM(inp.cfg()), CICEROSCM(inp.cfg())
    trace = dict(id=case["id"], rf=dims["mode"] == "rf", y0=inp.y0, n=inp.n, events=[])
    os.chdir(root)
    import copy
    for r in case["runs"]:
        p = scen.run_params(r, inp, rng)
        ev = dict(opts=dict(dict=r["out"] == "dict", dir=r["dir"] or "output", prefix="output" if r["prefix"] == "default" else r["prefix"], carbon=bool(r["carbonout"])))
        trace["events"].append(ev)
        opt = {}
        if r["out"] == "dict":
            opt["results_as_dict"] = True
        elif r["out"] == "no":
            opt["results_as_dict"] = False
        if r["dir"]:
            opt["output_folder"] = os.path.join(root, r["dir"]) if r["abs"] else r["dir"]
        if r["prefix"] != "default":
            opt["output_prefix"] = r["prefix"]
        if r["carbonout"]:
            opt["carbon_cycle_outputs"] = True
        elif rng.random() < 0.5:
            opt["carbon_cycle_outputs"] = False
        q = copy.deepcopy(p)
        twin._run({"results_as_dict": True, "carbon_cycle_outputs": bool(r["carbonout"])}, pamset_udm=q["udm"], pamset_emiconc=q["emi"], pamset_carbon=q["carbon"])
        ev["ref"] = record.observe(twin, None)
        try:
            kw = {"make_plot": True} if r["plot"] else {}
            a._run(opt, pamset_udm=p["udm"], pamset_emiconc=p["emi"], pamset_carbon=p["carbon"], **kw)
            plt.close("all")
            ev["obs"] = record.observe(a, None)
            ev["disk"] = disk(root)
        except Exception:  # noqa
            ev["exc"] = traceback.format_exc()[-600:]
            break
    for ev in trace["events"]:
        for o in ("ref", "obs"):
            if o in ev and not ev[o]["tables"]:
                ev[o]["tables"] = {}
    return trace


def c20(chk, scratch):
    quick = vlib.TIER != "thorough"
    p = os.path.join(scratch, "out.json")
    bounds = dict(dirs=["d", "e"], prefixes=["p", "q"], max=3 if quick else 4)
    with open(p, "w", encoding="utf8") as f:
        json.dump(bounds, f)
    r = vlib.tlc("Output", scratch, env=dict(DOM=p))
    chk.add_tlc(r)
    chk.cov["model_checked"] = dict(bounds=bounds, distinct_states=r["distinct"])
    dims = dict(mode=["em", "conc", "em", "rf", "conc", "rf"], y0=[1995, 1750, 1900, 1990, 2200], n=[5, 12, 27, 60], thermal=families.THERMAL, carbon=["default", "box"],
                emstart=["default", "first", "mid", "after"], idtm=[6], table=["v1", "ar6", "wmonew"], dropgas=[0, 0, 6], newgas=[0, 2], regional=["none", "none", "BC", "SO2+OC"],
                noise=["noisy", "strong", "zero", "coldstart"], pem=[0, 3], pforc=[0, 4], sv=["off", "default", "data", "single_data"], vcols=[12, 1],
                shuffle=[0, 1], luc=["default", "data"], forc=["array", "hemi", "comp"], fshape=["walk", "strong", "zero"])
    for i in (1, 2, 3):
        dims.update({f"r{i}_udm": ["none", "few"], f"r{i}_emi": ["none", "all"], f"r{i}_cpars": ["none", "few"], f"r{i}_just": ["none", "none", "none", "CH4", "BC"],
                     f"r{i}_out": ["file", "no", "file", "dict"], f"r{i}_carbonout": [True, False], f"r{i}_dir": ["", "here", "here/deep er"], f"r{i}_abs": [0, 1],
                     f"r{i}_prefix": ["default", "p", "some name", "", "p_forc", "a.b"], f"r{i}_plot": [0] * 11 + [1]})
    want = 64 if quick else 700
    scens, cov = gen.scenarios(dims, want, scratch, 1000 * vlib.SEED + 20)
    chk.cov["families"] = cov
    cases = []
    slow = 0
    for i, s in enumerate(scens):
        j = gen.job(f"C20/{i}", s, [vlib.SEED, 20, i], os.path.join(scratch, f"o{i}"), 3)
        runs = [o for o in j["ops"] if o["op"] == "run"]
        for r in runs:
            if not isinstance(r.get("carbonout"), bool):
                r["carbonout"] = False
            if r["plot"] and r["out"] != "dict" and s["mode"] != "rf":
                # drawing all the gases takes long
                slow += 1
                r["plot"] = 1 if slow <= (2 if quick else 12) else 0
        cases.append(dict(id=j["id"], seed=j["seed"], tmp=j["tmp"], dims=j["insts"]["a"], runs=runs))
    for b in range(0, len(cases), 100):
        part = cases[b : b + 100]
        with mp.get_context("fork").Pool(8) as pool:
            traces = pool.map(history, part, chunksize=1)
        for t in traces:
            if "harness" in t:
                raise RuntimeError(f"harness fault in {t['id']}: {t['harness']}")
        path = os.path.join(scratch, "outtraces.json")
        with open(path, "w", encoding="utf8") as f:
            json.dump(dict(traces=traces), f)
        r = vlib.tlc("OutputTrace", scratch, env=dict(TRACES=path), timeout=3000)
        chk.add_tlc(r)
        by = {c["id"]: c for c in part}
        done = set()
        for ln in r["lines"]:
            v = vlib.tla_value(ln)
            if v[0] == "FAIL":
                chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], by[v[1]])
            elif v[0] == "DONE":
                done.add(v[1])
        if set(by) - done:
            raise vlib.TlcError(f"OutputTrace: no verdict on {sorted(set(by) - done)[:3]}")
        chk.cov["traces_validated_against_impl"] += len(part)
        chk.cov["files"] = chk.cov.get("files", 0) + sum(len(e.get("disk", [])) for t in traces for e in t["events"])
    for c in cases[:3]:
        chk.sample(c)
