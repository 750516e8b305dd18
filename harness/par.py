"""C16: parallel and distributed runs. Cases (numbers of scenarios, configurations and workers) are behaviours of
spec/Par.tla, which is model checked; the real calls are judged with spec/ParTrace.tla against fresh single runs."""
import collections
import concurrent.futures as cf
import copy
import json
import os
import random
import traceback

import numpy as np

import families
import gen
import life
import reader
import record
import scen
import vlib
from vlib import reals

QUIET = None


def _quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def rows_of(df, scens):
    out = []
    for _, row in df.iterrows():
        name = str(row.get("scenario"))
        sc = next((x for x in scens if x["name"] == name), None)
        years = {int(c): row[c] for c in df.columns if isinstance(c, (int, np.integer))}
        lo, n = (sc["ny0"], sc["n"]) if sc else (0, 0)
        vals = [float(years.get(y, np.nan)) for y in range(lo, lo + n)]
        outside = sum(1 for y, v in years.items() if not lo <= y < lo + n and v == v)
        out.append(dict(scenario=name, id=str(row.get("run_id")), variable=str(row.get("variable")), unit=str(row.get("unit")),
                        model=str(row.get("model")), region=str(row.get("region")), values=reals(vals), outside=outside))
    return out


def call(case):
    """one call of the real code, and the single runs"""
    try:
        return _call(case)
    except Exception:  # noqa
        text = traceback.format_exc()
        if os.path.join(record.data.REPO, "src") in text:
            return dict(id=case["id"], scens=[0], ids=[], vars=[], rows=[], mutated=[], exc=text[-600:])
        return dict(harness=text, id=case["id"])


def _call(case):
    from ciceroscm import CICEROSCM
    from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper, run_ciceroscm_parallel
    from ciceroscm.parallel.distributionrun import DistributionRun

    tmp = case["tmp"]
    os.makedirs(tmp, exist_ok=True)
    scens, cfgs = [], []
    given = []
    rng = np.random.default_rng(case["seed"])
    for i, d in enumerate(case["scens"]):
        inp = scen.Inputs(d, case["seed"] + [d.get("like", i)], tmp, f"s{i}")
        c = inp.cfg()
        if d["mode"] == "rf" and "gaspam_file" not in c and "gaspam_data" not in c:
            c["gaspam_file"] = os.path.join(record.data.TD, record.data.TABLES["v1"])
        c["scenname"] = d["scenname"]
        given.append(c)
        scens.append(dict(name=d["scenname"], ny0=inp.y0, n=inp.n, fresh=[],
                          units={x: [r["em_unit"], r["conc_unit"]] for x, r in getattr(inp, "gases", {}).items()} or {"": []}))
    pam = {}
    for j, lab in enumerate(case["cfgs"]):
        P = life.pools(case["scens"][0], np.random.default_rng(case["seed"] + [j, 5]))
        c = {"Index": lab["index"]}
        for key, pool in (("pamset_udm", "th"), ("pamset_emiconc", "em"), ("pamset_carbon", "ca")):
            v = P[pool][lab[pool]]
            if v is not None or rng.random() < 0.5:
                c[key] = v if v is not None else {}
        cfgs.append(c)
    for i, c in enumerate(given):
        for g in cfgs:
            one = CICEROSCM(copy.deepcopy({k: v for k, v in c.items() if k != "scenname"}))
            one._run({"results_as_dict": True, "carbon_cycle_outputs": case["carbonout"]},
                     pamset_udm=copy.deepcopy(g.get("pamset_udm")), pamset_emiconc=copy.deepcopy(g.get("pamset_emiconc")),
                     pamset_carbon=copy.deepcopy(g.get("pamset_carbon")))
            scens[i]["fresh"].append(record.observe(one, None))
    # more names, of what all the runs have
    fresh = [o for x in scens for o in x["fresh"]]
    where = dict(forc="forcing", conc="concentrations", em="emissions")
    have = [n for n, kind, col in case.get("entries", []) if n not in case["vars"] and
            (kind in where and all(col in (o["tables"].get(where[kind]) or dict(cols={}))["cols"] for o in fresh) or
             kind in ("K", "heat") and all(col in o["series"] for o in fresh))]
    k = min(len(have), int(rng.choice([0, 1, 3, 60])))
    names = case["vars"] + [have[i] for i in rng.permutation(len(have))[:k]]
    case["vars"] = names = [names[i] for i in rng.permutation(len(names))]
    trace = dict(id=case["id"], scens=scens, ids=[str(g["Index"]) for g in cfgs], vars=names, rows=[], mutated=[])
    before_c, before_g = copy.deepcopy(given), copy.deepcopy(cfgs)
    try:
        if case["how"] == "wrapper":
            import pandas as pd
            parts = []
            for c in given:
                w = CSCMParWrapper(c)
                # in parts on the same wrapper
                half = len(cfgs) // 2
                for part in (cfgs[:half], cfgs[half:]):
                    if part:
                        parts.append(w.run_over_cfgs(part, case["vars"], carbon_cycle_outputs=case["carbonout"]))
            df = pd.concat(parts)
        elif case["how"] == "distro":
            path = os.path.join(tmp, "cfgs.json")
            with open(path, "w", encoding="utf8") as f:
                json.dump(cfgs, f, default=float)
            run = DistributionRun(None, json_file_name=path)
            df = run.run_over_distribution(given[0] if len(given) == 1 else given, case["vars"], max_workers=case["w"])
        else:
            df = run_ciceroscm_parallel(given, cfgs, case["vars"], max_workers=case["w"])
        trace["rows"] = rows_of(df, scens)
    except Exception:  # noqa
        trace["exc"] = traceback.format_exc()[-600:]
    for i, (a, b) in enumerate(zip(before_c, given)):
        trace["mutated"] += [f"scenario {i} {k}" for k in record.changed(a, b)]
    for i, (a, b) in enumerate(zip(before_g, cfgs)):
        trace["mutated"] += [f"configuration {i} {k}" for k in record.changed(a, b)]
    return trace


LABELS = dict(th=["none", "few", "all", "delta", "empty"], em=["none", "few", "all", "just", "empty", "zero"], ca=["none", "few", "all", "resp", "flat"])


def c16(chk, scratch):
    quick = vlib.TIER != "thorough"
    p = os.path.join(scratch, "par.json")
    small = dict(s=3, c=4, w=4, bs=7, bc=14, bw=16, emit=False) if quick else dict(s=3, c=5, w=5, bs=9, bc=30, bw=32, emit=False)
    with open(p, "w", encoding="utf8") as f:
        json.dump(small, f)
    r = vlib.tlc("Par", scratch, env=dict(DOM=p))
    chk.add_tlc(r)
    chk.cov["model_checked"] = dict(bounds=small, distinct_states=r["distinct"], checked="complete and right for all interleavings; batches cover for larger numbers")
    with open(p, "w", encoding="utf8") as f:
        json.dump(dict(s=4, c=7, w=9, bs=1, bc=1, bw=1, emit=True), f)
    r = vlib.tlc("Par", scratch, env=dict(DOM=p), cfg="ParGen.cfg", workers=1,
                 args=["-simulate", "num=1500", "-depth", "120", "-seed", str(vlib.SEED)])
    seen = {}
    for ln in r["lines"]:
        v = vlib.tla_value(ln)
        if v[0] == "PAR" and v[1] * v[2] <= (14 if quick else 28):
            seen[(v[1], v[2], v[3])] = (v[1], v[2], v[3], v[4])
    rng = random.Random(vlib.SEED)
    keys = sorted(seen)
    # spread over how the batches come out
    def shape(s, c, w):
        if w == 1:
            return (s > 1, "serial")
        if s >= w or c * s < w:
            return (s > 1, "whole", s >= w)
        b = c * s // w
        return (s > 1, "batches", min(b, 3), c % b == 0, -(-c // b) * s > w)
    groups = collections.defaultdict(list)
    for kk in keys:
        groups[shape(*kk)].append(kk)
    for g in groups.values():
        rng.shuffle(g)
    want = 30 if quick else 200
    picked = []
    while len(picked) < want and any(groups.values()):
        for g in sorted(groups):
            if groups[g] and len(picked) < want:
                picked.append(seen[groups[g].pop()])
    chk.cov["kinds_of_batching"] = len(groups)
    ecs = dict(mode=["em", "em", "conc"], y0=[1995, 1991], n=[20, 24], thermal=["twolayer", "default"], carbon=["default", "default", "box"], emstart=["default", "first"],
               idtm=[6], table=["v1", "ar6", "wmonew"], noise=["noisy", "strong"], gasform=["file", "data"], emform=["file", "data"], concform=["file", "data"],
               sv=["off", "data"], pem=[0, 2], pforc=[0, 2])
    rfs = dict(mode=["rf"], y0=[1995, 1900], n=[10, 24], thermal=families.THERMAL, forc=["array", "hemi", "comp"], fshape=["walk"], w_aero=[0, 1], sv=["off", "data"])
    total = sum(x[0] for x in picked)
    es, cov = gen.scenarios(ecs, total, scratch, 1000 * vlib.SEED + 16)
    rs, _ = gen.scenarios(rfs, max(8, total // 3), scratch, 1000 * vlib.SEED + 17)
    chk.cov["families"] = cov
    entries = reader.entries(scratch)
    ask = [e[0] for e in entries]
    anyrun = ["Surface Air Ocean Blended Temperature Change", "Heat Uptake", "Heat Content|Ocean"]
    ec = ["Effective Radiative Forcing", "Atmospheric Concentrations|CO2", "Emissions|CO2", "Emissions|CH4", "Effective Radiative Forcing|Anthropogenic|CH4",
          "Effective Radiative Forcing|Anthropogenic|Aerosol", "Effective Radiative Forcing|Greenhouse Gases", "Atmospheric Concentrations|CH4"]
    carb = ["Carbon Flux|Land", "Carbon Pool|Land", "Net Flux to Atmosphere|CO2", "Airborne fraction CO2"]
    ocean = ["Carbon Flux|Ocean", "Carbon Pool|Ocean"]
    bogus = ["Nonsense", "Heat Content|Ocean|2000m", "Emissions|Foo"]
    assert not set(bogus) & set(ask)
    cases = []
    for i, (s, c, w, gives) in enumerate(picked):
        sc, usesrf = [], False
        for j in range(s):
            kind = rng.random()
            if kind < 0.2 and rs:
                d = gen.dims_of(rs[(i * 3 + j) % len(rs)])
                usesrf = True
            else:
                d = gen.dims_of(es.pop() if es else dict(mode="em", y0=1995, n=20, idtm=6))
            # scenarios with names that are not in order
            d["scenname"] = rng.choice(["ssp", "x", "A b", "Ω"]) + str((j * 7 + 3) % 10)
            if j and rng.random() < 0.3 and sc[0]["mode"] == d["mode"]:
                d = dict(sc[0], scenname=d["scenname"], like=0)
            sc.append(d)
        box = any(d.get("carbon") == "box" for d in sc)
        kinds = {(d["mode"] == "rf", d.get("carbon"), d.get("thermal")) for d in sc}
        # parameters mean the same for all scenarios of a case
        th = sc[0].get("thermal", "default")
        cb = sc[0].get("carbon", "default")
        for d in sc:
            d["thermal"] = th
            if d["mode"] != "rf":
                d["carbon"] = cb if sc[0]["mode"] != "rf" else "default"
        box = cb == "box"
        vs = list(anyrun)
        if not usesrf:
            vs += ec
        if th != "twolayer":
            vs += ["Surface Air Temperature Change"]
        conc = any(d["mode"] == "conc" for d in sc)
        vs += ([] if box else carb[:3]) + ([] if conc and box else carb[3:])
        vs += ocean
        rng.shuffle(vs)
        vs = vs[: rng.randrange(2, 7)] if rng.random() < 0.8 else vs
        if rng.random() < 0.4:
            vs.insert(rng.randrange(len(vs) + 1), rng.choice(bogus))
        if usesrf and rng.random() < 0.3:
            # nothing of it in forcing runs
            vs = [v for v in vs if v in carb + ocean] or ["Carbon Flux|Ocean"]
        cf_ = []
        for j in range(c):
            lab = {k: rng.choice(v) for k, v in LABELS.items()}
            if (j + 1) in gives and lab["ca"] == "none":
                lab["ca"] = "few"
            if (j + 1) not in gives:
                lab["ca"] = "none"
            if box and lab["ca"] in ("resp", "flat"):
                lab["ca"] = "all"
            if all(d["mode"] == "rf" for d in sc):
                lab.update(em="none", ca="none")
            lab["index"] = rng.choice(["", "a_", "7"]) + str(c - j) + "_"
            cf_.append(lab)
        how = rng.choice(["direct", "direct", "distro", "wrapper"] if w == 1 or i % 5 == 0 else ["direct", "direct", "distro"])
        if how == "distro":
            for lab in cf_:
                if lab["ca"] in ("resp", "flat"):
                    lab["ca"] = "few"
        cases.append(dict(id=f"C16/{i}", scens=sc, cfgs=cf_, w=w, vars=vs, how=how, carbonout=True if how != "wrapper" else rng.random() < 0.5,
                          seed=[vlib.SEED, 16, i], tmp=os.path.join(scratch, f"par{i}")))
        cases[-1]["entries"] = entries if i % 3 else []
        if not cases[-1]["carbonout"]:
            cases[-1]["vars"] = [v for v in vs if v not in carb + ocean] or anyrun
    # many configurations, of a run that costs next to nothing
    for i, (s, c, w, how) in enumerate([(1, 53, 4, "direct"), (2, 41, 3, "direct"), (1, 104, 7, "distro"), (2, 26, 52, "direct"), (1, 61, 1, "wrapper")]
                                       + ([] if quick else [(3, 150, 8, "direct"), (1, 257, 5, "distro"), (2, 120, 2, "direct"), (1, 99, 98, "direct")])):
        sc = [dict(mode="rf", y0=2000 + 3 * j, n=4, thermal="twolayer", forc="array", scenname=f"s{9 - j}") for j in range(s)]
        labs = [dict(th=rng.choice(["few", "all", "none"] if j else ["all"]), em="none", ca="none", index=f"{j * 7 % c}_") for j in range(c)]
        cases.append(dict(id=f"C16/m{i}", scens=sc, cfgs=labs, w=w, vars=rng.sample(anyrun, 2), how=how, carbonout=True, many=True,
                          seed=[vlib.SEED, 116, i], tmp=os.path.join(scratch, f"parm{i}")))
    with cf.ProcessPoolExecutor(5, initializer=_quiet) as ex:
        traces = list(ex.map(call, cases))
    for t in traces:
        if "harness" in t:
            raise RuntimeError(f"harness fault in {t['id']}: {t['harness']}")
    path = os.path.join(scratch, "partraces.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(dict(traces=traces), f)
    r = vlib.tlc("ParTrace", scratch, env=dict(TRACES=path))
    chk.add_tlc(r)
    by = {c["id"]: c for c in cases}
    for c in cases:
        c.pop("entries", None)
    done = set()
    for ln in r["lines"]:
        v = vlib.tla_value(ln)
        if v[0] == "FAIL":
            chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], by[v[1]])
        elif v[0] == "DONE":
            done.add(v[1])
    missing = [k for k in by if k not in done]
    if missing:
        raise vlib.TlcError(f"ParTrace: no verdict on {missing[:3]}")
    chk.cov["traces_validated_against_impl"] += len(traces)
    chk.cov["rows_compared"] = sum(len(t["rows"]) for t in traces)
    chk.cov["ways"] = dict(collections.Counter(c["how"] for c in cases))
    for c in cases[:3]:
        chk.sample(c)
