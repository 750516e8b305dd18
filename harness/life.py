"""Histories of runs: generated by spec/Lifecycle.tla, replayed, judged by spec/LifeTrace.tla."""
import copy
import json
import os
import re

import numpy as np

import families
import gen
import scen
import system
import vlib

DEFAULTS = {
    "udm": dict(rlamdo=15.0, akapa=0.66, cpi=0.21, W=2.2, beto=6.9, threstemp=7.0, mixed=107.0, foan=0.61, foas=0.81,
                ebbeta=0.0, lm=40, ldtime=12, ocean_efficacy=1.0, delta_lambda_aero=0.0, **{"lambda": 0.61}),
    "twolayer": dict(mixed=50, deep=1200, k=0.5, ocean_efficacy=1, foan=0.61, foas=0.81, delta_lambda_aero=0.0,
                     **{"lambda": 3.74 / 3}),
    "emi": dict(qbmb=0.0, qo3=0.5, qdirso2=-0.00308, qindso2=-0.97 / 57.052577209999995, qbc=0.0279, qoc=-0.00433,
                qh2o_ch4=0.091915, ref_yr=2010, qnmvoc=0.0, qnh3=0.0, qnox=0.0),
    "joos": dict(beta_f=0.287, mixed_carbon=75.0, ml_w_sigmoid=3.0, ml_fracmax=0.5, ml_t_half=0.5, t_half=0.5, w_sigmoid=7,
                 t_threshold=4, w_threshold=7, solubility_sens=0.02, solubility_limit=0.5, ml_depth_min=10.0),
    "box": dict(beta_f=0.287, land_temp_sensitivity=0.1, soil_respiration_rate=0.02, ocean_mixed_layer_depth=25.0,
                ocean_exchange_rate=0.01, vegetation_to_soil_fraction=0.1, ocean_solubility_base=0.02,
                ocean_solubility_temp_coeff=-0.01),
}


def histories(dom, want, scratch, seed, depth, exhaustive=False):
    """histories (lists of operations) from Lifecycle, chosen to cover what follows on what"""
    path = os.path.join(scratch, f"life{seed}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(dict(dom, max=depth), f)
    args = [] if exhaustive else ["-simulate", f"num={max(300 if depth < 18 else 60, 15 * want)}", "-depth", str(6 * depth + 4), "-seed", str(seed)]
    r = vlib.tlc("Lifecycle", scratch, env=dict(DOM=path), workers=1, args=args)
    cand = [vlib.tla_value(ln)[1] for ln in r["lines"] if ln.startswith('<<"HIST"')]
    uniq = {json.dumps(c, sort_keys=True): c for c in cand}
    cand = [uniq[x] for x in sorted(uniq)]
    if not cand:
        raise vlib.TlcError("no histories generated:\n" + r["out"][-2000:])
    rng = np.random.default_rng(seed)
    cand = [cand[i] for i in rng.permutation(len(cand))]

    def feats(h):
        out = set()
        runs = [o for o in h if o["op"] == "run"]
        for a, b in zip(runs, runs[1:]):
            for x in ("th", "em", "ca", "out", "broken", "inst"):
                for y in ("th", "em", "ca", "out"):
                    out.add((x, str(a[x]), y, str(b[y]), a["inst"] == b["inst"]))
        return out

    fs = [feats(h) for h in cand]
    chosen, covered, left = [], set(), set(range(len(cand)))
    while left and len(chosen) < want:
        best = max(left, key=lambda j: (len(fs[j] - covered), -j))
        chosen.append(cand[best])
        covered |= fs[best]
        left.discard(best)
    return chosen, r


def pools(d, rng):
    """what the labels mean for an instance with dimensions d"""
    th = "twolayer" if d.get("thermal") == "twolayer" else "udm"
    kind = "box" if d.get("carbon") == "box" else "joos"
    R = scen.RANGES
    ints = {k: v for k, v in DEFAULTS[th].items() if k not in ("lm", "ldtime", "threstemp")}
    y0, y1 = d["y0"], d["y0"] + d["n"] - 1
    base = {}
    if not y0 <= 2010 <= y1:
        base["ref_yr"] = int(rng.integers(y0 + 1, y1 + 1))
    if not y0 <= 2000 <= y1 and d["mode"] == "em":
        base["lifetime_mode"] = str(rng.choice(["CONSTANT_12", "WIGLEY", "OTHER"]))
    thp = {
        "none": None, "empty": {}, "few": scen.pick(rng, R[th], "few"), "all": scen.pick(rng, R[th], "all"),
        "default": dict(DEFAULTS[th]), "text": {k: "text" for k in DEFAULTS[th]},
        "unknown": {"nonsense": 4.5, "beta_f": 0.5, "qo3": 2.0}, "nothing": {k: None for k in DEFAULTS[th]},
    }
    thp["delta"] = {"delta_lambda_aero": 0.4}
    thp["numpy"] = {k: np.float64(v) for k, v in thp["all"].items()}
    thp["mixed"] = {**thp["few"], **{k: "x" for k in ints if k not in thp["few"]}}
    # integers and single precision numbers that are exact in every type
    whole = {k: int(v) for k, v in dict(mixed=83, W=3, rlamdo=17, lm=40, ldtime=6, deep=900).items() if k in DEFAULTS[th]}
    thp["int"] = whole
    thp["float"] = {k: float(v) if k not in ("lm", "ldtime") else v for k, v in whole.items()}
    thp["np.int64"] = {k: np.int64(v) for k, v in whole.items()}
    thp["np.int32"] = {k: np.int32(v) if k != "deep" else v for k, v in whole.items()}
    thp["half"] = {"ocean_efficacy": 1.25, "lambda": 0.75, "foan": 0.625}
    thp["np.half"] = {k: np.float32(v) for k, v in thp["half"].items()}
    emp = {
        "none": None, "empty": {}, "few": scen.pick(rng, R["emi"], "few"), "all": scen.pick(rng, R["emi"], "all"),
        "default": dict(DEFAULTS["emi"]), "text": {k: "text" for k in DEFAULTS["emi"] if k != "ref_yr"},
        "unknown": {"nonsense": 4.5, "lambda": 0.2, "mixed_carbon": 10.0},
        "just": {"just_one": str(rng.choice(["CO2", "CH4", "TROP_O3", "BC", "CFC-11", "LANDUSE"]))},
        "just2": {"just_one": "SO4_IND", "qo3": 0.33},
        "life": {"lifetime_mode": "WIGLEY"}, "ref": {"ref_yr": int(rng.integers(y0 + 1, y1 + 1))},
        "fixed": dict(nystart=y0 - 20, nyend=y1 + 30, emstart=y0 + 3, idtm=3, conc_run=d["mode"] != "conc"),
    }
    def around(pool, ranges, base, edges=True):
        """labels that differ from "all" in one parameter (t), give only one (s), or give it as zero (z)"""
        names = list(ranges)
        for i in range(15):
            n = names[i % len(names)]
            lo, hi, elo, ehi = ranges[n]
            pool[f"t{i}"] = {**pool[base], n: float(rng.uniform(lo, hi))}
            pool[f"s{i}"] = {n: float(rng.uniform(lo, hi))}
            zero = [x for x in names if ranges[x][2] <= 0 <= ranges[x][3]]
            pool[f"z{i}"] = {zero[i % len(zero)]: 0 if i % 2 else 0.0}
        pool["edge"] = scen.pick(rng, ranges, "edge")
        pool["zero"] = scen.pick(rng, ranges, "zero")

    around(thp, R[th], "all")
    if th == "udm":
        thp["all0"] = {**thp["all"], "threstemp": 0}
        for i in range(15):
            thp[f"u{i}"] = {**thp[f"t{i}"], "threstemp": 0}
        thp["t13"] = {**thp["all"], "lm": 30}
        thp["t14"] = {**thp["all"], "ldtime": 8}
        thp["s13"], thp["s14"] = {"lm": 20}, {"ldtime": 4}
    else:
        thp["all0"] = thp["all"]
        for i in range(15):
            thp[f"u{i}"] = thp[f"t{i}"]
    emp["half"] = {"qo3": 0.375, "qbc": 0.03125}
    emp["np.half"] = {k: np.float32(v) for k, v in emp["half"].items()}
    emp["int"] = {"qbmb": 1, "qo3": 1}
    emp["np.int64"] = {k: np.int64(v) for k, v in emp["int"].items()}
    emp["numpy"] = {k: np.float64(v) for k, v in emp["all"].items()}
    around(emp, R["emi"], "all")
    emp["t10"] = {**emp["all"], "ref_yr": int(rng.integers(y0 + 1, y1 + 1))}
    emp["t11"] = {**emp["all"], "lifetime_mode": "CONSTANT_12"}
    emp["t12"] = {**emp["all"], "lifetime_mode": "WIGLEY"}
    emp["t13"] = {**emp["all"], "just_one": "CH4"}
    emp["t14"] = {**emp["all"], "just_one": "SO2"}
    if base:
        emp["default"].pop("ref_yr")
        emp = {k: {**base, **(v or {})} for k, v in emp.items()}
    cap = {
        "none": None, "empty": {}, "few": scen.pick(rng, R[kind], "few"), "all": scen.pick(rng, R[kind], "all"),
        "default": dict(DEFAULTS[kind]), "text": {k: "text" for k in DEFAULTS[kind]},
        "unknown": {"nonsense": 4.5, "lambda": 0.2, "qo3": 10.0, "idtm": 7, "npp0": 11.0} if kind == "joos" else {"nonsense": 1.0},
    }
    cap["half"] = {"beta_f": 0.375}
    cap["np.half"] = {k: np.float32(v) for k, v in cap["half"].items()}
    cap["int"] = {"mixed_carbon": 60, "t_threshold": 5} if kind == "joos" else {"ocean_mixed_layer_depth": 31, "beta_f": 2}
    cap["np.int64"] = {k: np.int64(v) for k, v in cap["int"].items()}
    cap["numpy"] = {k: np.float64(v) for k, v in cap["all"].items()}
    if kind == "joos":
        rs, rb = scen.response(rng, "rs"), scen.response(rng, "rb")
        cap["resp"] = {"rs_function": rs, "rb_function": rb}
        cap["rs"] = {"rs_function": scen.response(rng, "rs")}
        flat = {}
        for w, f in (("rs", rs), ("rb", rb)):
            for i, c in enumerate(f["coeffs"]):
                flat[f"{w}_coef{i}"] = c
            for i, c in enumerate(f["timescales"]):
                flat[f"{w}_tim{i}"] = c
        items = list(flat.items())
        rng.shuffle(items)
        cap["flat"] = dict(items)
        cap["pre"] = {"preindustrial_co2_conc": 281.5}
        cap["all"] = {**cap["all"], "rs_function": rs, "rb_function": rb}
        around(cap, R[kind], "all")
        # functions that share coefficients or timescales
        for w, f in (("rs", rs), ("rb", rb)):
            g = scen.response(rng, w)
            same = dict(coeffs=list(f["coeffs"]), timescales=[1.3 * x for x in f["timescales"]])
            othr = dict(coeffs=[c + 0.05 * i for i, c in enumerate(f["coeffs"])], timescales=list(f["timescales"]))
            n = 0 if w == "rs" else 1
            cap[f"r{n}"] = {**cap["resp"], w + "_function": same}
            cap[f"r{2 + n}"] = {**cap["resp"], w + "_function": othr}
            cap[f"r{4 + n}"] = {**cap["resp"], w + "_function": g}
            cap[f"t{13 + n}"] = {**cap["all"], w + "_function": same}
        cap["respti"] = {"rs_function": cap["r0"]["rs_function"], "rb_function": cap["r1"]["rb_function"]}
        cap["respco"] = {"rs_function": cap["r2"]["rs_function"], "rb_function": cap["r3"]["rb_function"]}
    else:
        around(cap, R[kind], "all")
        for i in range(6):
            cap[f"r{i}"] = cap[f"s{i}"]
        cap["respti"] = cap["respco"] = cap["few"]
        cap["resp"] = cap["rs"] = cap["flat"] = cap["pre"] = cap["few"]
    if d["mode"] == "rf":
        emp = {k: None for k in emp}
        cap = {k: None for k in cap}
    return dict(th=thp, em=emp, ca=cap)


BREAKS = [{"just_one": "no such component"}, {"ref_yr": 2999}]


def merge(a, b):
    """carbon parameters in force after b was given on top of a"""
    out = dict(a or {})
    for k, v in (b or {}).items():
        num = isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool)
        for w in ("rs", "rb"):
            if k == w + "_function" or k.startswith((w + "_coef", w + "_tim")):
                for x in [x for x in out if x.startswith((w + "_coef", w + "_tim", w + "_function"))]:
                    if x not in b:
                        del out[x]
                num = True
        if num:
            out[k] = v
    return out


def concrete(ident, insts, hist, seed, tmp, brng, fresh=True, share=False, flip=False):
    """operations of a history with their parameters; with fresh: every run is also made, with the
    parameters in force, on an instance of its own"""
    dims = next(iter(insts.values()))
    P = pools(dims, np.random.default_rng(list(seed) + [77]))
    ops, inforce, made, tail = [], {}, {}, []
    for o in hist:
        i = o["inst"]
        if o["op"] == "new":
            rec = dict(op="new", inst=i, inputs=o["inputs"])
            if share and o["inputs"] in made:
                rec["sharecfg"] = made[o["inputs"]]
            made.setdefault(o["inputs"], i)
            inforce[i] = (o["inputs"], {})
            ops.append(rec)
            continue
        p = dict(udm=P["th"][o["th"]], emi=P["em"][o["em"]], carbon=P["ca"][o["ca"]])
        src, ca = inforce[i]
        ca = merge(ca, p["carbon"])
        inforce[i] = (src, ca)
        out = dict(dict=o["out"] != "file", carbonout=o["out"] == "carbon" or (o["out"] == "file" and None))
        if o["out"] == "dict":
            out["carbonout"] = False if brng.random() < 0.5 else None
        if o["broken"]:
            if dims["mode"] == "rf":
                continue
            bad = BREAKS[int(brng.integers(len(BREAKS)))]
            ops.append(dict(op="run", inst=i, p=dict(p, emi={**(p["emi"] or {}), **bad}), broken=True, **out))
            continue
        ops.append(dict(op="run", inst=i, p=p, **out))
        if fresh:
            f = f"f{len(tail)}"
            tail += [dict(op="new", inst=f, inputs=src),
                     dict(op="run", inst=f, p=dict(p, carbon=ca or None), dict=True,
                          carbonout=not out["carbonout"] if flip else out["carbonout"])]
    return dict(id=ident, seed=list(seed), insts=insts, ops=ops, alone=[tail[i : i + 2] for i in range(0, len(tail), 2)], tmp=tmp)


def judge(chk, jobs, scratch):
    fails = system.judge(chk, jobs, scratch, module="LifeTrace")
    return fails


ECS = dict(mode=["em", "conc"], y0=[1995, 1991], n=[18, 22], thermal=families.THERMAL, carbon=["default", "default", "box"],
           emstart=["default", "mid", "first", "after"], idtm=[12, 24], table=["v1", "ar6", "wmonew"], newgas=[0, 1],
           regional=["none", "none", "SO2+OC"], noise=["noisy", "strong"], nat=["file", "data", "none"],
           luc=["default", "data"], pem=[0, 3], pforc=[0, 3], pemform=["data", "file"], pforcform=["data", "file"], sv=["off", "data", "single_file"], gasform=["file", "data"],
           emform=["file", "data"], concform=["file", "data"], resp=["none", "none", "rs+rb"])
RFS = dict(mode=["rf"], y0=[1750, 1995], n=[12, 25], thermal=families.THERMAL, forc=["array", "hemi", "comp"],
           fshape=["walk", "strong"], w_aero=[0, 1], forcform=["file", "data"], sv=["off", "data", "single_data"])

EQ = ["none", "empty", "default", "text", "unknown"]
DOMS = {
    "C01": [(0.85, ECS, dict(insts=["a"], inputs=["a"], th=["none", "few", "all", "delta"],
                             em=["none", "few", "all", "just", "just2", "life", "ref"],
                             ca=["none", "none", "few", "all", "resp", "respti", "respco", "rs", "pre", "edge", "zero"], out=["dict", "carbon", "file"], broken=True), 5),
            (0.15, RFS, dict(insts=["a"], inputs=["a"], th=["none", "few", "all", "delta"], em=["none"], ca=["none"],
                             out=["dict", "file"], broken=False), 5)],
    "C02": [(0.8, ECS, dict(insts=["a", "b", "c"], inputs=["a", "b"], th=["none", "few", "all"], em=["none", "few", "just"],
                            ca=["none", "few", "resp", "flat"], out=["dict", "carbon", "file"], broken=False), 6),
            (0.2, RFS, dict(insts=["a", "b", "c"], inputs=["a", "b"], th=["none", "few", "all"], em=["none"], ca=["none"],
                            out=["dict", "file"], broken=False), 6)],
    "C03": [(0.25, ECS, dict(insts=["a"], inputs=["a"], th=EQ + ["nothing"], em=EQ + ["fixed"], ca=EQ, out=["dict"], broken=False), 7),
            (0.2, ECS, dict(insts=["a"], inputs=["a"], th=["all", "numpy"], em=["all", "numpy"], ca=["all", "numpy"], out=["dict"],
                            broken=False), 5),
            (0.2, ECS, dict(insts=["a"], inputs=["a"], th=["few", "mixed"], em=["none", "fixed"], ca=["resp", "flat"], out=["dict"],
                            broken=False), 5),
            (0.15, ECS, dict(insts=["a"], inputs=["a"], th=["int", "float", "np.int64", "np.int32"], em=["int", "np.int64"],
                             ca=["int", "np.int64"], out=["dict"], broken=False), 6),
            (0.1, ECS, dict(insts=["a"], inputs=["a"], th=["half", "np.half"], em=["half", "np.half"], ca=["half", "np.half"], out=["dict"],
                            broken=False, loose=True), 5),
            (0.1, RFS, dict(insts=["a"], inputs=["a"], th=EQ + ["nothing"], em=["none"], ca=["none"], out=["dict"], broken=False), 6)],
}
def labels(c, k=15):
    return [f"{c}{i}" for i in range(k)]


# one parameter changed and changed back, for every parameter in turn
ONE = dict(base=dict(th="all", em="all", ca="all"), th=["all"] + labels("t"), em=["all"] + labels("t"), ca=["all"] + labels("t"),
           out=["dict", "dict", "carbon"], broken=False)
ONE0 = dict(ONE, base=dict(th="all0", em="none", ca="resp"), th=["all0"] + labels("u"), em=["none"] + labels("s", 10), ca=["resp"] + labels("r", 6))
DOMS["C01"] += [(0.15, ECS, dict(ONE, insts=["a"], inputs=["a"]), 16), (0.1, ECS, dict(ONE0, insts=["a"], inputs=["a"]), 14)]
DOMS["C02"] += [(0.15, ECS, dict(ONE, insts=["a", "b"], inputs=["a", "a"]), 16), (0.15, ECS, dict(ONE0, insts=["a", "b"], inputs=["a", "a"]), 16),
                (0.1, RFS, dict(ONE0, insts=["a", "b"], inputs=["a"], em=["none"], ca=["none"], base=dict(th="all0", em="none", ca="none")), 14)]
# the same with every parameter of a component in each history
TH0 = dict(ONE0, em=["none"], ca=["none"], base=dict(th="all0", em="none", ca="none"))
THALL = dict(ONE, em=["none"], ca=["none"], base=dict(th="all", em="none", ca="none"))
EMALL = dict(ONE, th=["none"], ca=["none"], base=dict(th="none", em="all", ca="none"))
CAALL = dict(ONE, th=["none"], em=["none"], base=dict(th="none", em="none", ca="all"))
UDMRF, TWORF = dict(RFS, thermal=["default"]), dict(RFS, thermal=["twolayer"])
SHORT = dict(ECS, n=[13], y0=[1998], idtm=[6], thermal=["twolayer"], regional=["none"])
for _p, _i in (("C01", dict(insts=["a"], inputs=["a"])), ("C02", dict(insts=["a", "b"], inputs=["a"]))):
    DOMS[_p] += [(0.02, UDMRF, dict(TH0, **_i), 32), (0.02, UDMRF, dict(THALL, **_i), 32), (0.02, TWORF, dict(THALL, **_i), 32),
                 (0.05, SHORT, dict(EMALL, **_i), 19), (0.05, dict(SHORT, carbon=["default"]), dict(CAALL, **_i), 19), (0.05, dict(SHORT, carbon=["box"]), dict(CAALL, **_i), 19)]
# asking for the carbon cycle, or not
DOMS["C11"] = [(1.0, dict(ECS, mode=["conc", "conc", "em"], n=[11, 14], regional=["none"]), dict(insts=["a"], inputs=["a"], th=["none", "few"], em=["none", "few"], ca=["none", "few", "resp", "all"],
                          out=["dict", "carbon"], broken=False), 4)]
LCOUNT = {"C11": (24, 200), "C01": (64, 640), "C02": (48, 480), "C03": (40, 300)}


def make(chk, prop, scratch, fresh=True, share=False, flip=False):
    count = LCOUNT[prop][0 if vlib.TIER != "thorough" else 1]
    jobs = []
    for di, (frac, dims, dom, depth) in enumerate(DOMS[prop]):
        want = max(1 if depth > 30 else 3, int(round(count * frac)))
        seed = 1000 * vlib.SEED + 31 * di + 7
        scens, cov = gen.scenarios(dims, want, scratch, seed + 500)
        hists, r = histories(dom, want, scratch, seed, depth)
        chk.cov.setdefault("generated", []).append(dict(histories=len(hists), **cov))
        for i, h in enumerate(hists):
            inst = gen.dims_of(scens[i % len(scens)])
            insts = {"a": inst}
            if "b" in dom["inputs"]:
                # what the second instance is made from: other values in the same shape
                insts["b"] = dict(inst)
                if i % 4 > 1:
                    # files of the one replace those of the other
                    insts = {x: dict(v, slot="f", gasnoise=1) for x, v in insts.items()}
            brng = np.random.default_rng([vlib.SEED, di, i, 5])
            sh = share and (i % 3 != 2)
            j = concrete(f"{prop}/{di}/{i}", insts, h, [vlib.SEED, di, i], os.path.join(scratch, f"l{di}_{i}"), brng,
                         fresh=fresh, share=sh, flip=flip)
            if sh and i % 3 == 1:
                for o in j["ops"]:
                    if "sharecfg" in o:
                        o["samecfg"] = True
            if dom.get("loose"):
                j["loose"] = True
            jobs.append(j)
    return jobs


def run(prop, pattern, **kw):
    def go(chk, scratch):
        jobs = make(chk, prop, scratch, **kw)
        for j in jobs[:2]:
            chk.sample(system.brief(j))
        system.report(chk, judge(chk, jobs, scratch), jobs, pattern)
    return go
