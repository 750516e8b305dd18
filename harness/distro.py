"""C18: configurations from distributions, judged by spec/DistroTrace.tla; the dealing out into chunks is model checked
in spec/Distro.tla."""
import contextlib
import copy
import io
import json
import os
import random
import shutil
import traceback

import numpy as np

import gen
import record
import scen
import vlib
from vlib import real

NAMES = {
    "udm": sorted(set(scen.RANGES["udm"]) | set(scen.RANGES["twolayer"])),
    "carbon": sorted(set(scen.RANGES["joos"]) | set(scen.RANGES["box"])) + ["rb_coef0", "rb_tim3", "rs_coef2", "rs_tim11", "rb_function"],
    "emi": sorted(scen.RANGES["emi"]) + ["qfoo", "ref_yr", "beta", "foa", "rlam", "K", "w", "rb", "rs", "tim0", "npp0"],
}


def value(v):
    if isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
        return dict(k="num", v=real(v))
    return dict(k="txt", s=json.dumps(v, sort_keys=True))


def cfg(c):
    extra = sorted(set(c) - {"pamset_udm", "pamset_emiconc", "pamset_carbon", "Index"})
    return dict(id=str(c["Index"]) + "".join(extra), **{a: {k: value(v) for k, v in c[b].items()}
                                                        for a, b in (("udm", "pamset_udm"), ("emi", "pamset_emiconc"), ("carbon", "pamset_carbon"))})


def cfgs(cs):
    return [cfg(c) for c in cs]


def meta(m):
    return json.dumps(m, sort_keys=True)


METAS = dict(none=None, empty={}, flat={"who": "x", "n": 3}, deep={"a": {"b": [1, 2.5, None, "æ"]}, "configurations": []}, text="just text", zero=0, false=False,
             list=[1, {"a": 2}])


def pick(rng, kind, seed):
    """distribution: name -> interval"""
    if kind == "default":
        return None
    pool = {"udm": NAMES["udm"], "carbon": NAMES["carbon"], "emi": NAMES["emi"]}
    if kind in pool:
        names = rng.sample(pool[kind], rng.randrange(1, len(pool[kind]) + 1))
    elif kind == "one":
        names = [rng.choice(sum(pool.values(), []))]
    elif kind == "all":
        names = sum(pool.values(), [])
    else:
        names = sum((rng.sample(p, rng.randrange(1, 5)) for p in pool.values()), [])
    rng.shuffle(names)
    out = {}
    for n in names:
        if n == "rb_function":
            continue
        lo = rng.choice([0.0, -3.5, 1e-9, 1e6, 2, 7.25]) + rng.random()
        out[n] = [lo, lo + rng.choice([1e-6, 1.0, 10, 1e5]) * (1 + rng.random())]
        if rng.random() < 0.2:
            out[n] = tuple(out[n])
        if rng.random() < 0.1:
            out[n] = np.array(out[n])
    return out


def fix(rng, kind, dist, forc):
    if kind == "default":
        return None
    if kind == "none":
        return {}
    every = sum(NAMES.values(), [])
    names = rng.sample(every, {"few": 3, "overlap": 4, "many": 20, "every": 2}[kind])
    if kind == "overlap":
        names += rng.sample(sorted(dist), max(1, len(dist) // 2)) if dist else []
    if kind == "every":
        names += sorted(dist or [])
    out = {}
    for n in dict.fromkeys(names):
        out[n] = rng.choice([0, 1, -2.5, 3.0e-7, 40, 1 / 3, 12345678.9])
        if n not in NAMES["udm"] and rng.random() < 0.15:
            out[n] = rng.choice(["TAR", {"coeffs": [0.5, 0.5], "timescales": [1.0, 4.0]}, [1, 2], None, True])
    return out


def history(case):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return _history(case)
    except Exception:  # noqa
        text = traceback.format_exc()
        if os.path.join(record.data.REPO, "src") in text:
            return dict(id=case["id"], events=[dict(exc=text[-600:])], mutated=[])
        return dict(id=case["id"], harness=text)


def _history(case):
    from ciceroscm.parallel import _configdistro as cd
    from ciceroscm.parallel.distributionrun import DistributionRun

    d = case["d"]
    rng = random.Random(case["seed"])
    np.random.seed(rng.randrange(2**31))
    os.makedirs(case["tmp"], exist_ok=True)
    defaults = copy.deepcopy((cd.prior_flat, cd.set_values_default, cd.options_default))
    trace = dict(id=case["id"], events=[], mutated=[])
    given = []
    objs = []
    for o in ("a", "b")[: d["objects"]]:
        if o == "b" and d["share"] == "all":
            dist, fixed, opts = given[0]
        else:
            dist = pick(rng, d[f"{o}dist"], case["seed"])
            fixed = fix(rng, d[f"{o}fixed"], dist, d[f"{o}forc"])
            opts = {}
            if d[f"{o}forc"] or rng.random() < 0.5:
                opts["forc"] = d[f"{o}forc"]
            if d[f"{o}method"] != "latin" or rng.random() < 0.5:
                opts["method"] = d[f"{o}method"]
            if not opts and rng.random() < 0.5:
                opts = None
            if o == "b" and d["share"] == "fixed" and given[0][1] is not None:
                fixed = given[0][1]
        given.append((dist, fixed, opts))
        kw = {}
        if dist is not None:
            kw["distro_dict"] = dist
        if fixed is not None:
            kw["setvalues"] = fixed
        if opts is not None:
            kw["options"] = opts
        objs.append((copy.deepcopy((dist, fixed, opts)), kw))
    before = copy.deepcopy(given)
    made = []
    for (was, kw) in objs:
        try:
            made.append(cd._ConfigDistro(**kw))
        except Exception:  # noqa
            trace["events"].append(dict(op="make", exc=traceback.format_exc()[-500:]))
            return trace
    last = None
    for c in case["calls"]:
        ob = made[c["on"] % len(made)]
        dist, fixed, opts = objs[c["on"] % len(made)][0]
        opts = opts or {}
        dist = defaults[0] if dist is None else dist
        fixed = defaults[1] if fixed is None else fixed
        ev = dict(op="make", dist={n: [real(v[0]), real(v[1])] for n, v in dist.items()} or {"": []}, fixed={n: value(v) for n, v in fixed.items()},
                  forc=bool(opts.get("forc", False)), method="latin" if opts.get("method", "latin") == "latin" else "gaussian", n=c["n"], m=c["m"] or 0,
                  pre=c["pre"], wants=bool(c["file"]), files=[], meta=meta(METAS[c["meta"]]), chunks=[], nested=False)
        if not dist:
            ev["dist"] = {}
        trace["events"].append(ev)
        where = os.path.join(case["tmp"], f"c{len(trace['events'])}" + (".json.d" if c["file"] == "dotdir" else ""))
        os.makedirs(where)
        name = dict(json="cfg.json", plain="cfg", dotdir="x.json", twice="a.json.json", other="cfg.txt").get(c["file"])
        try:
            if c["how"] == "run" and not c["m"]:
                run = DistributionRun(ob, indexer_pre=c["pre"], numvalues=c["n"])
                got = run.cfgs
                ev["wants"] = False
            else:
                kw = dict(indexer_pre=c["pre"]) if c["pre"] or rng.random() < 0.5 else {}
                if c["m"] or rng.random() < 0.5:
                    kw["max_chunk_size"] = c["m"] or None
                if METAS[c["meta"]] is not None:
                    kw["meta_info"] = METAS[c["meta"]]
                got = ob.make_config_lists(c["n"], json_fname=os.path.join(where, name) if name else None, **kw)
            ev["nested"] = bool(got) and isinstance(got[0], (list, tuple))
            ev["chunks"] = [cfgs(x) for x in got] if ev["nested"] else [cfgs(got)]
            for f in sorted(os.listdir(where)):
                run = DistributionRun(None, json_file_name=os.path.join(where, f))
                ev["files"].append(dict(cfgs=cfgs(run.cfgs), meta=meta(run.meta_info)))
                last = os.path.join(where, f)
        except Exception:  # noqa
            ev["exc"] = traceback.format_exc()[-500:]
            break
        if c["trip"] != "none":
            # a chain of files
            ev = dict(op="trip", cfgs=[], got=[], meta="", gotmeta="")
            trace["events"].append(ev)
            try:
                if last and rng.random() < 0.6:
                    run = DistributionRun(None, json_file_name=last)
                else:
                    run = DistributionRun(ob, numvalues=c["n"], indexer_pre=c["pre"])
                ev["cfgs"] = cfgs(run.cfgs)
                want = run.meta_info
                for hop in range(2):
                    path = os.path.join(where, "trip.json" if c["trip"] == "same" else f"trip{hop}.txt")
                    new = METAS[rng.choice(sorted(METAS))]
                    if new is None:
                        run.write_configs_to_json(path)
                    else:
                        run.write_configs_to_json(path, meta_info=new)
                        want = new
                    run = DistributionRun(None, json_file_name=path)
                ev["got"] = cfgs(run.cfgs)
                ev["meta"], ev["gotmeta"] = meta(want), meta(run.meta_info)
            except Exception:  # noqa
                ev["exc"] = traceback.format_exc()[-500:]
                break
    for i, (a, b) in enumerate(zip(before, given)):
        for what, x, y in zip(("distribution", "fixed", "options"), a, b):
            trace["mutated"] += [f"{what} {i} {k}" for k in record.changed(x, y)]
            if what != "options" and x is not None and set(x) != set(y):
                trace["mutated"].append(f"{what} {i}")
    for what, x, y in zip(("prior_flat", "set_values_default", "options_default"), defaults, (cd.prior_flat, cd.set_values_default, cd.options_default)):
        if not record.same(x, y) or set(x) != set(y):
            trace["mutated"].append(what)
    shutil.rmtree(case["tmp"], ignore_errors=True)
    return trace


def c18(chk, scratch):
    quick = vlib.TIER != "thorough"
    p = os.path.join(scratch, "distro.json")
    bounds = dict(n=24, m=27) if quick else dict(n=60, m=64)
    with open(p, "w", encoding="utf8") as f:
        json.dump(bounds, f)
    r = vlib.tlc("Distro", scratch, env=dict(DOM=p))
    chk.add_tlc(r)
    chk.cov["model_checked"] = dict(bounds=bounds, distinct_states=r["distinct"])
    kinds = ["default", "udm", "carbon", "emi", "one", "mixed", "all"]
    dims = dict(objects=[1, 2], adist=kinds, afixed=["default", "none", "few", "overlap", "many", "every"], aforc=[False, True], amethod=["latin", "latin", "gaussian", "uniform"],
                bdist=kinds, bfixed=["default", "none", "few", "overlap"], bforc=[False, True], bmethod=["latin", "gaussian"], share=["none", "all", "fixed"])
    for i in range(3):
        dims.update({f"c{i}n": [1, 2, 3, 7, 10, 24, 100, 256], f"c{i}m": [0, 1, 2, 3, 7, 10, 24, 25, 101, 300], f"c{i}pre": ["", "x", "run_1_", "0"], f"c{i}file": ["", "json", "json", "plain", "dotdir", "twice", "other"],
                     f"c{i}meta": sorted(METAS), f"c{i}how": ["list", "list", "run"], f"c{i}trip": ["none", "new", "same"], f"c{i}on": [0, 1]})
    scens, cov = gen.scenarios(dims, 90 if quick else 900, scratch, 1000 * vlib.SEED + 18)
    chk.cov["families"] = cov
    cases = []
    for i, s in enumerate(scens):
        calls = [dict(n=s[f"c{j}n"], m=s[f"c{j}m"], pre=s[f"c{j}pre"], file=s[f"c{j}file"], meta=s[f"c{j}meta"], how=s[f"c{j}how"], trip=s[f"c{j}trip"], on=s[f"c{j}on"])
                 for j in range(3)]
        # the biggest tables once in a while only
        big = [s["adist"] in ("all", "default"), s["bdist"] in ("all", "default")]
        for c in calls:
            if big[c["on"] % s["objects"]] and c["n"] > 24 and i % 6:
                c["n"] = c["n"] % 24 + 1
        cases.append(dict(id=f"C18/{i}", d=s, calls=calls, seed=vlib.SEED * 100003 + i, tmp=os.path.join(scratch, f"d{i}")))
    import multiprocessing as mp
    for b in range(0, len(cases), 150):
        part = cases[b : b + 150]
        with mp.get_context("fork").Pool(8) as pool:
            traces = pool.map(history, part, chunksize=1)
        for t in traces:
            if "harness" in t:
                raise RuntimeError(f"harness fault in {t['id']}: {t['harness']}")
        by = {c["id"]: c for c in part}
        path = os.path.join(scratch, "distrotraces.json")
        with open(path, "w", encoding="utf8") as f:
            json.dump(dict(traces=traces), f)
        r = vlib.tlc("DistroTrace", scratch, env=dict(TRACES=path), timeout=3000)
        chk.add_tlc(r)
        done = set()
        for ln in r["lines"]:
            v = vlib.tla_value(ln)
            if v[0] == "FAIL":
                chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], by[v[1]])
            elif v[0] == "DONE":
                done.add(v[1])
        if set(by) - done - {x["id"].split(" ")[0] for x in chk.viol}:
            raise vlib.TlcError(f"DistroTrace: no verdict on {sorted(set(by) - done)[:3]}")
        chk.cov["traces_validated_against_impl"] += len(part)
        chk.cov["configurations"] = chk.cov.get("configurations", 0) + sum(len(c) for t in traces for e in t["events"] for c in e.get("chunks", []))
    for c in cases[:3]:
        chk.sample(c)
