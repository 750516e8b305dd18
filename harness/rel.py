"""Properties about runs that must agree: variants of the same inputs, judged by spec/LifeTrace.tla."""
import os
import re

import numpy as np

import families
import gen
import life
import scen
import system
import vlib


def _params(d, seed, labels):
    P = life.pools(d, np.random.default_rng(list(seed) + [77]))
    return dict(udm=P["th"][labels[0]], emi=P["em"][labels[1]], carbon=P["ca"][labels[2]])


def variants(ident, base, vs, runs, seed, tmp, shortest=None):
    """instances made from variants of the same values, each with the same runs"""
    insts = {"a": base}
    for i, v in enumerate(vs):
        insts[f"v{i}"] = dict(base, **v, **{"as": "a"})
    ops = []
    for name in insts:
        ops.append(dict(op="new", inst=name))
        for labels, out in runs:
            ops.append(dict(op="run", inst=name, p=_params(shortest or base, seed, labels), dict=True, carbonout=out))
    return dict(id=ident, seed=list(seed), insts=insts, ops=ops, tmp=tmp)


THL = ["none", "few", "all", "delta"]
EML = ["none", "few", "all", "just"]
CAL = ["none", "few", "all", "resp"]


def draw(rng, mode, k=1):
    out = []
    for _ in range(k):
        lab = (str(rng.choice(THL)), str(rng.choice(EML)), str(rng.choice(CAL)))
        out.append((lab if mode != "rf" else (lab[0], "none", "none"), bool(rng.random() < 0.5)))
    return out


def count(q, t):
    return q if vlib.TIER != "thorough" else t


def beyond_control(fails, tag):
    """failures of traces .../<tag>i that do not already show in the control .../ci: not in the same clause,
    and not after the control has left the specification"""
    control = {(f["trace"].replace("/c", "/" + tag), f["clause"]) for f in fails if "/c" in f["trace"]}
    years = {}
    for f in fails:
        if "/c" in f["trace"]:
            m = re.search(r"year (\d+)", f["where"])
            k = f["trace"].replace("/c", "/" + tag)
            years[k] = min(years.get(k, 9999), int(m.group(1)) if m else 0)
    mine = []
    for f in fails:
        if "/" + tag not in f["trace"] or (f["trace"], f["clause"]) in control:
            continue
        m = re.search(r"year (\d+)", f["where"])
        if (int(m.group(1)) if m else 0) <= years.get(f["trace"], 9999):
            mine.append(f)
    return mine


# ---- C03: values given are values used
def c03(chk, scratch):
    life.run("C03", r"")(chk, scratch)
    jobs = []
    for fi, (name, share, dims, runs) in enumerate(families.FAM["C03"]):
        want = max(8, int(round(count(*families.COUNT["C03"]) * share)))
        scens, cov = gen.scenarios(dims, want, scratch, 1000 * vlib.SEED + 17 * fi + 1)
        chk.cov.setdefault("families", {})[name] = dict(histories=len(scens), **cov)
        for i, s in enumerate(scens):
            j = gen.job(f"C03/v{name}{i}", s, [vlib.SEED, fi, i], os.path.join(scratch, f"v{name}{i}"), runs)
            # the same without parameters, and the years the inputs do not have
            c = gen.job(f"C03/c{name}{i}", {k: v for k, v in s.items() if not gen.is_run(k)}, [vlib.SEED, fi, i], os.path.join(scratch, f"c{name}{i}"), 1)
            jobs += [j, c]
    # every parameter in turn with every kind of value
    plan = [(k, i) for k in scen.KINDS for i in range(15)]
    rng = np.random.default_rng([vlib.SEED, 303])
    for mi, (th, ca) in enumerate([("default", "default"), ("twolayer", "box"), ("default", "box"), ("twolayer", "default")][: count(2, 4)]):
        order = [plan[x] for x in rng.permutation(len(plan))]
        for b in range(0, len(order), 8):
            y0 = int(rng.choice([1993, 1996]))
            d = dict(mode="em", y0=y0, n=18, thermal=th, carbon=ca, emstart=y0 + int(rng.integers(0, 3)), idtm=6, noise="strong",
                     sv="data", vcols=12, gasform="file", emform="data", concform="data")
            ops = [dict(op="new", inst="a")]
            for k, i in order[b : b + 8]:
                c = f"each:{k}:{i}"
                ops.append(dict(op="run", inst="a", udm=c, emi=c, carbon=c, dict=True, carbonout=bool(rng.random() < 0.5)))
            ident = f"{mi}_{b}"
            for tag, oo in (("v", ops), ("c", ops[:1] + [dict(op="run", inst="a", dict=True, carbonout=True)])):
                jobs.append(dict(id=f"C03/{tag}each{ident}", seed=[vlib.SEED, 303, mi, b], insts={"a": d}, ops=oo, tmp=os.path.join(scratch, f"{tag}e{ident}")))
    fails = system.judge(chk, jobs, scratch)
    system.report(chk, beyond_control(fails, "v"), jobs, families.CLAUSES["C03"])
    chk.sample(system.brief(jobs[0]))


# ---- C07
PERT = families.ec(n=[12, 22], y0=[1995, 1991, 1900], idtm=[6], table=["v1", "ar6", "wmo", "wmonew"], emstart=["default", "mid", "first", "after"],
                   noise=["noisy", "strong"], regional=["none", "none", "BC", "SO2+OC"], pem=[2, 5], pforc=[3, 6], pemform=["file", "data"],
                   pforcform=["file", "data"], gasform=["file", "data"], emform=["file", "data"], sv=["off", "data"], shuffle=[0, 1])


def c07(chk, scratch):
    want = count(24, 240)
    dims = dict(PERT, r1_udm=["none", "few"], r1_emi=["none", "few"], r1_just=families.JUST, r1_delta=[0, 1],
                r2_emi=["none", "all"], r2_carbonout=[True, False])
    scens, cov = gen.scenarios(dims, want, scratch, 1000 * vlib.SEED + 3)
    chk.cov["families"] = cov
    jobs = []
    for i, s in enumerate(scens):
        j = gen.job(f"C07/p{i}", s, [vlib.SEED, 0, i], os.path.join(scratch, f"p{i}"), 2)
        c = gen.job(f"C07/c{i}", s, [vlib.SEED, 0, i], os.path.join(scratch, f"c{i}"), 2)
        c["insts"]["a"].update(pem=0, pforc=0)
        jobs += [j, c]
    fails = system.judge(chk, jobs, scratch)
    # what fails without perturbations as well is not about perturbations
    mine = beyond_control(fails, "p")
    system.report(chk, mine, jobs, r"")
    for j in jobs[:2]:
        chk.sample(system.brief(j))
    # perturbations that come to the same
    jobs = []
    scens, _ = gen.scenarios(PERT, count(16, 120), scratch, 1000 * vlib.SEED + 4)
    for i, s in enumerate(scens):
        d = gen.dims_of(s)
        d["pexact"] = 1
        rng = np.random.default_rng([vlib.SEED, 4, i])
        vs = [dict(pemvar="permute", pforcvar="permute"), dict(pemvar="split", pforcvar="split"),
              dict(pemvar="baked"), dict(pemform="data", pforcform="data", pforcvar="permute"), dict(pemform="file", pforcform="file"),
              dict(pem=0, pforc=0), dict(pemvar="zero", pforcvar="zero"), dict(pemvar="cancel", pforcvar="cancel"),
              dict(pem=0, pforcvar="cancel"), dict(pemvar="zero", pforc=0)]
        pick = [0, 1, 2, 3, 4] if i % 2 == 0 else [5, 6, 7, 8, 9]
        if i % 2 == 1:
            d0 = dict(d, pem=0, pforc=0)
        jobs.append(variants(f"C07/s{i}", d if i % 2 == 0 else d0,
                             [dict(dict(pem=d["pem"], pforc=d["pforc"]), **vs[q]) for q in pick], draw(rng, d["mode"]),
                             [vlib.SEED, 4, i], os.path.join(scratch, f"s{i}")))
    system.report(chk, life.judge(chk, jobs, scratch), jobs, r"")
    chk.sample(system.brief(jobs[0]))


# ---- C08
def c08(chk, scratch):
    dims = dict(mode=["em", "conc", "rf", "em"], y0=[1990, 1750, 1900, 2070], n=[24, 36], thermal=families.THERMAL, carbon=["default", "box"], emstart=["default", "first", "mid", "after"],
                idtm=[6, 12], table=["v1", "wmonew"], noise=["noisy", "strong", "negative", "hump", "hump"], nat=["file", "data"], luc=["file", "data"], pem=[0, 4], pforc=[0, 4], sv=["off", "file", "data"],
                vcols=[12, 1], gasform=["file", "data"], emform=["file", "data"], concform=["file", "data"],
                forc=["array", "hemi", "comp"], fshape=["walk", "strong"], w_aero=[0, 1], forcform=["file", "data"])
    scens, cov = gen.scenarios(dims, count(60, 600), scratch, 1000 * vlib.SEED + 11)
    chk.cov["families"] = cov
    jobs = []
    for i, s in enumerate(scens):
        d = gen.dims_of(s)
        rng = np.random.default_rng([vlib.SEED, 8, i])
        n = d["n"]
        d["nfull"] = n
        d["slot"] = "f" if i % 3 == 1 else ""
        # the shortest window still has the reference years
        low = 21 if d["y0"] == 1990 else 8
        # a last year that ends a century or decade, if there is one
        cut1 = max(range(low, n - 1), key=lambda k: ((d["y0"] + k - 1) % 100 == 0, (d["y0"] + k - 1) % 10 == 0, rng.random()))
        cut2 = int(rng.integers(low, n))
        y0 = d["y0"]
        e1 = y0 + int(rng.integers(1, n - 2))
        e2 = y0 + int(rng.integers(low, n - 2)) if d["y0"] == 1990 else y0 + int(rng.integers(1, n - 2))
        vs = [dict(n=cut1), dict(edit=e1), dict(n=cut2, edit=y0 + min(cut2 - 2, e2 - y0)), dict(n=n - 1, after=3),
              dict(edit=e2, editonly=[str(rng.choice(["em", "conc", "sun", "vn", "vs", "luc", "natCH4", "forc"]))])]
        short = dict(d, n=low)
        jobs.append(variants(f"C08/{i}", d, vs, draw(rng, d["mode"]), [vlib.SEED, 8, i], os.path.join(scratch, f"h{i}"), shortest=short))
    system.report(chk, life.judge(chk, jobs, scratch), jobs, r"")
    for j in jobs[:3]:
        chk.sample(system.brief(j))


# ---- C21
def c21(chk, scratch):
    dims = dict(mode=["em", "conc", "em", "conc", "rf"], y0=[1991, 1750, 1995, 1751, 2310, 1720], n=[14, 22, 2, 3], thermal=families.THERMAL, carbon=["default", "box"],
                emstart=["default", "first", "mid", "after"], idtm=[6], table=["v1", "ar6", "wmonew"], newgas=[0, 1], gasnoise=[0, 1], noise=["noisy", "strong"], nat=["file"],
                luc=["file"], pem=[0, 3], pforc=[0, 3], sv=["file", "same_file", "default", "off"], vcols=[12, 1, 4],
                forc=["arrayfile", "hemi", "comp"], fshape=["walk", "strong"], w_aero=[0, 1], forcform=["file"])
    scens, cov = gen.scenarios(dims, count(40, 400), scratch, 1000 * vlib.SEED + 21)
    chk.cov["families"] = cov
    jobs = []
    for i, s in enumerate(scens):
        d = gen.dims_of(s)
        rng = np.random.default_rng([vlib.SEED, 21, i])
        d["slot"] = "f" if (i // 4) % 2 else ""
        sv = d.get("sv", "off")
        alt = {"file": ["data", "file"], "same_file": ["single_file", "single_data", "same_data"], "default": ["default_data", "default_one"],
               "off": ["unswitched", "unswitched0"]}[sv]
        k = i % 4
        if d["mode"] == "rf":
            if d["forc"] == "arrayfile":
                vs = [dict(forc="array", sv=alt[0]), dict(forc="hemi", samehemi=1, before=3), dict(forc="comp", fone=1, before=1, after=4), dict(forc="array", after=5, sv=alt[-1])]
                d["w_aero"] = 0
            elif d["forc"] == "hemi":
                vs = [dict(forcform="data", sv=alt[0]), dict(before=5), dict(after=7, sv=alt[-1]), dict(before=2, after=2, forcform="data")]
            else:
                vs = [dict(before=5, sv=alt[0]), dict(after=7), dict(before=1, after=1, sv=alt[-1])]
            runs = draw(rng, "rf", 2)
        else:
            vs = [dict(gasform="data", sv=alt[0]), dict(emform="data", nat="data"), dict(concform="data", luc="data"),
                  dict(gasform="data", emform="data", concform="data", nat="data", luc="data", pemform="data", pforcform="data", sv=alt[-1]),
                  dict(before=6, after=5), dict(before=11, after=9, emform="data", concform="data", nat="data", sv=alt[0]),
                  dict(shuffle=1)]
            if k == 1:
                d["nat"] = "none"
                d["natzero"] = [[], ["CH4", "N2O"], ["CH4"], ["N2O"]][(i // 4) % 4]
                vs = [dict(nat="flat"), dict(nat="flat", emform="data"), dict(gasform="data", sv=alt[0])]
            if k == 2:
                d["luc"] = "default"
                vs = [dict(luc="default_data"), dict(luc="default_data", gasform="data", sv=alt[-1]), vs[4], vs[5]]
            runs = draw(rng, d["mode"], 1)
        jobs.append(variants(f"C21/{i}", d, vs, runs, [vlib.SEED, 21, i], os.path.join(scratch, f"f{i}")))
    system.report(chk, life.judge(chk, jobs, scratch), jobs, r"")
    # and the values are used for their years
    want = count(24, 240)
    dims = families.ec(n=[8, 20], emstart=["first", "mid", "default"], idtm=[6], noise=["noisy"], nat=["file", "data", "none"], luc=["file", "data", "default"],
                       pem=[0, 2], pforc=[0, 2], sv=families.SV, vcols=[12, 1, 4], pemform=["file", "data"], pforcform=["file", "data"], **families.FORMS)
    scens, _ = gen.scenarios(dims, want, scratch, 1000 * vlib.SEED + 22)
    sj = [gen.job(f"C21/y{i}", s, [vlib.SEED, 22, i], os.path.join(scratch, f"y{i}"), 1) for i, s in enumerate(scens)]
    system.report(chk, system.judge(chk, sj, scratch), sj, r"em\.|conc\.|sun|volc|years|exception|forc\.LANDUSE")
    for j in jobs[:3]:
        chk.sample(system.brief(j))
