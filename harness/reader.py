"""C19: named output variables, judged by spec/ReaderTrace.tla."""
import os

import families
import gen
import system
import vlib


def entries(scratch):
    """[name, kind, column] of all names"""
    r = vlib.tlc("ReaderTrace", scratch, env=dict(NAMES="1"), workers=1)
    out = [vlib.tla_value(ln)[1:4] for ln in r["lines"]]
    if len(out) < 100:
        raise vlib.TlcError("no names from ReaderTrace")
    return out


def names(scratch):
    return [e[0] for e in entries(scratch)]


def c19(chk, scratch):
    dims = dict(mode=["em", "conc", "em", "conc", "rf"], y0=[1995, 1750, 1900, 2000, 2120], n=[11, 16, 40], thermal=families.THERMAL, carbon=["default", "box", "default"],
                emstart=["default", "first", "mid"], idtm=[6], table=["v1", "ar6", "wmo", "wmonew", "wmonew"], dropgas=[0, 0, 6], newgas=[0, 1], gasnoise=[0, 1], alphas=[0, 1],
                regional=["none", "none", "BC", "SO2+OC"], noise=["noisy", "strong"], pem=[0, 3], pforc=[0, 4], sv=["off", "default", "file", "data"], vcols=[12, 1],
                gasform=["file", "data"], emform=["file", "data"], concform=["file", "data"], nat=["file", "none"], shuffle=[0, 1],
                forc=["array", "hemi", "comp"], fshape=["walk", "strong"],
                r1_udm=["none", "few"], r1_emi=["none", "few", "all"], r1_cpars=["none", "few"], r1_just=["none", "none", "CO2", "CH4"], r1_carbonout=[True, False, True],
                r2_emi=["none", "all"], r2_carbonout=[True, False])
    want = 48 if vlib.TIER != "thorough" else 480
    scens, cov = gen.scenarios(dims, want, scratch, 1000 * vlib.SEED + 19)
    chk.cov["families"] = cov
    ask = names(scratch)
    chk.cov["names"] = len(ask)
    jobs = []
    for i, s in enumerate(scens):
        j = gen.job(f"C19/{i}", s, [vlib.SEED, 19, i], os.path.join(scratch, f"r{i}"), 2)
        j["read"] = ask
        jobs.append(j)
    # over centuries
    for i, (mode, th, n) in enumerate([("rf", "twolayer", 240), ("conc", "twolayer", 215), ("rf", "default", 205)]):
        s = dict(mode=mode, y0=1760 - 5 * i, n=n, thermal=th, carbon="default", idtm=2, sv="data", noise="noisy", forc="comp", fshape="walk", emstart="first", r1_carbonout=mode == "conc")
        j = gen.job(f"C19/l{i}", s, [vlib.SEED, 119, i], os.path.join(scratch, f"l{i}"), 1)
        j["read"] = ask
        jobs.append(j)
    system.report(chk, system.judge(chk, jobs, scratch, module="ReaderTrace"), jobs, r"")
    for j in jobs[:3]:
        chk.sample(system.brief(j))
