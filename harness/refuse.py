"""C24: what cannot be used is refused and leaves nothing behind, judged by spec/RefuseTrace.tla (model: spec/Refuse.tla)."""
import copy
import json
import multiprocessing as mp
import os
import shutil
import traceback

import numpy as np
import pandas as pd

import record
import scen
import vlib

NOWHERE = "/nonexistent/verif"
# components whose own emissions are used
OWN = ["SO2", "BC", "OC", "NOx", "CO", "NMVOC", "CO2_FF", "CO2_AFOLU"]


class Case:
    """inputs with a fault: what is handed to the code, and what it holds"""

    def __init__(self, d, seed, tmp, tag, fault):
        self.inp = inp = scen.Inputs(d, seed, tmp, tag)
        self.rng = rng = np.random.default_rng(list(seed) + [7])
        self.c = c = inp.cfg()
        kind, what = fault[:2]
        which = fault[2] if len(fault) > 2 else None
        ec = inp.ec
        sv = d.get("sv", "off") != "off"
        self.s = s = dict(mode=d["mode"], ny0=inp.y0, n=inp.n, emstart=inp.emstart, thermal=d["thermal"], carbon=d.get("carbon", "default"), absent=[], nofile=[],
                          emyears=[], concyears=[], natch4=[], natn2o=[], sunvolc=sv, sun=inp.n, vn=inp.n, vs=inp.n, luc=inp.n, forc=[], gases={"": dict(em="", conc="-")},
                          emunits={"": ""}, concunits={"": ""}, afolu="", emcols=[], conccols=[], own=[], resp=[], sound=kind == "ok")
        if ec:
            fr = dict(emissions=inp.em, concentrations=inp.conc)
            un = dict(emissions=list(inp.emunits), concentrations=list(inp.concunits))
            s["gases"] = {g: dict(em=r["em_unit"], conc=r["conc_unit"]) for g, r in inp.gases.items() if g not in
                          ("LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS")}
            s["own"] = [x for x in OWN if x in inp.em.columns and (x in inp.gases or x in ("CO", "CO2_FF", "CO2_AFOLU"))]
        if kind in ("late", "early", "gap") and what in ("emissions", "concentrations"):
            fr[what] = self.cut(fr[what], kind)
        if kind in ("lacks", "lacks and unit"):
            f = fr["emissions"]
            conc = [g for g, r in inp.gases.items() if r["conc_unit"] != "-" and g != "CO2"]
            pool = [x for x in f.columns if x in conc or (x in s["own"] and not x.startswith("CO2"))] if what == "emissions" or kind != "lacks" else conc
            x = which or str(rng.choice(pool))
            where = "emissions" if kind != "lacks" else what
            j = [i for i, n in enumerate(fr[where].columns) if n != x]
            fr[where] = fr[where].iloc[:, j]
            un[where] = [un[where][i] for i in j]
        if kind in ("unit", "lacks and unit"):
            where = "concentrations" if what == "concentrations" else "emissions"
            if what == "afolu":
                i = list(fr[where].columns).index("CO2_AFOLU")
            else:
                some = [j for j, n in enumerate(fr[where].columns) if (n in s["gases"] or n.startswith("CO2_")) and which in (None, n)]
                i = int(rng.choice(some or [0]))
            others = [j for j, n in enumerate(fr[where].columns) if n in s["gases"] and un[where][j] != un[where][i]]
            if rng.random() < 0.4 and others and not which:
                # the units of two gases are exchanged
                j = int(rng.choice(others))
                un[where][i], un[where][j] = un[where][j], un[where][i]
            else:
                un[where][i] = {"Gg": "Tg", "Tg": "Gg", "ppt": "ppb", "ppb": "ppt", "ppm": "ppb"}.get(un[where][i], "Mt")
        if ec:
            for w in fr:
                # units are only in files
                form = "file" if "unit" in kind or what == w and kind == "nofile" else ("data" if w + "_data" in c else "file")
                c.pop(w + "_file", None)
                c.pop(w + "_data", None)
                if form == "data":
                    c[w + "_data"] = fr[w].copy()
                else:
                    c[w + "_file"] = inp.year_file(w, fr[w], un[w], "f" + w)
                    units = {("CO2" if n == "CO2_FF" else n): u for n, u in zip(fr[w].columns, un[w]) if n != "CO2_AFOLU"}
                    s["emunits" if w == "emissions" else "concunits"] = units
                    if w == "emissions":
                        s["afolu"] = dict(zip(fr[w].columns, un[w])).get("CO2_AFOLU", s["gases"]["CO2"]["em"])
            s["emyears"], s["concyears"] = [int(y) for y in fr["emissions"].index], [int(y) for y in fr["concentrations"].index]
            s["emcols"], s["conccols"] = list(fr["emissions"].columns), list(fr["concentrations"].columns)
            for g in ("ch4", "n2o"):
                w = f"nat_{g}"
                if w + "_data" in c:
                    f = c[w + "_data"]
                    if what == w:
                        f = f.iloc[: -int(rng.integers(1, 5))] if kind == "short" else self.cut(f, kind)
                        c[w + "_data"] = f.copy()
                    s["nat" + g] = [int(y) for y in f.index]
                elif w + "_file" in c:
                    m = 751
                    if what == w:
                        s["sound"] = False
                        # a file has no years: it can only end too early
                        m = inp.y1 - 1750 + 1 - int(rng.integers(1, 5))
                        with open(c[w + "_file"], encoding="utf8") as f:
                            lines = f.read().split("\n")[:m]
                        c[w + "_file"] = inp.write(w + "short", lines)
                    s["nat" + g] = list(range(1750, 1750 + m))
                else:
                    s["nat" + g] = list(range(inp.y0, inp.y1 + 1))
            if kind == "resp":
                self.bad_response(what, c)
        else:
            self.forcing(kind, what)
        for w, x in (("sun", "rf_sun"), ("volc_n", "rf_volc_n"), ("volc_s", "rf_volc_s"), ("luc", "rf_luc")):
            if what != w:
                continue
            if kind == "nofile":
                c.pop(x + "_data", None)
                c[x + "_file"] = NOWHERE
                if sv or w == "luc":
                    s["nofile"] = [w]
            elif kind == "short":
                less = int(rng.integers(1, 5))
                if x + "_data" in c:
                    c[x + "_data"] = c[x + "_data"].iloc[:-less].copy()
                elif x + "_file" in c:
                    with open(c[x + "_file"], encoding="utf8") as f:
                        lines = f.read().split("\n")[: inp.y1 - 1750 + 1 - less]
                    c[x + "_file"] = inp.write(w + "short", lines)
                else:
                    continue
                s[{"sun": "sun", "volc_n": "vn", "volc_s": "vs", "luc": "luc"}[w]] = inp.n - less
        if kind == "nofile" and what in ("gaspam", "emissions", "concentrations", "perturb_em", "perturb_forc"):
            c.pop(what + "_data", None)
            c[what + "_file"] = NOWHERE
            s["nofile"] = [what]
        if kind == "absent":
            c.pop(what + "_data", None)
            c.pop(what + "_file", None)
            s["absent"] = [what]
        if kind == "name":
            c[what + "_model" if what == "thermal" else "carbon_cycle_model"] = s[what] = str(rng.choice(["two_layer", "boxes", "Default", "udm"]))

    def cut(self, frame, kind):
        m = int(self.rng.integers(1, 4))
        y0, y1 = self.inp.y0, self.inp.y1
        if kind == "late":
            return frame.loc[y0 + m :]
        if kind == "early":
            return frame.loc[: y1 - m]
        return frame.drop(index=[int(self.rng.integers(y0 + 1, y1))])

    def forcing(self, kind, what):
        inp, c, s, rng = self.inp, self.c, self.s, self.rng
        years = list(range(inp.y0, inp.y1 + 1))
        f = c["forc_data"] if "forc_data" in c else None
        table = isinstance(f, pd.DataFrame) or "forc_file" in c and inp.d.get("forc") in ("hemi", "comp")
        keep = years
        if what == "forc" and kind != "nofile":
            s["sound"] = False
            if not table or kind in ("short", "early"):
                keep = years[: -int(rng.integers(1, 4))]
            elif kind == "late":
                keep = years[int(rng.integers(1, 4)) :]
            else:
                keep = [y for y in years if y != int(rng.integers(inp.y0 + 1, inp.y1))]
            if len(keep) == len(years):
                keep = keep[:-1]
        if kind == "nofile" and what == "forc":
            c.pop("forc_data", None)
            c["forc_file"] = NOWHERE
            s["nofile"] = ["forc"]
        elif len(keep) < len(years):
            if isinstance(f, pd.DataFrame):
                c["forc_data"] = f.loc[keep].copy()
            elif f is not None:
                c["forc_data"] = f[: len(keep)].copy()
            else:
                with open(c["forc_file"], encoding="utf8") as g:
                    lines = g.read().strip().split("\n")
                if table:
                    lines = [lines[0]] + [ln for ln in lines[1:] if int(ln.split(",")[0]) in keep]
                else:
                    lines = lines[: len(keep)]
                c["forc_file"] = inp.write("forcshort", lines)
        s["forc"] = keep

    def bad_response(self, w, p, flat=False):
        rng = self.rng
        f = scen.response(rng, w)
        how = str(rng.choice(["long", "short", "negc", "negt", "zerot"]))
        co, ti = f["coeffs"], f["timescales"]
        if how == "long":
            co = co + [0.1]
        elif how == "short":
            co = co[:-1]
        elif how == "negc":
            j = int(rng.integers(len(co)))
            co[j] = -(co[j] or 0.1)
        else:
            ti[int(rng.integers(len(ti)))] *= -1 if how == "negt" else 0
        if flat:
            p.update({f"{w}_coef{i}": x for i, x in enumerate(co)})
            p.update({f"{w}_tim{i}": x for i, x in enumerate(ti)})
        else:
            p[w + "_function"] = dict(coeffs=co, timescales=ti)
        r = [dict(w=w, nc=len(co), nt=len(ti), bad=how in ("negc", "negt", "zerot"))]
        if p is self.c:
            self.s["resp"] = r
        return r


def run_args(case, o, i):
    inp = case.inp
    rng = np.random.default_rng(list(inp.seed) + [i])
    kind, what = o["fault"]
    p = scen.run_params(dict(udm=str(rng.choice(["none", "few"])), emi=str(rng.choice(["none", "few"]))), inp, rng)
    rec = dict(resp=[], just="", ref=2010, sound=kind == "ok")
    if inp.ec:
        emi = p["emi"] = dict(p["emi"] or {})
        if o["sets"]:
            p["carbon"] = scen.pick(rng, scen.RANGES["box" if inp.spec["carbon"] == "box" else "joos"], "few")
        if kind in ("resp", "flat"):
            p["carbon"] = {}
            rec["resp"] = case.bad_response(what, p["carbon"], kind == "flat")
            if inp.spec["carbon"] != "box" and rng.random() < 0.7:
                # values that could be used, beside it
                p["carbon"].update(scen.pick(rng, scen.RANGES["joos"], "few"))
        if kind == "just":
            rec["just"] = emi["just_one"] = "FOO"
        if kind == "ref":
            emi["ref_yr"] = int(rng.choice([inp.y0 - 30, inp.y1 + 30]))
        rec["ref"] = int(emi.get("ref_yr", 2010))
    return p, rec


def execute(case, obj, p):
    q = copy.deepcopy(p)
    kept = {k: copy.deepcopy(v) for k, v in case.c.items()}
    exc = ""
    try:
        obj._run({"results_as_dict": True}, pamset_udm=q["udm"], pamset_emiconc=q["emi"], pamset_carbon=q["carbon"])
    except Exception:  # noqa
        exc = traceback.format_exc()[-400:]
    mutated = record.changed(kept, case.c)
    for w in ("udm", "emi", "carbon"):
        if p[w] is not None:
            mutated += [f"{w}.{x}" for x in record.changed(p[w], q[w])]
    return exc, mutated


def history(job):
    try:
        os.makedirs(job["tmp"], exist_ok=True)
        cwd = os.path.join(job["tmp"], "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        return _history(job)
    except Exception:  # noqa
        return dict(id=job["id"], harness=traceback.format_exc())
    finally:
        os.chdir("/")
        shutil.rmtree(job["tmp"], ignore_errors=True)


def _history(job):
    from ciceroscm import CICEROSCM

    cases, objs, inputs = {}, {}, []
    trace = dict(id=job["id"], ops=[], inputs=inputs)
    runs = {}
    for i, o in enumerate(job["ops"]):
        name = o["inst"]
        rec = dict(op=o["op"], inst=name, mutated=[], exc="", ok=True)
        if o["op"] == "new":
            case = Case(dict(job["dims"][name], mode=o["mode"]), list(job["seed"]) + [len(inputs)], job["tmp"], f"i{len(inputs)}", o["fault"])
            cases[name] = (len(inputs) + 1, case)
            inputs.append(case.s)
            before = copy.deepcopy(case.c)
            try:
                objs[name] = CICEROSCM(case.c)
                runs[name] = []
            except Exception:  # noqa
                rec["exc"], rec["ok"] = traceback.format_exc()[-400:], False
                objs.pop(name, None)
            rec["mutated"] = record.changed(before, case.c)
        elif name in objs:
            case = cases[name][1]
            p, more = run_args(case, o, i)
            rec.update(more)
            rec["exc"], rec["mutated"] = execute(case, objs[name], p)
            rec["ok"] = not rec["exc"]
            if o["fault"][0] == "ok":
                runs[name].append(p)
                if rec["ok"]:
                    rec["obs"] = record.observe(objs[name], None)
                    if case.s["sound"] and any(x["fault"][0] != "ok" for x in job["ops"][:i]):
                        # the same in a process of its own, without what was refused
                        def alone(case=case, ps=runs[name]):
                            new = CICEROSCM(copy.deepcopy(case.c))
                            for q in ps:
                                execute(case, new, q)
                            return record.observe(new, None)
                        rec["want"] = alone() if job["inprocess"] else record.forked(alone)
                        for w in ("obs", "want"):
                            rec[w]["tables"] = rec[w]["tables"] or {}
        else:
            rec.update(resp=[], just="", ref=2010, sound=True, ok=False)
        rec["in"] = cases[name][0]
        trace["ops"].append(rec)
    return trace


def c24(chk, scratch):
    quick = vlib.TIER != "thorough"
    p = os.path.join(scratch, "refuse.json")
    with open(p, "w", encoding="utf8") as f:
        json.dump(dict(insts=["a"] if quick else ["a", "b"], modes=["em", "rf"], max=3, emit=False), f)
    r = vlib.tlc("Refuse", scratch, env=dict(DOM=p))
    chk.add_tlc(r)
    chk.cov["model_checked"] = dict(instances=1 if quick else 2, operations=3, distinct_states=r["distinct"])
    with open(p, "w", encoding="utf8") as f:
        json.dump(dict(insts=list("abcdefgh"), modes=["em", "conc", "rf"], max=12, emit=True), f)
    want = 64 if quick else 700
    r = vlib.tlc("Refuse", scratch, env=dict(DOM=p), workers=1,
                 args=["-simulate", f"num={6 * want}", "-depth", "14", "-seed", str(1000 * vlib.SEED + 24)])
    hists = [vlib.tla_value(ln)[1] for ln in r["lines"]]
    rng = np.random.default_rng([vlib.SEED, 24])
    chosen, covered = [], set()
    feats = [set((o["op"], o.get("mode", ""), *o["fault"]) for o in h) for h in hists]
    left = list(range(len(hists)))
    while left and len(chosen) < want:
        best = max(left, key=lambda j: len(feats[j] - covered))
        chosen.append(hists[best])
        if not feats[best] - covered:
            covered = set()
        covered |= feats[best]
        left.remove(best)
    jobs = []
    for i, h in enumerate(chosen):
        dims = {}
        for o in h:
            if o["op"] != "new":
                continue
            ch = lambda *a: a[int(rng.integers(len(a)))]  # noqa
            n = ch(12, 20, 25)
            d = dict(y0=ch(1995, 1991, 2000), n=n, thermal=ch("twolayer", "twolayer", "default"), carbon=ch("box", "default"), idtm=6, table=ch("v1", "ar6", "wmonew"),
                     noise="noisy", sv=ch("off", "file", "data"), luc=ch("file", "data"), vcols=ch(12, 1), nat=ch("file", "data"), emform=ch("file", "data"), concform=ch("file", "data"),
                     gasform=ch("file", "data"), before=ch(0, 4), after=ch(0, 6), forc=ch("array", "arrayfile", "hemi", "comp"), forcform=ch("file", "data"))
            d["emstart"] = d["y0"] + ch(-3, 0, 1, 5)
            if o["fault"][1] in ("sun", "volc_n", "volc_s") and d["sv"] == "off":
                d["sv"] = ch("file", "data")
            dims[o["inst"]] = d
        jobs.append(dict(id=f"C24/{i}", seed=[vlib.SEED, 24, i], tmp=os.path.join(scratch, f"f{i}"), dims=dims, ops=h, inprocess=False))
    # every column in turn
    cols = ["CH4", "N2O", "CO2", "CO2_FF", "CO2_AFOLU", "SO2", "NOx", "CO", "NMVOC", "NH3", "BC", "OC", "CFC-11", "HALON-1211", "SF6", "CF4", "C2F6", "HFC125", "HCFC-22", "MCF", "CH3Br"]
    for i, (mode, what, x, kind, start) in enumerate(
            [("em", "emissions", x, "lacks", s) for x in cols for s in (0, 4)] + [("conc", "emissions", x, "lacks", 0) for x in cols]
            + [(m, "concentrations", x, "lacks", s) for x in cols for m, s in (("em", 0), ("em", 4), ("em", 40), ("conc", 0))]
            + [("em", w, x, "unit", 0) for w in ("emissions", "concentrations") for x in cols]):
        table = ["v1", "wmonew"][i % 2]
        d = dict(y0=2000, n=12, thermal="twolayer", carbon=["box", "default"][i % 3 % 2], idtm=6, table=table, noise="noisy", emform=["file", "data"][i % 2], concform=["data", "file"][i // 2 % 2],
                 gasform=["data", "file"][i // 4 % 2], emstart=2000 + start)
        ops = [dict(op="new", inst="a", mode=mode, fault=[kind, what, x], sets=""), dict(op="run", inst="a", fault=["ok", ""], sets="")]
        jobs.append(dict(id=f"C24/{x} {kind} {what} {mode} {start}", seed=[vlib.SEED, 124, i], tmp=os.path.join(scratch, f"e{i}"), dims=dict(a=d), ops=ops, inprocess=False))
    for b in range(0, len(jobs), 100):
        part = jobs[b : b + 100]
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            traces = pool.map(history, part, chunksize=1)
        for t in traces:
            if "harness" in t:
                raise RuntimeError(f"harness fault in {t['id']}: {t['harness']}")
        path = os.path.join(scratch, "reftraces.json")
        with open(path, "w", encoding="utf8") as f:
            json.dump(dict(traces=traces), f)
        r = vlib.tlc("RefuseTrace", scratch, env=dict(TRACES=path), timeout=3000)
        chk.add_tlc(r)
        by = {c["id"]: c for c in part}
        done = set()
        for ln in r["lines"]:
            v = vlib.tla_value(ln)
            if v[0] == "FAIL":
                chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], by[v[1]])
            elif v[0] == "DONE":
                done.add(v[1])
        if set(by) - done:
            raise vlib.TlcError(f"RefuseTrace: no verdict on {sorted(set(by) - done)[:3]}")
        chk.cov["traces_validated_against_impl"] += len(part)
        chk.cov["refused"] = chk.cov.get("refused", 0) + sum(not o["ok"] for t in traces for o in t["ops"])
        chk.cov["carried_out"] = chk.cov.get("carried_out", 0) + sum(o["ok"] for t in traces for o in t["ops"])
    for c in jobs[:3]:
        chk.sample(c)
