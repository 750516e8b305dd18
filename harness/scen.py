"""Concrete scenarios: from dimensions chosen by the specification's generator to inputs for the real
code (files and data) and, independently of the repository's readers, to the input record the
specification works on."""
import copy
import os
import traceback
import zlib

import numpy as np
import pandas as pd

import data
from vlib import params, real, reals

RCOLS = dict(beta="BETA", alpha="ALPHA", tau1="TAU1", tau2="TAU2", tau3="TAU3", nat="NAT_EM", sarf="SARF_TO_ERF")
FILEHEAD = ["GAS", "EM_UNIT", "CONC_UNIT", "BETA", "ALPHA", "TAU1(YEARS)", "TAU2", "TAU3", "NATURAL_EMISSIONS", "SARF_TO_ERF"]
# compounds no shipped table has, with chlorine, bromine or both
NEWGASES = ["CFC-13", "HCFC-124", "HCFC-225ca", "HCFC-225cb", "CFC-112a", "HCFC-1233zd", "CHBr3", "CH2Br2", "CHBrCl2",
            "CH2BrCl", "CHBr2Cl", "C2Cl4", "H-1201", "H-2311", "H-1121", "CHCl3", "HFC-152a"]
REG_DATA = ["EAS", "SAM", "NAF", "NAM", "RBU", "SAF"]
REGIONS = ["ASIA", "LAM", "MAF", "OECD", "REF"]
TH_TWO = ["dT_glob", "dT_fast", "dT_slow", "RIB_glob", "OHC_MIXED", "OHC_DEEP", "OHC700", "OHCTOT"]
TH_UDM = ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea",
          "dT_SHsea", "RIB_glob", "RIB_N", "RIB_S", "OHC700", "OHCTOT"]


def smooth(rng, n, sd, rho=0.9):
    e = rng.normal(0, sd, n)
    x = np.zeros(n)
    c = 0.0
    for i in range(n):
        c = rho * c + e[i]
        x[i] = c
    return x


def gas_frame(g):
    """a gas table as a data frame"""
    cols = {"EM_UNIT": [r["em_unit"] for r in g.values()], "CONC_UNIT": [r["conc_unit"] for r in g.values()]}
    for c in data.NUMCOLS:
        cols[RCOLS[c]] = [r[c] for r in g.values()]
    f = pd.DataFrame(cols, index=list(g))
    f.index.name = "GAS"
    return f


def row_of(r):
    """a row of the gas table, for the specification"""
    return dict(em_unit=str(r["em_unit"]), conc_unit=str(r["conc_unit"]), conc=r["conc_unit"] != "-", **{c: real(float(r[c])) for c in data.NUMCOLS})


class Inputs:
    """everything an instance is created from"""

    MARGIN = 12

    def __init__(self, d, seed, tmp, tag):
        self.d = d = dict(d)
        self.seed, self.tmp, self.tag = list(seed), tmp, tag
        self.built = None
        self.y0, self.n = d["y0"], d["n"]
        # files with a row a year end in 2500
        if self.y0 >= 1750:
            self.n = min(self.n, 2500 - self.y0 + 1)
        self.y1 = self.y0 + self.n - 1
        # values are made for a window that may be larger than the run's, so that runs over different
        # windows can have the same values in common years
        self.nf = d.get("nfull", self.n)
        self.idtm = d.get("idtm", 24)
        self.mode = d["mode"]
        self.ec = self.mode in ("em", "conc")
        self.written = {}
        self.c = {"nystart": self.y0, "nyend": self.y1, "thermal_model": d.get("thermal", "default")}
        if d.get("idtm"):
            self.c["idtm"] = self.idtm
        self.emstart = d.get("emstart")
        if self.emstart is not None:
            self.c["emstart"] = self.emstart
        else:
            self.emstart = 1850
        self.spec = dict(
            mode="ec" if self.ec else "rf", ny0=self.y0, n=self.n, emstart=self.emstart, idtm=self.idtm,
            concrun=self.mode == "conc", thermal="twolayer" if d.get("thermal") == "twolayer" else "default",
            carbon="box" if d.get("carbon") == "box" else "default",
            thnames=TH_TWO if d.get("thermal") == "twolayer" else TH_UDM, pem=[], pforc=[],
        )
        if self.ec:
            self._gases()
            self._years()
            self._natural()
            self._perturb()
            self.c["conc_run"] = self.mode == "conc"
            if d.get("carbon"):
                self.c["carbon_cycle_model"] = d["carbon"]
        else:
            self._forcing()
        self._sunvolc()
        self.carbon0 = {}
        if self.ec and d.get("resp"):
            for w in ("rs", "rb"):
                if w in d["resp"]:
                    self.carbon0[w + "_function"] = response(self.rng("resp" + w), w)
            self.c.update(self.carbon0)

    # -- helpers
    def rng(self, section):
        """random numbers of a section do not depend on the choices in others"""
        return np.random.default_rng(self.seed + [zlib.crc32(section.encode())])

    def edited(self, name, years, arr):
        """values with what is asked for changed: ("edit", year) changes everything after a year"""
        e = self.d.get("edit")
        if not e or (self.d.get("editonly") and name not in self.d["editonly"]):
            return arr
        a = np.array(arr, dtype=float)
        rng = self.rng("edit" + name)
        later = np.asarray(years) > e
        f = 1 + 0.2 * rng.normal(size=a.shape)
        a[later] = a[later] * f[later] + (0.05 * rng.normal(size=a.shape)[later] if name in ("sun", "forc") else 0)
        return a

    def path(self, name):
        return os.path.join(self.tmp, f"{self.d.get('slot') or self.tag}_{name}")

    def write(self, name, lines):
        p = self.path(name)
        text = "\n".join(lines) + "\n"
        if self.d.get("slot"):
            # files that replace each other have the same size
            text += "\n" * (-len(text) % 65536)
        self.written[p] = text
        self.place()
        return p

    def place(self):
        """put the files where they belong; inputs that share a slot have theirs at the same paths, so that
        each set of files is in place only when its instance is created"""
        for p, text in self.written.items():
            with open(p, "w", encoding="utf8") as f:
                f.write(text)

    def _regional(self, g, rng):
        """a table with regions made by the code's own builder; what was given and made is kept for the specification"""
        d = self.d
        if d.get("shuffle"):
            names = list(g)
            rng.shuffle(names)
            g = {x: g[x] for x in names}
        places = [REG_DATA[i] for i in rng.permutation(len(REG_DATA))]
        mapping = {"default": {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"},
                   "swap": {"OECD": "EAS", "ASIA": "NAM", "BIG": "RBU"}, "two": {"NORTH": "EAS", "SOUTH": "SAM"},
                   "same": {"N_WEST": "NAM", "N_EAST": "NAM", "REST": "SAF"},
                   "one": {"WORLD": "NAF"}, "none": {}}[d["builder"]]
        conv = float(d.get("conv") or 1e9)
        f = {x: {r: float(rng.normal(0, 0.02 * d.get("size", 1))) / conv for r in places} for x in d["regional"]}
        if d.get("zerofactor"):
            f[d["regional"][0]][places[0]] = f[d["regional"][-1]]["NAM"] = 0.0
        before = gas_frame(g)
        frame = pd.DataFrame(f, index=places)
        kept, keptf, keptm = before.copy(), frame.copy(), dict(mapping)
        kw = {}
        if d["builder"] != "default":
            kw["reg_mapping"] = mapping
        if d.get("conv"):
            kw["unit_conversion"] = conv
        from ciceroscm.pub_utils import make_regional_aerosol_gaspamdata

        rec = dict(base={x: row_of(r) for x, r in g.items()}, factors={x: {r: real(v) for r, v in w.items()} for x, w in f.items()},
                   map=mapping or {"": ""}, conv=real(conv), exc="", got={"": {}}, names=[], same=True)
        self.spec["reg"] = rec
        out = dict(g)
        for x in d["regional"]:
            for k, r in mapping.items():
                out[f"{x}_{k}"] = dict(g[x], alpha=f[x][r] * conv)
        try:
            got = make_regional_aerosol_gaspamdata(before, frame, **kw)
            rec["names"] = [str(x) for x in got.index]
            rec["got"] = {str(x): row_of({c: got[RCOLS.get(c, c.upper())][x] for c in ("em_unit", "conc_unit") + tuple(data.NUMCOLS)})
                          for x in dict.fromkeys(got.index)}
            rec["same"] = bool(kept.equals(before) and keptf.equals(frame) and keptm == mapping)
            self.built = [got]
        except Exception:  # noqa
            rec["exc"] = traceback.format_exc()[-600:]
            self.built = [gas_frame(out)]
        return out

    def _gases(self):
        d, rng = self.d, self.rng("gases")
        g = {k: dict(v) for k, v in data.gas_table(d.get("table", "v1")).items()}
        drop = d.get("dropgas", 0)
        if drop:
            simple = [x for x, r in g.items() if r["conc_unit"] != "-" and x not in ("CO2", "CH4", "N2O")]
            for x in rng.choice(simple, size=min(drop, len(simple) - 2), replace=False):
                del g[x]
        if d.get("newgas"):
            g["C9F20"] = dict(em_unit="Gg", conc_unit="ppt", beta=47.3, alpha=0.00031, tau1=71.0, tau2=0.0, tau3=0.0,
                              nat=3.0, sarf=1.07)
        if d.get("newgas") == 2:
            for x in NEWGASES:
                if x not in g:
                    g[x] = dict(em_unit="Gg", conc_unit="ppt", beta=float(rng.uniform(15, 45)), alpha=float(rng.uniform(5e-5, 4e-4)),
                                tau1=float(rng.uniform(0.4, 90)), tau2=0.0, tau3=0.0, nat=float(rng.uniform(0, 3)), sarf=1.0)
        if d.get("gasnoise"):
            for x, r in g.items():
                if r["conc_unit"] != "-":
                    r["beta"] *= float(np.exp(rng.normal(0, 0.1)))
                    r["tau1"] *= float(np.exp(rng.normal(0, 0.2)))
                    r["tau2"] *= float(np.exp(rng.normal(0, 0.2)))
                    r["tau3"] *= float(np.exp(rng.normal(0, 0.2)))
                    if x not in ("CO2", "CH4", "N2O"):
                        r["nat"] = r["nat"] + float(rng.uniform(0, 2))
                        r["alpha"] *= float(np.exp(rng.normal(0, 0.1)))
                r["sarf"] *= float(np.exp(rng.normal(0, 0.05)))
            if d["gasnoise"] == 2:
                # gone within days, or staying for ever
                simple = [x for x, r in g.items() if r["conc_unit"] != "-" and x not in ("CO2", "CH4", "N2O")]
                for x in rng.choice(simple, size=min(8, len(simple)), replace=False):
                    g[x]["tau1"] = float(rng.choice([0.01, 0.08, 0.3, 3e3, 1e5]))
            g["CO2"]["nat"] = float(rng.choice([0.0, 0.3, -0.2]))
            for x in ("CH4", "N2O"):
                g[x]["nat"] *= float(rng.choice([1.0, 0.0, 0.4, 1.3]))
        for x in d.get("natzero") or []:
            g[x]["nat"] = 0.0
        if d.get("alphas"):
            for x in ("BC", "OC", "SO2", "NOx", "NH3", "NMVOC", "SO4_IND", "BMB_AEROS_OC", "BMB_AEROS_BC"):
                # factors in the table, except where regions replace the global total or there are no emissions
                if x in g and x not in ("SO4_IND",) and rng.random() < 0.5 and x not in (d.get("regional") or []):
                    g[x]["alpha"] = float(rng.normal(0, 0.01))
        if d.get("regional") and d.get("builder"):
            g = self._regional(g, self.rng("regional"))
        elif d.get("regional"):
            for x in d["regional"]:
                for r in REGIONS[: d.get("nreg", 5)]:
                    row = dict(g[x])
                    row["alpha"] = float(rng.normal(0, 0.02 * d.get("size", 1)))
                    g[f"{x}_{r}"] = row
        if d.get("shuffle") and not self.built:
            names = list(g)
            rng.shuffle(names)
            g = {x: g[x] for x in names}
        self.gases = g
        self.spec["gases"] = {
            x: dict(conc=r["conc_unit"] != "-", **{c: real(r[c]) for c in data.NUMCOLS}) for x, r in g.items()
        }
        self.spec["gasnames"] = list(g)
        if self.built:
            self.c["gaspam_data"] = self.built[0]
        elif d.get("gasform") == "data":
            self.c["gaspam_data"] = self.gas_frame()
        else:
            # columns are separated by tabs or spaces
            sep = ["\t", "\t", "  ", " \t "][int(self.rng("gassep").integers(4))]
            lines = [sep.join(FILEHEAD)]
            for x, r in g.items():
                lines.append(sep.join([x, r["em_unit"], r["conc_unit"]] + [repr(float(r[c])) for c in data.NUMCOLS]))
            if self.rng("gasend").random() < 0.2:
                lines += ["", ""]
            self.c["gaspam_file"] = self.write("gas.txt", lines)

    def gas_frame(self):
        return gas_frame(self.gases)

    def _extend(self, names, years, arr, lo, hi):
        """values for lo..hi, last and first year repeated where the source ends"""
        idx = np.clip(np.arange(lo, hi + 1) - years[0], 0, len(years) - 1)
        return arr[idx, :].copy()

    def _years(self):
        d, rng = self.d, self.rng("years")
        before = d.get("before", 0)
        after = d.get("after", 0)
        en, eu, ey, ea = data.year_table("ssp245_em_RCMIP.txt")
        cn, cu, cy, ca = data.year_table("ssp245_conc_RCMIP.txt")
        en, cn, eu, cu = list(en), list(cn), list(eu), list(cu)
        lo, hi = self.y0 - self.MARGIN, self.y0 + self.nf - 1 + self.MARGIN
        n = hi - lo + 1
        E = self._extend(en, ey, ea, lo, hi)
        C = self._extend(cn, cy, ca, lo, hi)
        g = self.gases
        simple = [x for x, r in g.items() if r["conc_unit"] != "-"]
        for x in simple:
            if x not in en and x != "CO2":
                en.append(x)
                eu.append(g[x]["em_unit"])
                E = np.column_stack([E, np.linspace(0.5, rng.uniform(2, 30), n)])
            if x not in cn:
                cn.append(x)
                cu.append(g[x]["conc_unit"])
                C = np.column_stack([C, np.linspace(0.2, rng.uniform(1, 9), n)])
        for x, r in g.items():
            if r["conc_unit"] == "-" and x[:2] in ("BC", "OC", "SO") and x not in en and x != "SO4_IND":
                en.append(x)
                eu.append(r["em_unit"])
                E = np.column_stack([E, (rng.uniform(0.1, 4) + smooth(rng, n, 0.2)) / max(d.get("size", 1), 1)])
        keep = [i for i, x in enumerate(en) if x in g or x in ("CO2_FF", "CO2_AFOLU", "CO", "BMB_AEROS_OC", "BMB_AEROS_BC") or not d.get("dropgas")]
        en, eu, E = [en[i] for i in keep], [eu[i] for i in keep], E[:, keep]
        noise = d.get("noise", "noisy")
        if noise != "base":
            for j, x in enumerate(en):
                s = {"noisy": 0.03, "strong": 0.1}.get(noise, 0.03)
                E[:, j] = E[:, j] * np.exp(smooth(rng, n, s))
                if x in g and x in simple and x not in ("CH4", "N2O"):
                    E[:, j] += np.abs(smooth(rng, n, 0.02 * (1 + np.max(np.abs(E[:, j])))))
            for j, x in enumerate(cn):
                if x in ("CO2", "CH4", "N2O"):
                    C[:, j] *= 1 + np.clip(smooth(rng, n, 0.003 if x == "CO2" else 0.01), -0.2, 0.2)
                else:
                    C[:, j] = (C[:, j] + 0.3) * np.exp(smooth(rng, n, 0.02))
            ff = en.index("CO2_FF")
            if noise == "strong":
                E[:, ff] = E[:, ff] * 2 + np.linspace(0, rng.uniform(5, 60), n)
            if noise == "negative":
                E[:, ff] = np.linspace(rng.uniform(2, 8), -rng.uniform(2, 6), n)
                E[:, en.index("SO2")] *= np.linspace(1, 0.1, n)
            if noise == "extreme":
                # far above what the ocean chemistry was fitted to
                E[:, ff] = np.linspace(20, rng.uniform(60, 160), n)
            if noise == "drawdown":
                # carbon is taken out from the start
                E[:, ff] = -np.linspace(rng.uniform(0.5, 4), rng.uniform(0.5, 4), n)
                E[:, en.index("CO2_AFOLU")] = 0.0
            if noise == "hump":
                E[:, ff] = rng.uniform(10, 40) * np.cos(np.linspace(0, rng.uniform(3.1, 6), n))
                E[:, en.index("CO2_AFOLU")] = 0.0
            if noise == "methane":
                E[:, en.index("CH4")] *= np.linspace(1, rng.uniform(5, 12), n)
                E[:, en.index("NOx")] *= np.linspace(1, rng.uniform(0, 3), n)
                E[:, en.index("CO")] *= np.linspace(1, rng.uniform(0, 4), n)
                C[:, cn.index("CH4")] *= np.linspace(1, rng.uniform(2, 9), n)
            if noise == "saw":
                # carbon dioxide up and down from year to year
                C[:, cn.index("CO2")] *= 1 + rng.uniform(0.002, 0.03) * np.cos(np.pi * np.arange(n) * rng.choice([1.0, 0.5])) * (rng.random(n) < 0.8)
            if noise == "swing":
                # far up and far down; sinks in single years
                for j, x in enumerate(cn):
                    if x in ("CH4", "N2O"):
                        C[:, j] *= np.linspace(rng.uniform(1, 3), rng.uniform(0.1, 1), n)
                    elif x != "CO2":
                        C[:, j] = (C[:, j] + 1) * np.linspace(rng.uniform(1, 20), rng.uniform(0, 2), n)
                for x in ("CH4", "N2O"):
                    E[rng.random(n) < 0.2, en.index(x)] *= -0.4
            if noise == "tiny":
                # next to no change from year to year
                E = E[:1, :] * (1 + 1e-6 * rng.normal(0, 1, (n, 1)))
                C = C[:1, :] * (1 + 1e-6 * rng.normal(0, 1, (n, 1)))
            if noise == "zero":
                E[:, ff] = 0.0
                E[:, en.index("CO2_AFOLU")] = 0.0
            if noise == "fall":
                # gases vanish, and are taken out of the air
                for j, x in enumerate(en):
                    if x in simple and x not in ("CO2", "CH4", "N2O") and (x in ("SF6", "NF3", "C9F20") or x.startswith(("HFC", "CF4", "C2F6"))):
                        E[:, j] = (E[:, j] + 1) * np.linspace(1, -rng.uniform(0, 0.6), n)
                    if x in g and x in cn and (x in ("HCFC-142b", "NF3") or x.startswith(("HFC-2", "C9"))):
                        # down to less than nothing
                        E[:, j] -= g[x]["beta"] * (np.mean(C[:, cn.index(x)]) * rng.uniform(1, 3) / self.nf + 0.02) * np.linspace(0, 2, n)
                for j, x in enumerate(cn):
                    if x not in ("CO2", "CH4", "N2O"):
                        C[:, j] *= np.linspace(1, rng.uniform(0, 0.4), n)
                    elif x != "CO2":
                        C[:, j] *= np.linspace(1, rng.uniform(0.1, 0.6), n)
            if noise == "coldstart":
                # cooling: aerosols rise steeply
                E[:, en.index("SO2")] += np.linspace(0, rng.uniform(200, 600), n)
        yrs = np.arange(lo, hi + 1)
        E, C = self.edited("em", yrs, E), self.edited("conc", yrs, C)
        self.em = pd.DataFrame(E, columns=en, index=yrs).loc[self.y0 - before : self.y1 + after].copy()
        self.conc = pd.DataFrame(C, columns=cn, index=yrs).loc[self.y0 - before : self.y1 + after].copy()
        self.em.index.name = self.conc.index.name = "Component"
        self.emunits, self.concunits = eu, cu
        self._spec_years()
        self._give_years()

    def _give_years(self):
        d = self.d
        for what, frame, units in (("emissions", self.em, self.emunits), ("concentrations", self.conc, self.concunits)):
            if d.get("emform" if what == "emissions" else "concform") == "data":
                self.c[what + "_data"] = frame.copy()
            else:
                self.c[what + "_file"] = self.year_file(what, frame, units)

    def _spec_years(self):
        lo = int(self.em.index[0])
        self.spec["em"] = {x: dict(y0=lo, v=reals(self.em[x])) for x in self.em.columns}
        self.spec["conc"] = {x: dict(y0=int(self.conc.index[0]), v=reals(self.conc[x])) for x in self.conc.columns}
        self.spec["emnames"] = [x for x in self.em.columns if x not in ("CO2_FF", "CO2_AFOLU")] + ["CO2"]
        self.spec["concnames"] = [
            x for x, r in self.gases.items() if r["conc_unit"] != "-" and x != "CO2"
        ] + ["TROP_O3"]

    def year_file(self, what, frame, units, name=None):
        names = ["CO2" if x in ("CO2_FF", "CO2_AFOLU") else x for x in frame.columns]
        lines = ["Component\t" + "\t".join(names), "Unit\t" + "\t".join(units),
                 "Description\t" + "\t".join(["total"] * len(names)),
                 "Reference\t" + "\t".join(["x"] * len(names))]
        for y, row in zip(frame.index, frame.to_numpy()):
            lines.append(f"{y}\t" + "\t".join(repr(float(v)) for v in row))
        return self.write(name or what + ".txt", lines)

    def _natural(self):
        d = self.d
        kind = d.get("nat", "file")
        if kind == "file" and self.y0 < 1750:
            kind = "data"
        for gas, key in (("CH4", "natch4"), ("N2O", "natn2o")):
            rng = self.rng("nat" + gas)
            base = data.column(os.path.join(data.TD, f"natemis_{gas.lower()}.txt"))
            ser = base * np.exp(smooth(rng, len(base), 0.01)) if d.get("noise") != "base" else base
            ser = self.edited("nat" + gas, np.arange(len(ser)) + 1750, ser)
            if kind == "none":
                self.spec[key] = dict(y0=self.y0, v=reals(np.full(self.n, self.gases[gas]["nat"])))
                continue
            if kind == "flat":
                self.c[f"nat_{gas.lower()}_data"] = pd.DataFrame({gas: np.full(self.n, self.gases[gas]["nat"])}, index=np.arange(self.y0, self.y1 + 1))
                self.spec[key] = dict(y0=self.y0, v=reals(np.full(self.n, self.gases[gas]["nat"])))
                continue
            if kind == "data":
                lo, hi = self.y0 - d.get("before", 0), self.y1 + d.get("after", 0)
                vals = np.array([ser[min(max(y - 1750, 0), len(ser) - 1)] for y in range(lo, hi + 1)])
                self.c[f"nat_{gas.lower()}_data"] = pd.DataFrame({gas: vals}, index=np.arange(lo, hi + 1))
                self.spec[key] = dict(y0=lo, v=reals(vals))
            else:
                self.c[f"nat_{gas.lower()}_file"] = self.write(f"nat_{gas}.txt", [repr(float(v)) for v in ser])
                self.spec[key] = dict(y0=1750, v=reals(ser))

    def _rows_file(self, name, arr):
        """a file with one row a year from 1750"""
        return self.write(name, [" ".join(repr(float(v)) for v in np.atleast_1d(r)) for r in arr])

    def _sunvolc(self):
        d, rng = self.d, self.rng("sunvolc")
        sv = d.get("sv", "off")
        # the rows are for 1750 and later or, when the run starts earlier, for the first year and later
        first = min(1750, self.y0)
        n, off = self.n, self.y0 - first
        sun = np.zeros(n)
        vn = np.zeros((n, 12))
        vs = np.zeros((n, 12))
        if sv != "off":
            if not sv.startswith("unswitched"):
                self.c["sunvolc"] = 1
            elif sv == "unswitched0":
                self.c["sunvolc"] = 0
            full = 751
            if sv.startswith("default"):
                sun = data.column(os.path.join(data.DD, "solar_IPCC.txt"))[off : off + n]
                v = np.array(data.rows(os.path.join(data.DD, "meanVOLCmnd_ipcc_NH.txt")))[off : off + n]
                vn = vs = v
                if sv == "default_data":
                    self.c["rf_sun_data"] = pd.DataFrame(sun.copy())
                    self.c["rf_volc_n_data"] = pd.DataFrame(v.copy())
                    self.c["rf_volc_s_data"] = pd.DataFrame(v.copy())
                elif sv == "default_one":
                    self.c["rf_volc_data"] = pd.DataFrame(v.copy())
            else:
                ncol = d.get("vcols", 12)
                S = 0.05 * np.sin(np.arange(full) / 1.7) + rng.normal(0, 0.02, full)
                N = -np.abs(rng.normal(0, 0.1, (full, ncol))) - 3 * (rng.random((full, ncol)) < 0.03)
                H = -np.abs(rng.normal(0, 0.2, (full, ncol)))
                # years without eruptions on one side or both
                N[rng.random(full) < 0.2] = 0.0
                H[rng.random(full) < 0.2] = 0.0
                fy = np.arange(full) + first
                S, N, H = self.edited("sun", fy, S), self.edited("vn", fy, N), self.edited("vs", fy, H)
                if sv.startswith(("single", "same")):
                    H = N
                if sv.startswith("north"):
                    H = np.zeros_like(N)
                if sv.startswith("south"):
                    N = np.zeros_like(N)
                sun, vn, vs = S[off : off + n], N[off : off + n], H[off : off + n]
                if sv.startswith("unswitched"):
                    sun, vn, vs = np.zeros(n), np.zeros((n, 12)), np.zeros((n, 12))
                    self.c["rf_sun_file"] = self._rows_file("sun.txt", S)
                    self.c["rf_volc_n_file"] = self._rows_file("vn.txt", N)
                    self.c["rf_volc_s_file"] = self._rows_file("vs.txt", H)
                elif sv in ("file", "same_file", "north_file", "south_file"):
                    self.c["rf_sun_file"] = self._rows_file("sun.txt", S)
                    self.c["rf_volc_n_file"] = self._rows_file("vn.txt", N)
                    self.c["rf_volc_s_file"] = self._rows_file("vs.txt", H)
                elif sv in ("data", "same_data", "north_data", "south_data"):
                    self.c["rf_sun_data"] = pd.DataFrame(sun.copy())
                    self.c["rf_volc_n_data"] = pd.DataFrame(vn.copy())
                    self.c["rf_volc_s_data"] = pd.DataFrame(vs.copy())
                elif sv == "single_file":
                    self.c["rf_sun_file"] = self._rows_file("sun.txt", S)
                    self.c["rf_volc_file"] = self._rows_file("v.txt", N)
                elif sv == "single_data":
                    self.c["rf_sun_data"] = pd.DataFrame(sun.copy())
                    self.c["rf_volc_data"] = pd.DataFrame(vn.copy())
        self.spec["sun"] = dict(y0=self.y0, v=reals(sun))
        self.spec["vn"] = [reals(r) for r in vn]
        self.spec["vs"] = [reals(r) for r in vs]
        luc = d.get("luc", "default")
        base = data.column(os.path.join(data.DD, "IPCC_LUCalbedo.txt"))
        if luc == "default":
            ser = base[off : off + n]
        else:
            rng = self.rng("luc")
            L = -0.2 * np.linspace(0, 1, 751) + rng.normal(0, 0.02, 751)
            if luc == "zero":
                L = np.zeros(751)
            L = self.edited("luc", np.arange(751) + first, L)
            ser = L[off : off + n]
            if luc == "default_data":
                ser = base[off : off + n]
                self.c["rf_luc_data"] = pd.DataFrame(ser.copy())
            elif luc == "file":
                self.c["rf_luc_file"] = self._rows_file("luc.txt", L)
            else:
                self.c["rf_luc_data"] = pd.DataFrame(ser.copy())
        self.spec["luc"] = dict(y0=self.y0, v=reals(ser))

    def _perturb(self):
        d, rng = self.d, self.rng("pert")
        yrs = np.arange(self.y0, self.y0 + self.nf)
        if d.get("pem"):
            comps = [x for x in self.em.columns if x not in ("CO2_AFOLU",)]
            rows = []
            for _ in range(d["pem"]):
                c = str(rng.choice(comps))
                size = 0.2 * float(np.mean(np.abs(self.em[c]))) + 0.01
                rows.append([c if c != "CO2_FF" else "CO2", int(rng.choice(yrs)), float(rng.normal(0, size * rng.choice([1, 1, 1e-4])))])
            rows.append(["CO2", int(rng.choice(yrs)), float(rng.normal(0, 2))])
            rows.append(list(rows[0][:2]) + [float(abs(rows[0][2]) + 0.1)])  # same component and year again
            rows = self.vary(rows, d.get("pemvar", "plain"))
            rows = [r for r in rows if r[1] <= self.y1]
            e = d.get("edit")
            if e:
                rows = [r if r[1] <= e else [r[0], r[1], 1.3 * r[2]] for r in rows]
            self.pem = rows
            if d.get("pemvar") == "baked":
                # the same emissions, given directly
                for c, y, v in rows:
                    self.em.loc[y, "CO2_FF" if c == "CO2" else c] += v
                self._spec_years()
                self._give_years()
            else:
                self.set_pem(rows, d.get("pemform", "file"))
        if d.get("pforc"):
            comps = list(self.gases)
            rows = []
            for _ in range(d["pforc"]):
                rows.append([str(rng.choice(comps)), int(rng.choice(yrs)), float(rng.normal(0, 0.5 * rng.choice([1, 1, 1e-5])))])
            for c in ("OTHER", "TROP_O3", "SO2", "LANDUSE", "CO2"):
                rows.append([c, int(rng.choice(yrs)), float(rng.normal(0, 0.5))])
            rows.append(["CO2", int(self.y0), 0.4])
            for c in ("CFC-11", "SF6"):
                if c in comps:
                    rows.append([c, int(self.y0), float(rng.normal(0, 0.5))])
            rows.append(rows[0][:2] + [0.3])
            rows.append(["CH4", int(self.y0 + self.nf + 3), 5.0])
            rows.append(["CFC-11" if "CFC-11" in comps else "N2O", int(self.y0 - 2), 5.0])
            rows = self.vary(rows, d.get("pforcvar", "plain"))
            e = d.get("edit")
            if e:
                rows = [r if r[1] <= e else [r[0], r[1], 1.3 * r[2]] for r in rows]
            self.pforc = rows
            self.set_pforc(rows, d.get("pforcform", "file"))

    def vary(self, rows, how):
        """perturbations that mean the same, or nothing"""
        if self.d.get("pexact"):
            rows = [[c, y, max(1.0, abs(round(v * 64))) / 64 * (1 if v > 0 else -1)] for c, y, v in rows]
        if how == "zero":
            return [[c, y, 0.0] for c, y, v in rows]
        if how == "cancel":
            return rows + [[c, y, -v] for c, y, v in reversed(rows)]
        if how == "permute":
            return [rows[i] for i in self.rng("permute").permutation(len(rows))]
        if how == "split":
            return [[c, y, v / 2] for c, y, v in rows] + [[c, y, v / 2] for c, y, v in rows]
        return rows

    def set_pem(self, rows, form):
        self.spec["pem"] = [dict(comp=c, year=y, val=real(v)) for c, y, v in rows]
        frame = pd.DataFrame(dict(component=[r[0] for r in rows], unit="x", source="src", year=[r[1] for r in rows],
                                  emission=[r[2] for r in rows]))
        if form == "data":
            self.c["perturb_em_data"] = frame
        else:
            self.c["perturb_em_file"] = self.write(
                "pem.txt", ["component,unit,source,year,emission"] + [f"{c},x,src,{y},{v!r}" for c, y, v in rows])

    def set_pforc(self, rows, form):
        self.spec["pforc"] = [dict(comp=c, year=y, val=real(v)) for c, y, v in rows]
        frame = pd.DataFrame(dict(component=[r[0] for r in rows], unit="x", source="src", year=[r[1] for r in rows],
                                  forcing=[r[2] for r in rows]))
        if form == "data":
            self.c["perturb_forc_data"] = frame
        else:
            self.c["perturb_forc_file"] = self.write(
                "pforc.txt", ["component,unit,source,year,forcing"] + [f"{c},x,src,{y},{v!r}" for c, y, v in rows])

    def _forcing(self):
        d, n = self.d, self.n
        rng = self.rng("forc")
        kind = d.get("forc", "array")
        shape = d.get("fshape", "walk")
        before, after = d.get("before", 0), d.get("after", 0)
        m = self.nf + 2 * self.MARGIN
        yrs = np.arange(self.y0 - self.MARGIN, self.y0 + self.nf + self.MARGIN)

        def series(name, sd=0.1, scale=1.0):
            r = self.rng("forc" + name)
            if shape == "zero":
                v = np.zeros(m)
            elif shape == "step":
                v = np.full(m, float(r.normal(0, 3)))
            elif shape == "strong":
                v = np.linspace(0, float(r.uniform(8, 20)), m) + r.normal(0, 0.3, m)
            elif shape == "tiny":
                v = r.normal(0, 1e-5, m)
            elif shape == "cold":
                v = -np.linspace(0, float(r.uniform(2, 6)), m) + r.normal(0, 0.3, m)
            else:
                v = 0.02 * np.arange(m) + smooth(r, m, sd, 0.98)
            return pd.Series(self.edited("forc", yrs, v * scale), index=yrs)

        if kind in ("array", "arrayfile"):
            extra = series("total").loc[self.y0 : self.y1 + after].to_numpy()
            self.spec["forc"] = dict(kind="array", total=dict(y0=self.y0, v=reals(extra)))
            if kind == "array":
                self.c["forc_data"] = extra.copy()
            else:
                self.c["forc_file"] = self._rows_file("forc.txt", extra)
            return
        lo, hi = self.y0 - before, self.y1 + after
        cols = {}
        if kind == "hemi":
            s, w = series("total"), {}
            for c in ("FORC_NH", "FORC_SH"):
                same = d.get("samehemi")
                cols[c] = s + (0 if same else self.rng(c).normal(0, 0.2, m))
            if d.get("gaps"):
                # years in which the hemispheres cancel, one has nothing, or both
                g = self.rng("hemigap").random(m)
                cols["FORC_SH"] = cols["FORC_SH"].where(g > 0.2, -cols["FORC_NH"])
                for c, at in (("FORC_NH", 0.3), ("FORC_SH", 0.4)):
                    cols[c] = cols[c].where((g < at - 0.1) | (g > at), 0.0)
                for c in cols:
                    cols[c] = cols[c].where(g < 0.95, 0.0)
        else:
            names = ["total"] if d.get("fone") else ["CO2", "CH4", "OTHER", "TROP_O3"]
            if d.get("faero", True) and not d.get("fone"):
                names += ["SO4_IND", "BC", "OC_ASIA", "NOx"]
            if d.get("gaps") and not d.get("fone"):
                more = ["LANDUSE", "CFC-11", "solar", "volcanic", "STRAT_H2O", "CO2_FF", "my forcing", "Total_forcing"]
                names += [str(x) for x in self.rng("names").choice(more, size=3, replace=False)]
            for x in names:
                cols[x] = series(x) if x == "total" else series(x, 0.05, float(self.rng("scale" + x).uniform(-1, 1)))
            if d.get("gaps"):
                # years without aerosols, and years without anything
                off = self.rng("aerogap").random(m) < 0.4
                none = self.rng("gap").random(m) < 0.15
                for x in cols:
                    if x in ("SO4_IND", "BC", "OC_ASIA", "NOx"):
                        cols[x] = cols[x].where(~off, 0.0)
                    cols[x] = cols[x].where(~none, 0.0)
        if kind == "comp" and d.get("ftot") and not d.get("fone"):
            # a total of their own, alone or beside components it is not the sum of
            cols = dict({} if d["ftot"] == "only" else cols, total=series("totalcol"))
            if self.rng("totfirst").random() < 0.5:
                cols = {x: cols[x] for x in sorted(cols, key=lambda x: x != "total")}
        if d.get("w_aero"):
            w = self.rng("w").uniform(0, 1, m)
            if d.get("gaps"):
                w[self.rng("wgap").random(m) < 0.4] = 0.0
                w[self.rng("wfull").random(m) < 0.2] = 1.0
            cols["w_aero"] = pd.Series(w, index=yrs)
        if d.get("fone"):
            cols["CO2"] = cols.pop("total")
        cols = {x: v.loc[lo:hi].to_numpy() for x, v in cols.items()}
        self.spec["forc"] = dict(kind="table", cols={x: dict(y0=lo, v=reals(v)) for x, v in cols.items()})
        lines = [str(self.rng("yearname").choice(["year", "Year", "YEAR", "years"])) + "," + ",".join(cols)]
        for i in range(hi - lo + 1):
            lines.append(f"{lo + i}," + ",".join(repr(float(v[i])) for v in cols.values()))
        if d.get("forcform") == "data" and kind == "hemi":
            f = pd.DataFrame(cols, index=np.arange(lo, hi + 1))
            f["total"] = (f["FORC_NH"] + f["FORC_SH"]) / 2
            self.c["forc_data"] = f
            self.spec["forc"]["cols"]["total"] = dict(y0=lo, v=reals(f["total"]))
        else:
            self.c["forc_file"] = self.write("forc.csv", lines)

    def cfg(self):
        """a fresh cfg for an instance"""
        return copy.deepcopy(self.c)


def response(rng, which):
    """coefficients and timescales of a carbon response function"""
    m = int(rng.choice([1, 2, 3, 4, 5, 11]))
    if which == "rs":
        f = dict(coeffs=[float(x) for x in rng.uniform(0.05, 0.4, m + 1)],
                 timescales=[float(x) for x in np.sort(rng.uniform(0.3, 200, m))])
    else:
        f = dict(coeffs=[float(x) for x in rng.uniform(0.1, 1, m)],
                 timescales=[float(x) for x in np.sort(rng.uniform(1, 80, m))])
    if m > 1 and rng.random() < 0.3:
        # a term without weight
        f["coeffs"][int(rng.integers(0, m))] = 0.0
    return f


def flat_response(rng, which, gap=False):
    f = response(rng, which)
    out = {}
    step = 2 if gap else 1
    for i, c in enumerate(f["coeffs"]):
        out[f"{which}_coef{i * step}"] = c
    for i, c in enumerate(f["timescales"]):
        out[f"{which}_tim{i * step}"] = c
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


RANGES = {
    "udm": dict(rlamdo=(5, 25), akapa=(0.06, 1.2), cpi=(0.1, 0.5), W=(0.5, 3.5), beto=(0.0, 9.0), threstemp=(2, 10),
                mixed=(25, 180), foan=(0.5, 0.7), foas=(0.7, 0.9), ebbeta=(0, 4), ocean_efficacy=(0.7, 1.6),
                delta_lambda_aero=(-0.5, 1.0), **{"lambda": (0.3, 1.3)}),
    "twolayer": dict(mixed=(20, 140), deep=(200, 3500), k=(0.2, 1.2), ocean_efficacy=(0.7, 1.6), foan=(0.5, 0.7),
                     foas=(0.7, 0.9), delta_lambda_aero=(-0.4, 0.8), **{"lambda": (0.7, 2.5)}),
    "emi": dict(qbmb=(-0.05, 0.1), qo3=(0.2, 0.7), qdirso2=(-0.01, 0), qindso2=(-0.03, 0), qbc=(0, 0.05),
                qoc=(-0.01, 0), qh2o_ch4=(0.02, 0.2), qnmvoc=(-0.002, 0.002), qnh3=(-0.004, 0), qnox=(-0.004, 0.001)),
    "joos": dict(beta_f=(0.05, 0.7), mixed_carbon=(25, 125), ml_w_sigmoid=(1, 6), ml_fracmax=(0.1, 0.8),
                 ml_t_half=(0.2, 3), t_half=(0.2, 3), w_sigmoid=(2, 12), t_threshold=(2, 6), w_threshold=(2, 10),
                 solubility_sens=(0.0, 0.08), solubility_limit=(0.02, 0.7), ml_depth_min=(5, 40),
                 preindustrial_co2_conc=(265, 290)),
    "box": dict(beta_f=(0.05, 20), land_temp_sensitivity=(0, 3), soil_respiration_rate=(0.015, 0.025),
                ocean_mixed_layer_depth=(20, 60), ocean_exchange_rate=(0.0, 0.1), vegetation_to_soil_fraction=(0.05, 0.2),
                ocean_solubility_base=(0.0, 0.1), ocean_solubility_temp_coeff=(-0.05, 0.02)),
}
# outer limits, used by the class "edge" (low and high ends, and zero where it makes sense)
EDGES = {
    "udm": dict(rlamdo=(2, 40), akapa=(0.0, 1.6), cpi=(0.0, 0.7), W=(0.0, 4.5), beto=(0, 12), threstemp=(-9, 12), mixed=(10, 250),
                foan=(0.0, 0.8), foas=(0.5, 0.95), ebbeta=(0, 6), ocean_efficacy=(0.0, 2.5), delta_lambda_aero=(-0.5, 2.0),
                **{"lambda": (0.2, 2.0)}),
    "twolayer": dict(mixed=(10, 1100), deep=(50, 6000), k=(0.0, 2.5), ocean_efficacy=(0.0, 2.5), foan=(0.0, 1.0), foas=(0.0, 1.0),
                     delta_lambda_aero=(-0.5, 1.5), **{"lambda": (-0.1, 4.0)}),
    "emi": dict(qbmb=(0, 0.3), qo3=(0, 1.0), qdirso2=(-0.03, 0), qindso2=(-0.05, 0), qbc=(0, 0.1), qoc=(-0.03, 0), qh2o_ch4=(0, 0.4),
                qnmvoc=(-0.01, 0.01), qnh3=(-0.01, 0), qnox=(-0.01, 0)),
    "joos": dict(beta_f=(0, 1.0), mixed_carbon=(12, 200), ml_w_sigmoid=(0.5, 10), ml_fracmax=(0, 0.95), ml_t_half=(0, 5), t_half=(0, 5),
                 w_sigmoid=(1, 20), t_threshold=(0, 10), w_threshold=(1, 15), solubility_sens=(0, 0.4), solubility_limit=(0, 1.0),
                 ml_depth_min=(0, 80), preindustrial_co2_conc=(240, 310)),
    "box": dict(beta_f=(0, 150), land_temp_sensitivity=(0, 40), soil_respiration_rate=(0.015, 0.03), ocean_mixed_layer_depth=(5, 100),
                ocean_exchange_rate=(0, 0.3), vegetation_to_soil_fraction=(0, 0.3), ocean_solubility_base=(0, 0.3),
                ocean_solubility_temp_coeff=(-0.3, 0.1)),
}
for _k, _v in EDGES.items():
    for _n, _b in _v.items():
        RANGES[_k][_n] = tuple(RANGES[_k][_n]) + tuple(_b)
INTEGERS = dict(lm=[9, 12, 20, 40, 55, 8], ldtime=[1, 4, 12, 24, 7, 52])


def pick(rng, ranges, cls):
    """values for a parameter set: cls none / few / all / odd"""
    if cls == "none":
        return None
    if cls == "empty":
        return {}
    names = list(ranges)
    if cls.startswith("each"):
        return each(rng, ranges, *cls.split(":")[1:])
    if cls == "few":
        names = [str(x) for x in rng.choice(names, size=min(3, len(names)), replace=False)]
    if cls in ("one", "edge1", "zero1"):
        names = [str(rng.choice(names))]
    if cls in ("edge", "zero"):
        names = [x for x in names if rng.random() < 0.6]
    out = {}
    for n in names:
        lo, hi, elo, ehi = ranges[n]
        out[n] = float(rng.uniform(lo, hi))
        if cls.startswith("edge"):
            r = rng.random()
            out[n] = float(elo if r < 0.3 else ehi if r < 0.6 else rng.uniform(elo, ehi))
        if cls.startswith("zero") and elo <= 0 <= ehi:
            out[n] = 0 if rng.random() < 0.5 else 0.0
    if cls.startswith("edge") and "threstemp" in out and rng.random() < 0.4:
        # so much warming that the upwelling turns
        out["threstemp"] = float(rng.uniform(0.2, 1.5))
    if cls == "odd":
        for n in list(out):
            r = rng.random()
            if r < 0.2:
                out[n] = "text"
            elif r < 0.3:
                out[n] = None
            elif r < 0.4:
                out[n] = [1.0, 2.0]
            elif r < 0.55:
                out[n] = np.float64(out[n])
            elif r < 0.65:
                out[n] = True if n == "k" else out[n]
            elif r < 0.8:
                del out[n]
        out["not_a_parameter"] = 3.0
    return out


def each(rng, ranges, kind, i):
    """all parameters, the i-th that can be so with a value of a particular kind"""
    i = int(i)
    out = {n: float(rng.uniform(lo, hi)) for n, (lo, hi, _, _) in ranges.items()}
    can = [n for n, (lo, hi, elo, ehi) in ranges.items()
           if (kind not in ("zero", "int0") or elo <= 0 <= ehi) and (kind not in ("int", "np.int64") or hi - lo >= 2)]
    if not can:
        return out
    n = can[i % len(can)]
    lo, hi, elo, ehi = ranges[n]
    val = {"zero": 0.0, "int0": 0, "lo": float(elo), "hi": float(ehi), "text": "0.3", "nothing": None, "list": [out[n]],
           "int": int(round(out[n])), "np.int64": np.int64(round(out[n])), "np.float64": np.float64(out[n])}
    if kind == "missing":
        del out[n]
    else:
        out[n] = val[kind]
    return out


KINDS = ["zero", "int0", "lo", "hi", "text", "nothing", "list", "int", "np.int64", "np.float64", "missing"]


def run_params(d, inp, rng):
    """concrete parameters of a run from its dimensions"""
    th = "twolayer" if inp.spec["thermal"] == "twolayer" else "udm"
    udm = pick(rng, RANGES[th], d.get("udm", "none"))
    if udm is not None and th == "udm":
        if d.get("grid"):
            udm["lm"] = int(rng.choice(INTEGERS["lm"]))
            udm["ldtime"] = int(rng.choice(INTEGERS["ldtime"]))
        if d.get("notrend"):
            udm["threstemp"] = 0
        if d.get("nodelta"):
            udm.pop("delta_lambda_aero", None)
    if d.get("delta"):
        udm = dict(udm or {})
        udm["delta_lambda_aero"] = float(rng.uniform(0.1, 0.8) * rng.choice([-0.5, 1]))
    emi = carbon = None
    life, just = "TAR", ""
    if inp.ec:
        emi = pick(rng, RANGES["emi"], d.get("emi", "none"))
        if d.get("life"):
            emi = dict(emi or {})
            life = emi["lifetime_mode"] = d["life"]
        need_ref = not (inp.y0 <= 2010 <= inp.y1)
        if need_ref or d.get("ref"):
            emi = dict(emi or {})
            emi["ref_yr"] = int(rng.integers(min(inp.y0 + 1, inp.y1), inp.y1 + 1))
        if not (inp.y0 <= 2000 <= inp.y1) and life == "TAR" and inp.mode == "em" and inp.emstart <= inp.y1:
            emi = dict(emi or {})
            life = emi["lifetime_mode"] = str(rng.choice(["CONSTANT_12", "WIGLEY", "OTHER"]))
        if d.get("just"):
            emi = dict(emi or {})
            just = emi["just_one"] = d["just"]
        kind = "box" if inp.spec["carbon"] == "box" else "joos"
        carbon = pick(rng, RANGES[kind], d.get("carbon", "none"))
        if kind == "joos" and d.get("resp"):
            carbon = dict(carbon or {})
            for w in ("rs", "rb"):
                if w in d["resp"]:
                    if "flat" in d["resp"]:
                        carbon.update(flat_response(rng, w, "gap" in d["resp"]))
                    else:
                        carbon[w + "_function"] = response(rng, w)
        if d.get("fixed"):
            emi = dict(emi or {})
            emi.update(dict(nystart=1800, nyend=1900, emstart=1801, idtm=3, conc_run=True))
            carbon = dict(carbon or {}, nystart=1700, nyend=1950, emstart=1802, idtm=2, years_tot=3)
    if d.get("fixed"):
        udm = dict(udm or {}, nystart=1700, nyend=1950, emstart=1802, idtm=2)
    return dict(udm=udm, emi=emi, carbon=carbon, life=life, just=just)
