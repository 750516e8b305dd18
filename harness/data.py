"""Input data for scenarios, read with parsers of our own (not the repository's readers)."""
import os

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
TD = os.path.join(REPO, "tests", "test-data")
DD = os.path.join(REPO, "src", "ciceroscm", "default_data")

TABLES = {
    "v1": "gases_v1RCMIP.txt",
    "ar6": "gases_vupdate_2022_AR6.txt",
    "wmo": "gases_vupdate_2024_WMO.txt",
    "wmonew": "gases_vupdate_2024_WMO_added_new.txt",
}
NUMCOLS = ["beta", "alpha", "tau1", "tau2", "tau3", "nat", "sarf"]
_cache = {}


def _lines(path):
    if path not in _cache:
        with open(path, encoding="utf8") as f:
            _cache[path] = [ln.rstrip("\n") for ln in f if ln.strip()]
    return _cache[path]


def gas_table(name):
    """name -> ordered dict gas -> dict(em_unit, conc_unit, beta, ...)"""
    out = {}
    for ln in _lines(os.path.join(TD, TABLES[name]))[1:]:
        p = ln.split()
        out[p[0]] = dict(
            em_unit=p[1], conc_unit=p[2], **{c: float(x) for c, x in zip(NUMCOLS, p[3:10])}
        )
    return out


def year_table(fname):
    """emission / concentration file -> (names, years, array)"""
    lines = _lines(os.path.join(TD, fname))
    names = lines[0].split()[1:]
    seen = set()
    for i, n in enumerate(names):
        if n == "CO2" and "em_" in fname:
            names[i] = "CO2_FF" if "CO2_FF" not in seen else "CO2_AFOLU"
        seen.add(names[i])
    units = lines[1].split()[1:]
    rows = [ln.split() for ln in lines[4:]]
    years = [int(r[0]) for r in rows]
    arr = np.array([[float(x) for x in r[1 : len(names) + 1]] for r in rows])
    return names, units, years, arr


def rows(path):
    return [[float(x) for x in ln.split()] for ln in _lines(path)]


def column(path):
    return np.array([r[0] for r in rows(path)])
