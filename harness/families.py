"""Families of scenarios: the choices spec/Gen.tla makes for a property, and the clauses that decide it.

A family is (dimension -> values, number of runs). The order of dimensions matters to the generator:
what a choice depends on comes first.
"""

Y = [1750, 1751, 1801, 1900, 1960, 1993, 1700, 2060, 2440]
N = [12, 31, 60, 1, 2, 3, 4]
FORMS = dict(gasform=["file", "data"], emform=["file", "data"], concform=["file", "data"],
             before=[0, 4, 0, 9], after=[0, 6])
THERMAL = ["default", "twolayer"]
EMSTART = ["default", "before", "first", "second", "third", "mid", "lastbut1", "last", "after"]
SV = ["off", "unswitched0", "default", "file", "data", "single_file", "single_data", "north_data", "south_file"]
TABLES = ["v1", "ar6", "wmo", "wmonew"]
NOISE = ["noisy", "base", "strong", "negative", "zero", "coldstart", "fall", "fall", "methane"]
LIFE = ["TAR", "CONSTANT_12", "WIGLEY", "OTHER"]
JUST = ["none", "none", "CO2", "CH4", "TROP_O3", "SO2", "BC", "STRAT_O3", "STRAT_H2O", "LANDUSE", "SO4_IND", "OTHER",
        "CFC-11", "SF6"]
CLS = ["none", "few", "all", "odd", "edge", "zero", "zero1"]
PC = ["none", "empty", "one", "few", "all", "odd", "edge", "edge1", "zero", "zero1"]
RESP = ["none", "rs", "rb", "rs+rb", "rs+rb+flat", "rs+flat+gap", "rb+flat"]


def ec(mode=("em", "conc"), thermal=THERMAL, carbon=("default", "box"), n=N, y0=Y, **kw):
    d = dict(mode=list(mode), y0=list(y0), n=list(n), thermal=list(thermal), carbon=list(carbon))
    d.update(kw)
    return d


def rf(n=(5, 31, 90, 1, 2), y0=Y + [1, 850], thermal=THERMAL, **kw):
    d = dict(mode=["rf"], y0=list(y0), n=list(n), thermal=list(thermal))
    d.update(kw)
    return d


FX = dict(forc=["array", "arrayfile", "hemi", "comp"], fshape=["walk", "step", "strong", "cold", "zero", "tiny"],
          before=[0, 3], after=[0, 5], w_aero=[False, True], gaps=[0, 0, 1], faero=[True, False], forcform=["file", "data"], ftot=[0, 0, 0, 1, "only"])
VC = dict(sv=SV, vcols=[12, 1, 4, 3])

# property -> list of (name, share, dims, runs)
FAM = {
    "C03": [("em", 0.5, ec(mode=["em", "em", "conc"], thermal=THERMAL, n=[12, 25], y0=[1991, 1995, 1900], idtm=[12, 24], emstart=["first", "default"], noise=["strong", "noisy", "coldstart"], sv=["off", "data"],
                           r1_udm=PC, r1_emi=PC, r1_cpars=PC, r1_cresp=RESP, r1_delta=[0, 0, 1], r1_carbonout=[True, False], r1_ref=[0, 1],
                           r2_udm=PC, r2_emi=PC, r2_cpars=PC, r2_cresp=RESP, r2_carbonout=[True, False], r2_fixed=[0, 1]), 2),
            ("rf", 0.2, rf(n=[12, 40], forc=["comp", "hemi"], fshape=["walk", "strong", "cold"], w_aero=[0, 1], sv=["off", "data"], r1_udm=PC, r1_grid=[0, 1],
                           r1_delta=[0, 1], r2_udm=PC), 2)],
    "C04": [("gas", 1.0, ec(thermal=["twolayer"], n=[12, 31, 60, 120, 1, 2, 3], emstart=EMSTART, idtm=[6, 12], table=TABLES,
                            gasnoise=[0, 1, 1, 2], newgas=[0, 1], dropgas=[0, 5], noise=NOISE + ["swing"], nat=["file", "data", "none"],
                            shuffle=[0, 1], **FORMS, r1_life=LIFE, r1_ref=[0, 1], r1_emi=["none", "few"], r2_life=LIFE), 2)],
    "C05": [("sum", 0.45, ec(thermal=["default", "default", "default", "twolayer"], n=[8, 20, 45, 4], carbon=["box"], table=TABLES, alphas=[0, 1, 1],
                             regional=["none", "none", "BC", "SO2+OC"], noise=["noisy", "strong", "coldstart", "fall"], pforc=[0, 3, 30],
                             luc=["default", "data", "zero"], sv=SV, vcols=[12, 1, 4], shuffle=[0, 1], r1_emi=["all", "edge", "few", "odd"],
                             r1_delta=[0, 1], r2_emi=["all", "few"]), 2),
            ("just", 0.55, ec(thermal=THERMAL, n=[8, 20, 45, 1, 4], carbon=["default", "box", "box"], idtm=[6], table=TABLES, alphas=[0, 1],
                              regional=["none", "none", "BC", "SO2+OC"], noise=["noisy", "strong", "coldstart"], pforc=[0, 3],
                              luc=["default", "data", "zero"], sv=SV, vcols=[12, 1, 4], shuffle=[0, 1], r1_emi=CLS, r1_just=JUST,
                              r1_delta=[0, 1], r2_emi=["none", "few"], r2_just=JUST), 2)],
    "C06": [("form", 1.0, ec(thermal=["twolayer"], carbon=["box", "default"], n=N, emstart=EMSTART, idtm=[6], table=TABLES, gasnoise=[0, 1, 2],
                             newgas=[0, 1, 2], dropgas=[0, 4], alphas=[0, 1], noise=NOISE + ["swing", "swing"], luc=["default", "file", "data", "zero"],
                             shuffle=[0, 1], **FORMS, r1_emi=CLS, r1_ref=[0, 1], r1_fixed=[0, 1], r2_emi=CLS), 2)],
    "C09": [("mild", 0.25, ec(mode=["em", "conc"], carbon=["box"], thermal=["default"], n=[8, 31, 60], emstart=["default", "first", "mid"],
                              table=TABLES[:2], noise=NOISE[:5], pem=[0, 4], r1_udm=["none", "all"], r1_cpars=["none", "one", "few", "odd"], r1_carbonout=[True, False],
                              r2_cpars=["none", "few"], r2_carbonout=[True, False]), 2),
            ("box", 0.75, ec(mode=["em", "em", "em", "conc"], carbon=["box"], thermal=["twolayer"], n=[8, 31, 60, 150, 1, 2], emstart=["default", "first", "mid"],
                            table=TABLES[:2], gasnoise=[0, 1], noise=NOISE + ["drawdown", "hump", "extreme"], pem=[0, 4], r1_udm=["none", "all"],
                            r1_cpars=["none", "one", "all", "odd", "edge", "edge", "zero", "zero1"], r1_carbonout=[True, True, False],
                            r2_cpars=["none", "few"], r2_carbonout=[True, False]), 2)],
    "C10": [("joos", 1.0, ec(mode=["em"], carbon=["default"], thermal=["twolayer", "twolayer", "default"], n=[8, 31, 60, 140, 1, 2],
                             emstart=["default", "first", "mid"], idtm=[24, 6, 12, 31], gasnoise=[0, 1], noise=NOISE + ["strong", "extreme", "drawdown", "hump"],
                             pem=[0, 4], resp=["none", "none", "rs", "rb", "rs+rb"], r1_udm=["none", "all"], r1_cpars=["none", "one", "all", "odd", "edge", "edge", "zero", "zero1"], r1_cresp=RESP,
                             r1_carbonout=[False, True], r2_cpars=["none", "few"], r2_cresp=RESP), 2)],
    "C11": [("conc", 0.6, ec(mode=["conc"], carbon=["default", "default", "default", "box"], thermal=["twolayer", "twolayer", "default"], n=[8, 20, 31, 1, 2, 165],
                             idtm=[24, 6, 12], noise=["noisy", "base", "saw", "saw"], resp=["none", "none", "rs+rb"],
                             r1_cpars=["none", "few"], r1_cresp=["none", "none", "rs+rb", "rs+flat"], r1_carbonout=[True], r2_cpars=["none", "one"],
                             r2_cresp=["none", "rb"], r2_carbonout=[True, False, True]), 2),
            ("em", 0.4, ec(mode=["em"], thermal=["twolayer", "default"], n=[8, 31, 60, 1, 2, 170], idtm=[24, 6], emstart=["first", "mid", "default"],
                           noise=NOISE, pem=[0, 3], r1_cpars=["none", "all"], r1_cresp=["none", "rs+rb"], r1_carbonout=[True],
                           r2_cpars=["none", "one"], r2_carbonout=[True, False]), 2)],
    "C12": [("rf", 0.8, rf(thermal=["twolayer"], n=[5, 31, 90, 250, 1, 2], **FX, **VC, r1_udm=["none", "one", "all", "all", "odd", "edge", "zero"], r1_delta=[0, 1],
                           r2_udm=["none", "few", "edge1"]), 2),
            ("ec", 0.2, ec(mode=["conc", "em"], thermal=["twolayer"], carbon=["box"], n=[12, 31], sv=SV, r1_udm=["none", "all"], r1_delta=[0, 1]), 1)],
    "C13": [("rf", 0.8, rf(thermal=["default"], n=[5, 31, 90, 1, 2], **FX, **VC, r1_udm=["none", "one", "all", "all", "odd", "edge", "zero"], r1_grid=[0, 1, 1],
                           r1_notrend=[0, 0, 1], r1_delta=[0, 1], r2_udm=["none", "few", "edge1"], r2_grid=[0, 0, 1]), 2),
            ("ec", 0.2, ec(mode=["conc", "em"], thermal=["default"], carbon=["box"], n=[12, 31], sv=SV, r1_udm=["none", "all"], r1_grid=[0, 1]), 1)],
    "C14": [("agents", 0.25, rf(n=[8, 25], forc=["comp"], fshape=["walk", "strong", "cold"], before=[0, 3], after=[0, 4], gaps=[0, 1], sv=["off", "data"],
                                r1_udm=["none", "all"], r1_delta=[1], r2_udm=["few"], r2_delta=[1]), 2),
            ("rf", 0.35, rf(n=[8, 31], forc=["hemi", "comp", "comp", "comp", "array"], fshape=["walk", "strong", "cold", "zero"], before=[0, 3], after=[0, 4],
                            w_aero=[False, True, True], gaps=[0, 1, 1], faero=[True, True, False], ftot=[0, 0, 0, 1], forcform=["file", "data"], sv=["off", "data"],
                            r1_udm=["none", "all"], r1_delta=[1], r2_delta=[1, 0]), 2),
            ("ec", 0.45, ec(carbon=["box"], n=[8, 25], table=TABLES, alphas=[0, 1], regional=["none", "BC", "SO2+OC"],
                            noise=["noisy", "strong", "coldstart", "zero", "tiny", "tiny"], pforc=[0, 4], sv=["off", "data"], r1_udm=["none", "all"],
                            r1_emi=["none", "all"], r1_just=JUST, r1_delta=[1], r2_delta=[1, 0], r2_emi=["none", "few"]), 2)],
    "C15": [("ec", 0.8, ec(n=[5, 12, 31, 60, 1, 2, 3], emstart=EMSTART, idtm=[24, 6], noise=["noisy", "strong", "coldstart"], gasnoise=[0, 1], pem=[0, 3], pforc=[0, 2],
                           **FORMS, **VC, r1_udm=["none", "all"], r1_cpars=["none", "all"], r1_emi=["none", "few"],
                           r1_carbonout=[False, True], r2_udm=["none", "few"]), 2),
            ("rf", 0.2, rf(n=[5, 20, 1], **FX, **VC, r1_udm=["none", "all"]), 1)],
    "C22": [("rf", 1.0, rf(n=[5, 12, 40, 1, 2], **FX, **VC, r1_udm=["none", "few"], r1_delta=[0, 1], r2_udm=["none"]), 2)],
    "C23": [("reg", 1.0, ec(thermal=["twolayer"], carbon=["box"], n=[8, 25], table=TABLES, alphas=[0, 1],
                            regional=["BC", "OC", "SO2", "BC+OC", "SO2+OC", "SO2+BC+OC"], nreg=[5, 1, 3],
                            builder=["", "default", "swap", "two", "same", "one", "none"], conv=[0, 1, 1e6], zerofactor=[0, 0, 1], size=[1, 0.1, 10, 100], noise=["noisy", "strong"],
                            pforc=[0, 3], gasform=["file", "data"], emform=["file", "data"], shuffle=[0, 1], r1_emi=CLS,
                            r2_emi=["none", "all"]), 2)],
}

# clauses (regular expressions matched from the start of the clause name)
CLAUSES = {
    "C03": r"",
    "C04": r"conc\.(?!TROP_O3)|years\.concentrations|shape\.concentrations|exception",
    "C05": r"total|thermal|exception",
    "C06": r"forc\.|conc\.TROP_O3|shape\.forcing|exception",
    "C09": r"carbon|exception",
    "C10": r"carbon\.|exception",
    "C11": r"backcalc|carbonout|keys|shape\.carbon|years\.carbon|exception",
    "C12": r"thermal|exception",
    "C13": r"thermal|exception",
    "C14": r"thermal|exception",
    "C15": r"",
    "C22": r"fxtotal|thermal|sun|volc|exception",
    "C23": r"regtable|forc\.|total|exception",
}
COUNT = {  # histories in quick, thorough
    "C03": (40, 400), "C04": (80, 600), "C05": (80, 600), "C06": (80, 600), "C09": (64, 600), "C10": (60, 500), "C11": (48, 400),
    "C12": (80, 700), "C13": (56, 500), "C14": (56, 500), "C15": (64, 500), "C22": (90, 800), "C23": (72, 600),
}
