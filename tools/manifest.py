"""writes MANIFEST.json (committed; this script is run by hand when checks are added)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYS = ("TLA+ specification of the model (reals as TLC operator overrides), scenarios generated by TLC from Gen.tla, replayed in the real "
       "code and every year of every recorded run checked by TLC against SystemTrace.tla")
CAR = "; histories of the carbon cycle on its own generated from CarbonGen.tla and checked by TLC against CarbonTrace.tla"
LIFE = ("histories generated by TLC from Lifecycle.tla, replayed in the real code; TLC (LifeTrace.tla) computes what each run depends on "
        "and requires equal results for runs that agree in it")
NOTE = ("Conformance of recorded behaviour with an explicit specification, over histories chosen by TLC to cover pairs of choices; "
        "bounded by the number, length and parameter ranges of the histories, real arithmetic in IEEE doubles with relative tolerance 1e-9.")
T = {
    "C01": LIFE, "C02": LIFE, "C03": LIFE + "; values in use additionally checked with SystemTrace.tla", "C04": SYS, "C05": SYS, "C06": SYS,
    "C07": SYS + ", against a control run without perturbations; " + LIFE, "C08": LIFE, "C09": SYS + CAR, "C10": SYS + CAR, "C11": SYS + CAR, "C12": SYS,
    "C13": SYS, "C14": SYS, "C15": SYS, "C21": LIFE,
    "C16": "TLA+ specification of the batching and the combined table (Par.tla) model checked for all interleavings at small sizes; its cases replayed into the real code and the tables checked by TLC (ParTrace.tla) against single runs",
    "C17": "TLA+ specification of bounded parallel processing (Jobs.tla), model checked with refinement to JobsAbs.tla and liveness; schedules generated by TLC are forced on the real code and what is observed is checked by TLC (JobsTrace.tla)",
    "C18": "TLA+ specification of routing, completeness and chunking (Distro.tla) model checked; real distributions, files and round trips generated from the specification's choices are checked by TLC (DistroTrace.tla)",
    "C19": "TLA+ specification of the named variables and their meaning (Reader.tla); every name is asked of runs generated by TLC and what comes back is checked by TLC (ReaderTrace.tla)",
    "C20": "TLA+ specification of what is on disk and in memory after a history of runs (Output.tla) model checked; histories generated by TLC are replayed, and the files and results checked by TLC after every run (OutputTrace.tla)",
    "C22": SYS, "C23": SYS,
    "C24": "TLA+ specification of what is refused and of what a refusal leaves behind (Refuse.tla) model checked; histories with faults generated by TLC are replayed and TLC (RefuseTrace.tla) decides from the contents of inputs and parameters which operations had to be refused or carried out, with results as without the refusals",
}
with open(os.path.join(HERE, "tools", "techniques.json"), encoding="utf8") as f:
    extra = json.load(f)
T.update({k: v["technique"] for k, v in extra.items()})
NOTES = {k: v["note"] for k, v in extra.items() if "note" in v}
import sys
sys.path.insert(0, os.path.join(HERE, "harness"))
import re
have = re.findall(r'"(C\d\d)"', open(os.path.join(HERE, "harness", "check.py"), encoding="utf8").read())
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf8")]
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="CICEROSCM_VERIF (unused: no hooks were needed)", enable="nothing to enable", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in have:
        m["checks"].append(dict(property=p, quick_cmd=f"bash run.sh {p} quick", thorough_cmd=f"bash run.sh {p} thorough",
                                technique=T[p], level="model_checking", level_note=NOTES.get(p, NOTE)))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as f:
    json.dump(m, f, indent=1)
