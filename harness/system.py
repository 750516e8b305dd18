"""Replaying histories in the real code and judging them with spec/SystemTrace.tla."""
import concurrent.futures
import json
import os
import re

import families
import gen
import record
import vlib


def _tlc(chk, module, out, scratch, tag, workers=8):
    path = os.path.join(scratch, f"traces{tag}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(out, f)
    try:
        return vlib.tlc(module, scratch, env=dict(TRACES=path), timeout=3000, workers=workers,
                        heap="8g" if workers > 1 else "3g")
    finally:
        os.remove(path)


def _one(args):
    """a single trace, when the batch could not be evaluated"""
    module, out, scratch, tag = args
    try:
        return _tlc(None, module, out, scratch, tag, workers=1), None
    except vlib.TlcError as e:
        return None, str(e)


EVAL = re.compile(r"Attempted to|evaluating|is not in the domain|Fx|nested expressions|out of range|applied to an? argument")


def judge(chk, jobs, scratch, module="SystemTrace", batch=64):
    """-> list of failures dict(trace, clause, where, msg); every other clause of every trace held"""
    fails = []
    for b in range(0, len(jobs), batch):
        part = jobs[b : b + batch]
        out = record.run_all(part)
        lines, sick = [], {}
        try:
            r = _tlc(chk, module, out, scratch, b)
            chk.add_tlc(r)
            lines = r["lines"]
        except vlib.TlcError as e:
            if not EVAL.search(str(e)):
                raise
            # what was recorded is outside what the specification can speak about: find the traces
            args = [(module, dict(traces=[t], inputs=out["inputs"]), scratch, f"{b}_{i}") for i, t in enumerate(out["traces"])]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for a, (r, err) in zip(args, ex.map(_one, args)):
                    if r is not None:
                        chk.add_tlc(r)
                        lines += r["lines"]
                    elif EVAL.search(err):
                        sick[a[1]["traces"][0]["id"]] = err[-600:]
                    else:
                        raise vlib.TlcError(err)
        done = set()
        for ln in lines:
            v = vlib.tla_value(ln)
            if v[0] == "FAIL":
                f = dict(trace=v[1], clause=v[2], where=v[3], msg=v[4])
                if f not in fails:
                    fails.append(f)
            elif v[0] == "DONE":
                done.add(v[1])
                if len(v) > 2:
                    chk.cov["pairs_of_runs_compared"] = chk.cov.get("pairs_of_runs_compared", 0) + v[2]
        for k, msg in sick.items():
            fails.append(dict(trace=k, clause="exception", where="unspecified", msg=msg))
        ended = done | {f["trace"] for f in fails if re.match(r"exception|keys|shape|years", f["clause"])}
        missing = [j["id"] for j in part if j["id"] not in ended]
        if missing:
            raise vlib.TlcError(f"{module}: no verdict on {missing[:3]}")
        chk.cov["traces_validated_against_impl"] += len(part)
    return fails


def make(chk, prop, scratch, count=None):
    """the jobs of a property's families"""
    count = count or families.COUNT[prop][0 if vlib.TIER != "thorough" else 1]
    jobs = []
    info = {}
    for fi, (name, share, dims, runs) in enumerate(families.FAM[prop]):
        want = max(8, int(round(count * share)))
        scens, cov = gen.scenarios(dims, want, scratch, 1000 * vlib.SEED + 17 * fi + 1)
        info[name] = dict(histories=len(scens), **cov)
        for i, s in enumerate(scens):
            jobs.append(gen.job(f"{prop}/{name}/{i}", s, [vlib.SEED, fi, i], os.path.join(scratch, f"{name}{i}"), runs))
    chk.cov["families"] = info
    return jobs


def brief(job):
    return dict(id=job["id"], insts=job["insts"], ops=job["ops"], **({"alone": job["alone"]} if job.get("alone") else {}))


def report(chk, fails, jobs, pattern):
    byid = {j["id"]: j for j in jobs}
    for f in fails:
        if re.match(pattern, f["clause"]):
            chk.violation(f"{f['trace']} {f['where']} {f['clause']}", f["msg"],
                          dict(job=brief(byid[f["trace"]]), seed=byid[f["trace"]]["seed"]))
        else:
            chk.cov.setdefault("other_clauses_failing", [])
            if len(chk.cov["other_clauses_failing"]) < 5:
                chk.cov["other_clauses_failing"].append(f)


def plain(prop):
    def run(chk, scratch):
        jobs = make(chk, prop, scratch)
        for j in jobs[:3]:
            chk.sample(brief(j))
        report(chk, judge(chk, jobs, scratch), jobs, families.CLAUSES[prop])
    return run
