"""Scenarios from the specification's generator (spec/Gen.tla, TLC in simulation mode)."""
import itertools
import json
import os

import numpy as np

import vlib


def scenarios(values, want, scratch, seed, pool=None, strength=2):
    """values: dimension -> list of values (order matters). Returns `want` scenarios (dicts) out of a
    pool of behaviours of Gen, chosen to cover pairs of dimension values."""
    dims = [dict(name=k, base=k.split("_", 1)[1] if k[:1] == "r" and k[1:2].isdigit() else k) for k in values]
    path = os.path.join(scratch, f"dom{seed}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(dict(dims=dims, values=values), f)
    pool = pool or max(200, 12 * want)
    r = vlib.tlc("Gen", scratch, env=dict(DOM=path), workers=1,
                 args=["-simulate", f"num={pool}", "-depth", str(len(values) + 3), "-seed", str(seed)])
    cand = []
    for ln in r["lines"]:
        v = vlib.tla_value(ln)
        if v[0] == "SCEN":
            cand.append((v[1], v[2]))
    if not cand:
        raise vlib.TlcError("no scenarios generated:\n" + r["out"][-2000:])
    rng = np.random.default_rng(seed)
    order = rng.permutation(len(cand))
    cand = [cand[j] for j in order]

    def tuples(c):
        c = c[0]
        items = sorted((k, str(v)) for k, v in c.items())
        out = set((x,) for x in items)
        if strength > 1:
            out |= set(itertools.combinations(items, 2))
        return out

    sets = [tuples(c) for c in cand]
    chosen, covered = [], set()
    left = set(range(len(cand)))
    while left and len(chosen) < want:
        best = max(left, key=lambda j: (len(sets[j] - covered), -j))
        c, emstart = cand[best]
        c = dict(c)
        if c.get("emstart") == "default":
            del c["emstart"]
        elif "emstart" in c:
            c["emstart"] = emstart
        chosen.append(c)
        covered |= sets[best]
        left.discard(best)
    total = len(set().union(*sets))
    return chosen, dict(pool=len(cand), pairs_covered=len(covered), pairs_in_pool=total)


def is_run(k):
    return k[:1] == "r" and k[1:2].isdigit()


def clean(d):
    for k in ("resp", "regional"):
        if k in d:
            d[k] = [x for x in str(d[k]).split("+") if x and x != "none"]
    for k in ("just", "life"):
        if d.get(k) == "none":
            d[k] = ""
    return d


def dims_of(s):
    """the dimensions of the instance"""
    return clean({k: v for k, v in s.items() if not is_run(k)})


def job(ident, s, seed, tmp, runs):
    """a generated scenario as a history of one instance"""
    ops = [dict(op="new", inst="a")]
    for i in range(1, runs + 1):
        o = {k.split("_", 1)[1]: v for k, v in s.items() if k.startswith(f"r{i}_")}
        if i > 1 and not o:
            continue
        if "cpars" in o:
            o["carbon"] = o.pop("cpars")
        if "cresp" in o:
            o["resp"] = o.pop("cresp")
        ops.append(clean(dict(op="run", inst="a", **o)))
    return dict(id=ident, seed=seed, insts={"a": dims_of(s)}, ops=ops, tmp=tmp)
