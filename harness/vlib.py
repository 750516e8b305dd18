"""Encoding, running TLC, verdicts and evidence."""
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAVA = os.path.join(VERIF, "java")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


def real(x):
    return "=" + struct.pack(">d", float(x)).hex()


def reals(xs):
    a = np.ascontiguousarray(np.asarray(xs, dtype=float).ravel(), dtype=">f8")
    return "#" + a.tobytes().hex()


def unreal(s):
    return struct.unpack(">d", bytes.fromhex(s[1:17]))[0]


class Scratch:
    """a scratch directory, removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def java_classes():
    """compiled operator overrides; rebuilt when a source is newer"""
    out = os.path.join(VERIF, ".build", "java")
    srcs = sorted(f for f in os.listdir(JAVA) if f.endswith(".java"))
    need = any(
        not os.path.exists(os.path.join(out, s[:-5] + ".class"))
        or os.path.getmtime(os.path.join(out, s[:-5] + ".class"))
        < os.path.getmtime(os.path.join(JAVA, s))
        for s in srcs
    )
    if need:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        subprocess.run(
            ["javac", "-nowarn", "-d", tmp, "-cp", CP] + [os.path.join(JAVA, s) for s in srcs],
            check=True, stdout=subprocess.DEVNULL,
        )
        shutil.rmtree(out, ignore_errors=True)
        os.replace(tmp, out)
    return out


class TlcError(Exception):
    pass


def tlc(module, scratch, env=None, cfg=None, args=(), workers=8, timeout=800, heap="8g", ok=(0,)):
    """run TLC on spec/module.tla; returns dict(lines, states, distinct, out)"""
    classes = java_classes()
    meta = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={scratch}",
           "-cp", classes + ":" + CP, "tlc2.TLC", "-deadlock", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE"]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [module + ".tla"]
    last = None
    for attempt in range(2):
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            last = f"TLC timed out on {module}: {ex}"
            continue
        out = p.stdout
        if p.returncode in ok:
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
            st = [int(x.replace(",", "")) for x in m[-1]] if m else [0, 0]
            return dict(lines=[ln[3:] for ln in out.splitlines() if ln.startswith("@@ ")],
                        generated=st[0], distinct=st[1], out=out, rc=p.returncode)
        keep = [ln for ln in out.splitlines() if not ln.startswith(("Parsing", "Semantic", "@@", "Warning"))]
        last = f"TLC failed on {module} (rc {p.returncode}):\n" + "\n".join(keep)[-2500:]
        if p.returncode in (10, 11, 12, 13):
            break
    raise TlcError(last)


def tla_value(s):
    """parse a printed TLA+ tuple of strings/ints/booleans/tuples/sets/records"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            return seq(">>")
        if s[pos] == "{":
            pos += 1
            return seq("}")
        if s[pos] == "[":
            pos += 1
            d = {}
            ws()
            while s[pos] != "]":
                ws()
                m = re.match(r"[\w]+", s[pos:])
                key = m.group(0)
                pos += len(key)
                ws()
                pos += 3
                d[key] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
            pos += 1
            return d
        if s[pos] == "(":
            pos += 1
            d = {}
            ws()
            while s[pos] != ")":
                key = val()
                ws()
                pos += 2
                d[key] = val()
                ws()
                if s.startswith("@@", pos):
                    pos += 2
                ws()
            pos += 1
            return d
        if s[pos] == '"':
            j = pos + 1
            buf = []
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                buf.append(s[j])
                j += 1
            pos = j + 1
            return "".join(buf)
        m = re.match(r"-?\d+", s[pos:])
        if m:
            pos += len(m.group(0))
            return int(m.group(0))
        m = re.match(r"\w+", s[pos:])
        pos += len(m.group(0))
        return {"TRUE": True, "FALSE": False}.get(m.group(0), m.group(0))

    def seq(end):
        nonlocal pos
        out = []
        ws()
        while not s.startswith(end, pos):
            out.append(val())
            ws()
            if s[pos] == ",":
                pos += 1
            ws()
        pos += len(end)
        return out

    return val()


def params(p):
    """a parameter dictionary for the specification"""
    out = {}
    for k, v in (p or {}).items():
        if k in ("rs_function", "rb_function") and isinstance(v, dict):
            out[k] = dict(k="fun", co=reals(v["coeffs"]), ti=reals(v["timescales"]))
        elif isinstance(v, bool) or isinstance(v, (int, float, np.integer, np.floating)):
            out[k] = dict(k="num", v=real(v))
        else:
            out[k] = dict(k="other")
    return out


class Check:
    """bookkeeping of one check: verdict, evidence, known findings"""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol = []
        self.known = []
        self.assumptions = []
        self.findings = []
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            with open(kf, encoding="utf8") as f:
                self.findings = [x for x in json.load(f)["open"] if x["property"] == prop]

    def add_tlc(self, r):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, ident, what, replay=None):
        """ident: identifies the failing clause and history"""
        for f in self.findings:
            if re.search(f["match"], ident + " " + what):
                if f not in self.known:
                    self.known.append(f)
                return
        self.viol.append(dict(id=ident, what=what, replay=replay))

    def finish(self):
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        rc = 0
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.viol:
            rc = 1
            path = os.path.join(VERIF, "evidence", f"{self.prop}-replay.json")
            with open(path, "w", encoding="utf8") as f:
                json.dump(self.viol[:200], f, indent=1, default=str)
            for v in self.viol[:10]:
                print(f"  {v['id']}: {v['what']}"[:400])
            print(f"VIOLATION property={self.prop} replay={path}")
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.json")
        with open(tmp, "w", encoding="utf8") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))
        print(f"{self.prop} {TIER}: {'violated' if rc else 'held'}; {self.cov['traces_validated_against_impl']} "
              f"traces, {self.cov['states']} states, {ev['wall_s']} s")
        sys.stdout.flush()
        return rc
