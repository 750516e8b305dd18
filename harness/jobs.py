"""C17: job processing. Schedules are behaviours of spec/Jobs.tla (model checked exhaustively for small sizes against
spec/JobsAbs.tla); each is forced on the real code with an executor that ends jobs in the given order, and what is
observed is judged with spec/JobsTrace.tla."""
import collections
import concurrent.futures as cf
import contextlib
import io
import json
import os
import random
import sys
import threading
import time

import record  # noqa: F401  (finds the code)
import vlib


class Boom(Exception):
    def __init__(self, job=0):
        super().__init__(job)
        self.job = job


class Log:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = []

    def add(self, **e):
        with self.lock:
            self.events.append(e)


class Controlled(cf.Executor):
    """at most w jobs at a time, started in the order they come, ending in the given order as far as possible"""

    def __init__(self, workers, order, withhold=(), bare=0):
        self.bare = bare
        self.cv = threading.Condition()
        self.queue = []
        self.running = []     # (future, call, job)
        self.order = list(order)
        self.withhold = set(withhold)
        self.workers = workers
        self.open = True
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def submit(self, fn, /, *args, **kwargs):
        f = cf.Future()
        with self.cv:
            self.queue.append((f, fn, args, kwargs))
            self.cv.notify_all()
        return f

    def job(self, item):
        for a in list(item[2]) + list(item[3].values()):
            if isinstance(a, (Arg, Empty)):
                return a.job
            if isinstance(a, dict):
                for b in a.values():
                    if isinstance(b, Arg):
                        return b.job
        return self.bare

    def loop(self):
        idle = 0
        while True:
            with self.cv:
                if not self.open:
                    break
                # start what can be started
                while self.queue and len(self.running) < self.workers:
                    it = self.queue.pop(0)
                    if it[0].set_running_or_notify_cancel():
                        self.running.append(it)
                pick = None
                cand = [r for r in self.running if self.job(r) not in self.withhold]
                if cand:
                    want = next((j for j in self.order), None)
                    pick = next((r for r in cand if self.job(r) == want), None)
                    if pick is None and (idle > 3 or want is None):
                        pick = min(cand, key=lambda r: self.order.index(self.job(r)) if self.job(r) in self.order else 99)
                if pick is None:
                    self.cv.wait(0.01)
                    idle += 1
                    continue
                idle = 0
                self.running.remove(pick)
                if self.job(pick) in self.order:
                    self.order.remove(self.job(pick))
            f, fn, a, kw = pick
            try:
                f.set_result(fn(*a, **kw))
            except BaseException as e:  # noqa
                f.set_exception(e)
            if self.slow:
                time.sleep(0.002)

    slow = True

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.cv:
            self.open = False
            self.cv.notify_all()
        self.thread.join()


class Arg:
    """an argument that knows its job"""

    def __init__(self, job):
        self.job = job

    def __eq__(self, o):
        return True   # all arguments look alike

    def __hash__(self):
        return 7


class Empty(dict):
    """an argument that is empty, and counts as false"""

    def __init__(self, job):
        super().__init__()
        self.job = job

    def __hash__(self):
        return 7


class Ret:
    def __init__(self, job):
        self.job = job


class RetExc(Exception):
    """an exception that is a result, not a failure"""

    def __init__(self, job=0):
        super().__init__(job)
        self.job = job


def proc_func(a=0, b=0, path="", fail=()):
    """in another process; logs to a file"""
    def say(e):
        fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(e) + "\n").encode())
        os.close(fd)
    say(dict(ev="call", job=a if a == b else 0))
    time.sleep(0.003 * ((a * 7) % 5))
    say(dict(ev="end", job=a))
    if a in fail:
        raise Boom(a)
    return ["r", a]


def proc_pos(d):
    return proc_func(**d)


def play(s, scratch):
    """one schedule in the real code -> trace"""
    from ciceroscm.parallel._parallel_process import _parallel_process

    n, fail = s["n"], set(s["fail"])
    log = Log()
    kw = s["kwargs"]
    path = os.path.join(scratch, f"calls{s['id'].replace('/', '_')}")

    def body(x, y):
        j = x.job if x is not None and y is not None and x.job == y.job else s.get("bare", 0) if x is None and y is None else 0
        log.add(ev="call", job=j)
        log.add(ev="end", job=j)
        if j in fail:
            raise Boom(j)
        if s.get("retexc"):
            return RetExc(j)
        if s.get("retnone") and j % 2:
            return None
        return Ret(j)

    def func_kw(a=None, b=None):
        return body(a, b)

    def func_pos(d):
        return body(d, d) if isinstance(d, Empty) else body(d["a"], d["b"])

    args = [dict(a=Arg(j), b=Arg(j)) for j in range(1, n + 1)]
    # objects shared between jobs' arguments are their own
    for d in args:
        d["b"].job = d["a"].job
    if s.get("bare") and not kw:
        args[s["bare"] - 1] = Empty(s["bare"])
    elif s.get("bare"):
        # a job without arguments
        args[s["bare"] - 1] = {}
    func = func_kw if kw else func_pos
    opt = {}
    if s["fs"] is not None:
        opt["front_serial"] = s["fs"]
    if s["fp"] is not None:
        opt["front_parallel"] = s["fp"]
    if s.get("limit"):
        opt["timeout"] = s["timeout"]
    pool = None
    real = None
    if s["pool"] == "controlled":
        pool = Controlled(s["w"], s["order"], s.get("withhold", ()), s.get("bare", 0))
    elif s["pool"] == "thread":
        pool = cf.ThreadPoolExecutor(s["w"])
    elif s["pool"] == "process":
        pool = cf.ProcessPoolExecutor(s["w"])
        args = [dict(a=j, b=j, path=path, fail=sorted(fail)) for j in range(1, n + 1)]
        func = proc_func if kw else proc_pos
        real = path
    conf = tuple(args) if s.get("tuple") else args
    out = None
    try:
        res = _parallel_process(func, conf, pool=pool, config_are_kwargs=kw, **opt)
        vals = []
        try:
            for i, r in enumerate(res):
                if isinstance(r, (Ret, RetExc)):
                    vals.append(r.job)
                elif isinstance(r, list) and len(r) == 2 and r[0] == "r":
                    vals.append(r[1])
                elif r is None and s.get("retnone") and (i + 1) % 2:
                    vals.append(i + 1)
                else:
                    vals.append(0)
            out = dict(ev="results", value=vals)
        except TypeError:
            out = dict(ev="raised", job=0, what=f"no sequence of results: {type(res).__name__}")
    except Boom as e:
        out = dict(ev="raised", job=e.job, what=f"the failure of job {e.job}")
    except (cf.TimeoutError, TimeoutError) as e:
        out = dict(ev="time")
    except Exception as e:  # noqa
        out = dict(ev="raised", job=0, what=repr(e)[:200])
    with log.lock:
        ev = list(log.events)
    if s["pool"] == "thread" or s["pool"] == "controlled":
        with contextlib.suppress(Exception):
            pool.shutdown(wait=s["pool"] == "controlled", cancel_futures=True)
    elif s["pool"] == "process":
        pool.shutdown(wait=False, cancel_futures=True)
        with open(real, encoding="utf8") if os.path.exists(real) else contextlib.nullcontext([]) as f:
            ev = [json.loads(x) for x in f]
    # what was not over when the caller had its answer is not asked about
    return dict(id=s["id"], n=n, fail=sorted(fail), limit=bool(s.get("limit")), events=ev + [out])


def schedules(chk, scratch):
    quick = vlib.TIER != "thorough"
    small = dict(n=4, fs=2, fp=2, workers=2, fails=2, limit=True, emit=False) if quick else \
        dict(n=5, fs=4, fp=3, workers=4, fails=3, limit=True, emit=False)
    p = os.path.join(scratch, "jobs.json")
    json.dump(small, open(p, "w", encoding="utf8"))
    r = vlib.tlc("Jobs", scratch, env=dict(DOM=p))
    chk.add_tlc(r)
    chk.cov["model_checked"] = dict(bounds=small, distinct_states=r["distinct"],
                                    checked="Jobs implements JobsAbs, invariants, always an outcome")
    got = {}
    gens = [(dict(n=3, fs=2, fp=2, workers=2, fails=1, limit=True, emit=True), None, 150 if quick else 600),
            (dict(n=8, fs=4, fp=4, workers=4, fails=1, limit=False, emit=True), 400 if quick else 4000, 150 if quick else 1500),
            (dict(n=11, fs=3, fp=3, workers=5, fails=0, limit=False, emit=True), 300 if quick else 2000, 80 if quick else 800)]
    rng = random.Random(vlib.SEED)
    out = []
    for gi, (dom, sim, want) in enumerate(gens):
        json.dump(dom, open(p, "w", encoding="utf8"))
        args = ["-simulate", f"num={sim}", "-depth", "120", "-seed", str(1000 * vlib.SEED + gi)] if sim else []
        r = vlib.tlc("Jobs", scratch, env=dict(DOM=p), cfg="JobsGen.cfg", args=args, workers=1 if sim else 4)
        chk.add_tlc(r)
        seen = {}
        for ln in r["lines"]:
            v = vlib.tla_value(ln)
            if v[0] == "JOBS":
                seen[json.dumps(v[1], sort_keys=True)] = v[1]
        items = [seen[x] for x in sorted(seen)]
        got[str(dom)] = len(items)
        # spread over sizes
        groups = collections.defaultdict(list)
        for x in items:
            groups[(x["n"], x["fs"], x["fp"], x["w"], x["outcome"])].append(x)
        for g in groups.values():
            rng.shuffle(g)
        keys = sorted(groups)
        rng.shuffle(keys)
        pick = []
        while len(pick) < want and keys:
            for kk in list(keys):
                if not groups[kk]:
                    keys.remove(kk)
                elif len(pick) < want:
                    pick.append(groups[kk].pop())
        out += pick
    chk.cov["schedules_generated"] = got
    return out


def c17(chk, scratch):
    rng = random.Random(vlib.SEED + 5)
    todo = []
    for i, s in enumerate(schedules(chk, scratch)):
        s = dict(s, id=f"C17/{i}", kwargs=rng.random() < 0.5, tuple=rng.random() < 0.2, pool="controlled" if s["w"] else None)
        s["fail"] = list(s["fail"])
        s["order"] = list(s["order"])
        if s["limit"]:
            s["timeout"] = 60
        if s["outcome"] == "time":
            s["timeout"] = 0.15
            s["withhold"] = [j for j in range(1, s["n"] + 1) if j not in s["order"]]
        elif s["outcome"] == "raised":
            # jobs the caller did not wait for
            s["order"] += [j for j in range(1, s["n"] + 1) if j not in s["order"]]
        if not s["fail"] and rng.random() < 0.3:
            s[rng.choice(["retexc", "retnone"])] = True
        if s["n"] and rng.random() < 0.3:
            s["bare"] = rng.randint(1, s["n"])
        todo.append(s)
    todo = [s for s in todo if s["outcome"] != "time"] + [s for s in todo if s["outcome"] == "time"][: 12 if vlib.TIER != "thorough" else 60]
    # pools of the standard library, default front sizes
    for i in range(10 if vlib.TIER != "thorough" else 60):
        n = rng.randrange(0, 12)
        todo.append(dict(id=f"C17/std{i}", n=n, fs=rng.choice([None, 0, 1, 3]), fp=rng.choice([None, 0, 2]),
                         w=rng.randrange(1, 5), fail=rng.sample(range(1, n + 1), 1) if n and i % 3 == 0 else [],
                         pool=["thread", "process"][i % 2], kwargs=rng.random() < 0.5, order=[], limit=i % 4 == 1, timeout=120, outcome="?"))
    sleep = time.sleep
    time.sleep = lambda x: sleep(min(x, 0.01))
    err = sys.stderr
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sys.stderr = io.StringIO()
            traces = [play(s, scratch) for s in todo]
    finally:
        time.sleep = sleep
        sys.stderr = err
    chk.cov["outcomes"] = dict(collections.Counter(t["events"][-1]["ev"] for t in traces))
    p = os.path.join(scratch, "jobtraces.json")
    json.dump(dict(traces=traces), open(p, "w", encoding="utf8"))
    r = vlib.tlc("JobsTrace", scratch, env=dict(TRACES=p))
    chk.add_tlc(r)
    by = {s["id"]: (s, t) for s, t in zip(todo, traces)}
    done = set()
    for ln in r["lines"]:
        v = vlib.tla_value(ln)
        if v[0] == "FAIL":
            chk.violation(f"{v[1]} {v[3]} {v[2]}", v[4], dict(schedule=by[v[1]][0], trace=by[v[1]][1]))
        elif v[0] == "DONE":
            done.add(v[1])
    missing = [k for k in by if k not in done]
    if missing:
        raise vlib.TlcError(f"JobsTrace: no verdict on {missing[:3]}")
    chk.cov["traces_validated_against_impl"] += len(traces)
    for s, t in list(zip(todo, traces))[:3]:
        chk.sample(dict(schedule=s, trace=t))
