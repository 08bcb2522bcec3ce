"""Runner core: generated-input checks, sharding, shrinking, replay files, evidence.

A *check* is a function fn(spec, rec) over a JSON-able spec drawn from a Hypothesis strategy.  It signals a
violation by raising Violation (or, because any exception on an input in the property's domain is a crash of the
code under test, by letting an exception of the code under test escape).  rec records classification counters.
"""
import os, sys, json, time, signal, hashlib, traceback, multiprocessing, importlib, warnings, io, contextlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CASE_LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", "120"))     # seconds; a case over it is inconclusive
SHRINK_LIMIT = float(os.environ.get("VERIF_SHRINK_LIMIT", "45"))  # seconds spent on shrinking per shard
TOTAL_LIMIT = {"quick": 450.0, "thorough": 3300.0}


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """The reference computation cannot decide the case."""


class _Timeout(BaseException):
    pass


class Rec(object):
    def __init__(self):
        self.labels = {}
        self.nt = False
        self.note = None
    def nontrivial(self, b=True):
        self.nt = self.nt or bool(b)
    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1


class Check(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, shards, rule, cost=1.0):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.shards, self.rule, self.cost = quick, thorough, shards, rule, cost


REGISTRY = {}


def check(prop, strategy, quick, thorough=None, shards=None, rule="", cost=1.0):
    """Register fn as a check of property prop; quick/thorough are total example counts over all shards."""
    def deco(fn):
        th = thorough if thorough is not None else quick * 10
        REGISTRY.setdefault(prop, []).append(
            Check(prop, fn.__name__, strategy, fn, quick, th, shards, rule or (fn.__doc__ or "").strip(), cost))
        return fn
    return deco


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def _alarm(signum, frame):
    raise _Timeout()


def run_case(chk, spec):
    """Run one case; returns (status, message, rec): status in ok, violation, inconclusive."""
    import numpy
    rec = Rec()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        reset_globals()
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), numpy.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            chk.fn(spec, rec)
        return "ok", "", rec
    except Violation as e:
        return "violation", str(e), rec
    except Inconclusive as e:
        rec.label("inconclusive")
        return "inconclusive", str(e), rec
    except _Timeout:
        rec.label("case over time limit (inconclusive)")
        return "inconclusive", "time limit", rec
    except MemoryError:
        rec.label("memory (inconclusive)")
        return "inconclusive", "memory", rec
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ""
        for fr in reversed(tb):
            if "/repo/" in fr.filename or "pacal" in fr.filename:
                where = " at %s:%s" % (os.path.basename(fr.filename), fr.name)
                break
        else:
            # nothing of the code under test on the stack: the harness itself is at fault
            last = tb[-1]
            if "/verif/" in last.filename or "hypothesis" in last.filename:
                raise HarnessError("".join(traceback.format_exception(*sys.exc_info())))
        return "violation", "unexpected %s: %s%s" % (type(e).__name__, str(e)[:300], where), rec
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class HarnessError(BaseException):
    pass


_pristine_params = None


def _param_objs():
    from pacal import params
    out = []
    for k, v in vars(params).items():
        if isinstance(v, type):
            out.append(v)
            stack = [v]
            while stack:
                c = stack.pop()
                for kk, vv in vars(c).items():
                    if isinstance(vv, type) and vv not in out:
                        out.append(vv)
                        stack.append(vv)
    return out


def snapshot_params():
    res = {}
    for c in _param_objs():
        for k, v in vars(c).items():
            if not k.startswith("__") and isinstance(v, (int, float, bool, str, type(None))):
                res[(c.__module__, getattr(c, "__qualname__", c.__name__), k)] = v
    return res


def reset_globals():
    """Every case starts from the same numeric and random state."""
    global _pristine_params
    import numpy
    numpy.random.seed(12345)
    objs = _param_objs()
    if _pristine_params is None:
        _pristine_params = [(c, k, v) for c in objs for k, v in vars(c).items()
                            if not k.startswith("__") and isinstance(v, (int, float, bool, str, type(None)))]
    for c, k, v in _pristine_params:
        if getattr(c, k, None) is not v:
            setattr(c, k, v)
    known = set((id(c), k) for c, k, v in _pristine_params)
    for c in objs:
        for k, v in list(vars(c).items()):
            if (not k.startswith("__") and isinstance(v, (int, float, bool, str, type(None)))
                    and (id(c), k) not in known):
                delattr(c, k)


# ---------------------------------------------------------------- shards (run in child processes)

def _shard(prop, name, tier, seed, shard, nex, statefile, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    try:
        q.put((prop, name, shard, "result", _shard_inner(prop, name, tier, seed, shard, nex, statefile)))
    except HarnessError as e:
        q.put((prop, name, shard, "error", str(e)))
    except BaseException:
        q.put((prop, name, shard, "error", traceback.format_exc()))


def _shard_inner(prop, name, tier, seed, shard, nex, statefile):
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    chk = [c for c in REGISTRY[prop] if c.name == name][0]
    st = {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "best": None, "inconclusive": 0,
          "t_fail": None, "first": None}
    t0 = time.time()
    sseed = int(hashlib.sha256(("%s/%s/%d/%d" % (prop, name, seed, shard)).encode()).hexdigest()[:8], 16)
    limit = TOTAL_LIMIT[tier]

    @hypothesis.seed(sseed)
    @settings(max_examples=nex, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink])
    @given(chk.strategy)
    def test(spec):
        if st["t_fail"] is not None and time.time() - st["t_fail"] > SHRINK_LIMIT:
            return          # shrinking budget spent: only ends the search for a smaller failure
        if time.time() - t0 > limit:
            st["labels"]["shard over time limit"] = st["labels"].get("shard over time limit", 0) + 1
            return
        key = canon(spec)
        if statefile:
            with open(statefile, "w") as f:
                f.write(key)
        status, msg, rec = run_case(chk, spec)
        if st["t_fail"] is None:
            st["evaluations"] += 1
            for k, v in rec.labels.items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            if rec.nt:
                h = hashlib.sha1(key.encode()).hexdigest()
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 3:
                        st["samples"].append({"check": name, "case": spec})
        if status == "inconclusive":
            st["inconclusive"] += 1
        if status == "violation":
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
                st["first"] = {"spec": spec, "msg": msg}
            if st["best"] is None or len(key) <= len(canon(st["best"]["spec"])):
                st["best"] = {"spec": json.loads(key), "msg": msg}
            raise AssertionError(msg)

    try:
        test()
    except AssertionError:
        pass
    except HarnessError:
        raise
    except BaseException as e:
        if st["best"] is None:
            raise
    st["nontrivial"] = sorted(st["nontrivial"])
    return st


def plan(prop, tier, only=None):
    tasks = []
    for c in REGISTRY[prop]:
        if only and c.name not in only:
            continue
        n = c.quick if tier == "quick" else c.thorough
        if n <= 0:
            continue
        k = c.shards or max(1, min(NPROC, n // 8 or 1))
        for s in range(k):
            m = n // k + (1 if s < n % k else 0)
            if m > 0:
                tasks.append((c.cost * m, c.name, s, m))
    tasks.sort(key=lambda t: (-t[0], t[1], t[2]))
    return tasks


def run_property(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    mod = importlib.import_module("pbt.props." + prop.lower())
    tasks = plan(prop, tier, only)
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    tmpdir = os.path.join("/tmp", "pbt_%s_%d" % (prop, os.getpid()))
    os.makedirs(tmpdir, exist_ok=True)
    running, results, errors, crashes = {}, [], [], []
    todo = list(tasks)
    hard = TOTAL_LIMIT[tier] + 60
    import queue as _queue
    deaths = {}
    while todo or running:
        while todo and len(running) < NPROC:
            cost, name, s, m = todo.pop(0)
            sf = os.path.join(tmpdir, "%s.%d" % (name, s))
            p = ctx.Process(target=_shard, args=(prop, name, tier, seed, s, m, sf, q))
            p.start()
            running[(name, s)] = (p, sf)
        try:
            _, name, s, kind, val = q.get(timeout=0.2)
            if (name, s) in running:
                p, sf = running.pop((name, s))
                p.join()
                if kind == "result":
                    results.append((name, s, val))
                    if verbose:
                        sys.stderr.write("  %-34s shard %d: %d cases, %.0fs%s\n" % (
                            name, s, val["evaluations"], time.time() - t0, " FAIL" if val["best"] else ""))
                else:
                    errors.append((name, s, val))
            continue
        except _queue.Empty:
            pass
        for k in list(running):
            p, sf = running[k]
            if not p.is_alive():
                deaths[k] = deaths.get(k, 0) + 1
                if deaths[k] < 5:
                    continue                      # let a result still in the pipe arrive
                p.join()
                running.pop(k)
                sig = -p.exitcode if p.exitcode is not None and p.exitcode < 0 else 0
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                    try:
                        spec = json.loads(open(sf).read())
                    except Exception:
                        spec = None
                    crashes.append((k[0], k[1], spec, "process died with signal %d" % sig))
                else:
                    errors.append((k[0], k[1], "worker died, exit code %s" % p.exitcode))
        if time.time() - t0 > hard:
            for k in list(running):
                p, sf = running.pop(k)
                p.terminate()
                results.append((k[0], k[1], None))
            todo = []
    for f in os.listdir(tmpdir):
        os.unlink(os.path.join(tmpdir, f))
    os.rmdir(tmpdir)
    return finish(prop, tier, seed, results, errors, crashes, time.time() - t0, mod, verbose)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path))["findings"] if e.get("property") == prop and e.get("status") == "known"]


def finish(prop, tier, seed, results, errors, crashes, wall, mod, verbose):
    checks = {c.name: c for c in REGISTRY[prop]}
    ev, nt, labels, samples, inconcl, aborted = 0, set(), {}, [], 0, 0
    per = {}
    viol = []
    for name, s, st in sorted(results, key=lambda r: (r[0], r[1])):
        if st is None:
            aborted += 1
            continue
        ev += st["evaluations"]
        inconcl += st["inconclusive"]
        for h in st["nontrivial"]:
            nt.add(name + h)
        pc = per.setdefault(name, {"evaluations": 0, "nontrivial": 0, "labels": {}})
        pc["evaluations"] += st["evaluations"]
        pc["nontrivial"] += len(st["nontrivial"])
        for k, v in st["labels"].items():
            pc["labels"][k] = pc["labels"].get(k, 0) + v
        if s == 0:
            samples.extend(st["samples"][:2])
        if st["best"]:
            viol.append((name, st["best"]["spec"], st["best"]["msg"]))
    for name, s, spec, msg in crashes:
        viol.append((name, spec, msg))
    # known findings: replay each listed input
    for e in load_known(prop):
        chk = checks.get(e["check"])
        if chk is None:
            continue
        status, msg, _ = run_case(chk, dict(e["spec"], _known=True) if isinstance(e["spec"], dict) else e["spec"])
        if status == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    replay = None
    if viol:
        viol.sort(key=lambda v: (len(canon(v[1])), v[0]))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name, spec, msg = viol[0]
        replay = os.path.join(VERIF, "replays", "%s.json" % prop)
        with open(replay, "w") as f:
            json.dump({"property": prop, "check": name, "spec": spec, "message": msg, "seed": seed, "tier": tier,
                       "all": [{"check": n, "spec": s, "message": m} for n, s, m in viol]}, f, indent=1)
    rule = "; ".join("%s: %s" % (c.name, c.rule) for c in REGISTRY[prop])
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt), "rule": rule,
                             "samples": samples[:24], "per_check": per, "inconclusive": inconcl,
                             "shards_aborted_by_time": aborted},
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if verbose:
        for n, pc in sorted(per.items()):
            sys.stderr.write("%-34s eval %5d nontrivial %5d %s\n" % (n, pc["evaluations"], pc["nontrivial"], pc["labels"]))
    if viol:
        for n, s, m in viol:
            print("failing check %s: %s\n    input %s" % (n, m, canon(s)))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        for n, s, m in errors:
            sys.stderr.write("HARNESS ERROR in %s shard %s:\n%s\n" % (n, s, m))
        return 3
    if ev == 0:
        sys.stderr.write("HARNESS ERROR: no case was evaluated\n")
        return 3
    print("ok property=%s cases=%d nontrivial=%d inconclusive=%d wall=%.1fs" % (prop, ev, len(nt), inconcl, wall))
    return 0


def replay_file(path):
    d = json.load(open(path))
    importlib.import_module("pbt.props." + d["property"].lower())
    chk = [c for c in REGISTRY[d["property"]] if c.name == d["check"]][0]
    status, msg, _ = run_case(chk, d["spec"])
    print(status, msg)
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0
