"""Exhaustive bounded exploration: enumerate every case of a family, run the real code on it,
compare with the reference model, count what was covered, and report.

A family is Family(name, cases, check, bound):
  cases()         yields every case of the family in a fixed order, fewest deviations first
                  (plain picklable/JSON-able data; generated identically in every worker)
  check(case, rec) runs the implementation; returns None or a description of the violation.
                  rec.state(x) counts a distinct reference-model state, rec.step(n) transitions.
Nothing is sampled: worker w of n runs the cases with index % n == w, all of them.
"""
import hashlib, json, multiprocessing, os, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120          # CPU seconds: no verdict depends on how busy the machine is


class Timeout(BaseException):
    pass


def _on_alarm(*_):
    raise Timeout("case did not finish within %d s of CPU time" % CASE_TIMEOUT)


class Family:
    def __init__(self, name, cases, check, bound):
        self.name, self.cases, self.check, self.bound = name, cases, check, bound


class Recorder:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.skipped = 0

    @staticmethod
    def _h(x):
        return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()

    def state(self, x):
        self.states.add(self._h(x))

    def outcome(self, x):
        self.outcomes.add(self._h(x))

    def step(self, n=1):
        self.transitions += n

    def skip(self):
        """case outside the property's domain (counted apart, never as coverage)"""
        self.skipped += 1


def run_case(family, case, rec):
    """One case -> None or an error text.  An exception of the code under test is an error text."""
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT, 1)
    try:
        return family.check(case, rec)
    except Timeout as e:
        return "no termination: %s" % e
    except MemoryError:
        return "memory exhausted"
    except RecursionError as e:
        return "RecursionError: %s" % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.relpath(f.filename, "/"), f.lineno) for f in tb[-3:])
        return "%s: %s (at %s)" % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(family, w, n, conn, known):
    signal.signal(signal.SIGPROF, _on_alarm)
    soft = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    sys.stdout = open(os.devnull, "w")
    rec = Recorder()
    count, samples, findings, violation, last = 0, [], {}, None, None
    try:
        for i, case in enumerate(family.cases()):
            if i % n != w:
                continue
            before = rec.skipped
            err = run_case(family, case, rec)
            if rec.skipped != before:
                continue
            count += 1
            last = case
            if w == 0 and len(samples) < 2:
                samples.append(case)
            if err is not None:
                f = known(family, case, err) if known else None
                if f:
                    findings[f] = findings.get(f, 0) + 1
                    continue
                violation = (i, case, err)
                break
        if last is not None and w == 0:
            samples.append(last)
        conn.send(("ok", count, rec.skipped, rec.transitions, rec.states, rec.outcomes, samples, findings, violation))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    conn.close()


def explore(family, known=None, jobs=None):
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(family, w, jobs, b, known))
        p.start()
        b.close()
        procs.append((p, a))
    tot = dict(cases=0, skipped=0, transitions=0, states=set(), outcomes=set(), samples=[], findings={}, violation=None)
    died = None
    for p, a in procs:
        try:
            r = a.recv()
        except EOFError:
            r = ("error", "worker died")
        p.join()
        if r[0] == "error":
            died = r[1]
            continue
        tot["cases"] += r[1]
        tot["skipped"] += r[2]
        tot["transitions"] += r[3]
        tot["states"] |= r[4]
        tot["outcomes"] |= r[5]
        tot["samples"] += r[6]
        for k, v in r[7].items():
            tot["findings"][k] = tot["findings"].get(k, 0) + v
        if r[8] and (tot["violation"] is None or r[8][0] < tot["violation"][0]):
            tot["violation"] = r[8]
    if died and not tot["violation"]:
        raise RuntimeError("worker failed in family %s: %s" % (family.name, died))
    return tot


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    return x


def run_check(pid, families, tier, seed, assumptions, known_predicates=None):
    """Run all families of one property; evidence, output lines and exit status."""
    t0 = time.time()
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {f["id"]: f for f in kf["known"] if f["property"] == pid}
    preds = known_predicates or {}

    def known(family, case, err):
        for fid in listed:
            if fid in preds and preds[fid](family, case, err):
                return fid
        return None

    fams, states, transitions, traces, violations = [], set(), 0, 0, 0
    outcomes = set()
    samples, found, skipped = [], {}, 0
    for f in families:
        t = time.time()
        r = explore(f, known)
        fams.append(dict(family=f.name, bound=f.bound, executions=r["cases"], outside_domain=r["skipped"],
                         transitions=r["transitions"], distinct_states=len(r["states"]),
                         distinct_outcomes=len(r["outcomes"]), wall_s=round(time.time() - t, 2)))
        print("  %-28s executions=%d states=%d outcomes=%d transitions=%d %.1fs" % (
            f.name, r["cases"], len(r["states"]), len(r["outcomes"]), r["transitions"], time.time() - t), flush=True)
        states |= r["states"]
        outcomes |= r["outcomes"]
        transitions += r["transitions"]
        traces += r["cases"]
        skipped += r["skipped"]
        samples += [dict(family=f.name, case=repr(s)[:1500]) for s in r["samples"][:3]]
        for k, v in r["findings"].items():
            found[k] = found.get(k, 0) + v
        if r["violation"]:
            violations += 1
            i, case, err = r["violation"]
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.py" % (pid, hashlib.blake2b(repr(case).encode(), digest_size=5).hexdigest()))
            with open(path, "w") as o:
                o.write("# replay with: bash /verif/replay.sh %s\n" % path)
                o.write("PROPERTY = %r\nFAMILY = %r\nINDEX = %d\nTIER = %r\nERROR = %r\nCASE = %r\n" % (pid, f.name, i, tier, err, case))
            print("  violated in family %s, case #%d: %s" % (f.name, i, repr(case)[:800]))
            print("  " + str(err)[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            break
    for fid in sorted(found):
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (pid, listed[fid]["what"], found[fid]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
                            distinct_outcomes=len(outcomes), outside_domain_skipped=skipped, families=fams,
                            samples=samples[:12], exhaustive=violations == 0,
                            known_findings_hit={k: found[k] for k in sorted(found)},
                            explanation="every case of every family within its stated bound was generated and executed on the "
                                        "implementation from /repo's working tree; states are distinct reference-model states, "
                                        "traces are complete executions compared with the reference model"),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as o:
        json.dump(jsonable(ev), o, indent=1)
    print("%s %s: %d executions, %d states, %.1f s" % (pid, "VIOLATED" if violations else "held", traces, len(states), time.time() - t0))
    return 1 if violations else 0
