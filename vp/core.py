"""Property runner: Hypothesis-driven generation, shrinking, replay files and evidence."""

import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property under test does not hold for the current case."""


class HarnessError(Exception):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def expect_eq(got, want, what):
    if got != want:
        raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))


class Rec:
    """Per-case recorder handed to every check."""
    __slots__ = ("labels", "is_nontrivial", "key")

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.key = None

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Check:
    """One executable check of a property.

    strategy(tier) -> Hypothesis strategy of JSON-able cases
    run(case, rec) -> raises Violation
    quick/thorough -> number of generated cases, spread over `shards` processes
    examples       -> fixed cases that are always run first (in shard 0)
    enumerate      -> optional function(tier) -> iterable of cases run exhaustively
    """

    def __init__(self, name, run, strategy=None, quick=100, thorough=None, shards=1,
                 examples=(), enumerate=None, rule="", thorough_shards=8):
        self.name = name
        self.run = run
        self.strategy = strategy
        self.n = {"quick": quick, "thorough": thorough or quick * 15}
        self.shards = {"quick": shards, "thorough": max(shards, thorough_shards)}
        self.examples = list(examples)
        self.enumerate = enumerate
        self.rule = rule


def jdump(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.exhaustive = None

    def add(self, case, rec):
        self.evaluations += 1
        for l in set(rec.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if rec.is_nontrivial:
            txt = jdump(case)
            h = hashlib.sha1(txt.encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if (n & (n - 1)) == 0 or len(self.samples) < 2:
                    self.samples.append(txt if len(txt) < 1500 else txt[:1500] + "...")
                    self.samples = self.samples[-6:]

    def dump(self):
        return {"evaluations": self.evaluations, "nontrivial": sorted(self.nontrivial),
                "labels": self.labels, "samples": self.samples}


def _blames_amlib(exc):
    """True if the exception was raised in, or below a call into, the code under test."""
    root = os.path.join(os.path.realpath(REPO), "amlib") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(check, case, rec):
    """Run one case; anything the library itself raises on a valid input is a violation."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            check.run(case, rec)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except RecursionError:
        raise
    except Exception as e:
        if _blames_amlib(e):
            raise Violation("exception inside amlib: {}: {} [{}]".format(
                type(e).__name__, e, _where(e))) from e
        if isinstance(e, (OSError, MemoryError, ImportError, HarnessError, subprocess.SubprocessError)):
            raise
        # On the tree this was developed against, no case gets here: the code under test no longer offers
        # what the check needs of it (a clock domain, a port, a register, an output in the agreed form).
        raise Violation("the design cannot be driven or observed: {}: {} [{}]".format(type(e).__name__, e, _where(e))) from e


def _where(e):
    frames = traceback.extract_tb(e.__traceback__)
    root = os.path.join(os.path.realpath(REPO), "amlib") + os.sep
    mine = [f for f in frames if os.path.realpath(f.filename).startswith(root)]
    f = (mine or frames)[-1]
    return "{}:{}".format(os.path.relpath(f.filename, REPO), f.name)


def run_shard(prop_id, check, tier, base_seed, shard, nshards, known_cases):
    """Runs in a worker process. Returns (stats, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine as _engine
    _engine.MAX_SHRINKING_SECONDS = 45

    stats = Stats()
    failure = {}

    def attempt(case, count=True):
        rec = Rec()
        try:
            run_case(check, case, rec)
        except Violation as v:
            failure["case"] = case
            failure["message"] = str(v)
            failure["trace"] = traceback.format_exc(limit=-6)
            raise
        finally:
            if count:
                stats.add(case, rec)

    def excluded(case):
        return known_cases and jdump(case) in known_cases

    # 1. fixed examples and exhaustive enumeration
    todo = []
    if shard == 0:
        todo += check.examples
    if check.enumerate is not None:
        todo += [c for i, c in enumerate(check.enumerate(tier)) if i % nshards == shard]
    for case in todo:
        if excluded(case):
            continue
        try:
            attempt(case)
        except Violation:
            return stats, failure

    # 2. generated cases
    n = check.n[tier]
    if check.strategy is not None and n > 0:
        n = (n + nshards - 1) // nshards
        counting = [True]

        @hypothesis.seed(derive_seed(base_seed, prop_id, check.name, shard))
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink))
        @given(check.strategy(tier))
        def test(case):
            if excluded(case):
                return
            try:
                attempt(case, counting[0])
            except Violation:
                counting[0] = False     # from here on Hypothesis is shrinking
                raise

        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                 contextlib.redirect_stderr(io.StringIO()):
                test()
        except Violation:
            return stats, failure
        except Exception as e:
            if failure and ("Flaky" in type(e).__name__):
                return stats, failure
            raise
    return stats, None


def _worker(conn, prop_id, check, tier, seed, shard, nshards, known_cases):
    try:
        stats, failure = run_shard(prop_id, check, tier, seed, shard, nshards, known_cases)
        conn.send(("ok", stats.dump(), failure))
    except BaseException:
        conn.send(("error", traceback.format_exc(), None))
    conn.close()
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {"findings": [], "fixed": []}
    with open(path) as f:
        return json.load(f)


def run_property(prop, tier, seed, only=None, jobs=None, scale=1.0, quiet=False):
    """Run every check of a property. Returns the process exit status."""
    t0 = time.time()
    jobs = jobs or os.cpu_count() or 4
    known = [k for k in load_known()["findings"] if k["property"] == prop.ID]
    ctx = mp.get_context("fork")
    queue = []
    for chk in prop.CHECKS:
        if only and chk.name != only:
            continue
        kc = {jdump(k["case"]) for k in known if k["check"] == chk.name}
        if scale != 1.0:
            chk.n = {k: max(1, int(v * scale)) for k, v in chk.n.items()}
        ns = chk.shards[tier]
        for s in range(ns):
            queue.append((chk, s, ns, kc))
    # longest first is unknown; interleave so that shards of one check start together
    running = []
    merged = {}
    failures = []
    errors = []
    qi = 0
    while (qi < len(queue) or running):
        while qi < len(queue) and len(running) < jobs and not failures and not errors:
            chk, s, ns, kc = queue[qi]
            qi += 1
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(wr, prop.ID, chk, tier, seed, s, ns, kc))
            p.start()
            wr.close()
            running.append((p, rd, chk, s))
        if (failures or errors) and not running:
            break
        ready = mp.connection.wait([r for _, r, _, _ in running], timeout=1.0) if running else []
        for item in list(running):
            p, rd, chk, s = item
            if rd in ready:
                try:
                    kind, payload, failure = rd.recv()
                except EOFError:
                    kind, payload, failure = "error", "worker for {}/{} died".format(chk.name, s), None
                p.join()
                running.remove(item)
                if kind == "error":
                    errors.append((chk.name, s, payload))
                else:
                    m = merged.setdefault(chk.name, {"evaluations": 0, "nontrivial": set(),
                                                     "labels": {}, "samples": []})
                    m["evaluations"] += payload["evaluations"]
                    m["nontrivial"].update(payload["nontrivial"])
                    for k, v in payload["labels"].items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
                    m["samples"] = (m["samples"] + payload["samples"])[:4]
                    if failure:
                        failures.append((chk, s, failure))
        if failures or errors:
            qi = len(queue)
            for p, rd, chk, s in running:
                p.kill()
                p.join()
            running = []
    status = 0
    if failures:
        chk, s, failure = failures[0]
        path = write_replay(prop, chk, failure, tier, seed)
        print("{}: {}".format(chk.name, failure["message"]))
        print("case: " + jdump(failure["case"])[:2000])
        print("VIOLATION property={} replay={}".format(prop.ID, path))
        status = 1
    elif errors:
        for name, s, payload in errors:
            print("HARNESS ERROR in {} shard {}:\n{}".format(name, s, payload), file=sys.stderr)
        status = 2

    if status == 0:
        for k in known:
            chk = next((c for c in prop.CHECKS if c.name == k["check"]), None)
            if chk is None or (only and only != chk.name):
                continue
            try:
                run_case(chk, k["case"], Rec())
            except Violation as v:
                print("KNOWN-FINDING: property={} {}".format(prop.ID, k["what"]))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, merged, wall, len(failures))
    if not quiet:
        total = sum(m["evaluations"] for m in merged.values())
        nt = sum(len(m["nontrivial"]) for m in merged.values())
        print("{} tier={} seed={} checks={} cases={} nontrivial={} wall={:.1f}s status={}".format(
            prop.ID, tier, seed, len(merged), total, nt, wall, status))
    return status


def write_replay(prop, chk, failure, tier, seed):
    d = os.environ.get("VERIF_REPLAY_DIR") or os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop.ID, "check": chk.name, "case": failure["case"],
            "message": failure["message"], "seed": seed, "tier": tier,
            "trace": failure.get("trace", ""),
            "how": "cd /verif && /opt/venv/bin/python -B check.py {} --replay <this file>".format(prop.ID)}
    h = hashlib.sha1(jdump(failure["case"]).encode()).hexdigest()[:10]
    path = os.path.join(d, "{}-{}-{}.json".format(prop.ID, chk.name, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def write_evidence(prop, tier, seed, merged, wall, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    rules = []
    for c in prop.CHECKS:
        if c.name in merged:
            rules.append("[{}] {}".format(c.name, c.rule))
    cov = {
        "evaluations": sum(m["evaluations"] for m in merged.values()),
        "distinct_nontrivial": sum(len(m["nontrivial"]) for m in merged.values()),
        "rule": getattr(prop, "RULE", "") + " " + " ".join(rules),
        "samples": [{"check": n, "case": s} for n, m in merged.items() for s in m["samples"][:2]],
        "per_check": {n: {"evaluations": m["evaluations"],
                          "distinct_nontrivial": len(m["nontrivial"]),
                          "classes": dict(sorted(m["labels"].items()))}
                      for n, m in merged.items()},
    }
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
          "assumptions": list(getattr(prop, "ASSUMPTIONS", []))}
    tmp = os.path.join(d, ".{}.tmp".format(prop.ID))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, "{}.json".format(prop.ID)))


def replay(prop, path):
    with open(path) as f:
        body = json.load(f)
    chk = next(c for c in prop.CHECKS if c.name == body["check"])
    try:
        run_case(chk, body["case"], Rec())
    except Violation as v:
        print("{}: {}".format(chk.name, v))
        traceback.print_exc(limit=-4)
        print("VIOLATION property={} replay={}".format(prop.ID, path))
        return 1
    print("replay: {} holds on this case".format(prop.ID))
    return 0
