"""Runs the generated-input search of one property on several worker processes.

parent:  python check.py C01            (VERIF_SEED, VERIF_TIER)
worker:  python check.py C01 --worker I --out FILE   (started by the parent)
replay:  python check.py C01 --replay FILE           (no generation: plain re-execution)
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_S = 45  # time given to shrinking after the first failure
CAP_S = {"quick": 420, "thorough": 3300}  # wall-clock budget of the generation (inconclusive beyond)
SOLVER_S = 45  # the external solver is stopped after that long on one problem
HANG_S = float(os.environ.get("VERIF_HANG", "240"))  # a case that runs longer is taken for endless
PARENT_GRACE_S = 150


class Result:
    def __init__(self, violations=(), nontrivial=False, labels=(), observed=None):
        self.violations = list(violations)
        self.nontrivial = nontrivial
        self.labels = list(labels)
        self.observed = observed


class Prop:
    id = None
    rule = ""
    assumptions = ()
    cases = {"quick": 4000, "thorough": 40000}
    workers = 8

    def strategy(self):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError


def case_size(case):
    return len(json.dumps(case))


def fresh_examples_only():
    """Hypothesis spends most of its budget on mutated copies of the previous example; with cases
    that cost a solve each, independent examples cover more. Shrinking is unaffected."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        if hasattr(ConjectureRunner, "generate_mutations_from"):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    except ImportError:
        pass


# ------------------------------------------------------------------ worker
def worker(prop, index, seed, n_cases, out_path, stop_path, cap_s):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from vlib.sut import digest

    fresh_examples_only()
    t0 = time.time()
    st = {
        "evaluations": 0,
        "nontrivial": set(),
        "seen": set(),
        "labels": {},
        "samples": [],
        "best": None,
        "first_failure": None,
        "failures": 0,
        "stopped": None,
        "error": None,
        "slowest": 0.0,
    }
    current = out_path + ".current"

    def dump():
        d = {
            "evaluations": st["evaluations"],
            "nontrivial": sorted(st["nontrivial"]),
            "distinct": len(st["seen"]),
            "labels": st["labels"],
            "samples": st["samples"],
            "failure": st["best"],
            "failures": st["failures"],
            "stopped": st["stopped"],
            "error": st["error"],
            "slowest": st["slowest"],
            "slow_case": st.get("slow_case"),
            "wall_s": time.time() - t0,
        }
        tmp = out_path + ".tmp"
        with open(tmp, "w") as fp:
            json.dump(d, fp)
        os.replace(tmp, out_path)

    class Failed(Exception):
        pass

    class HarnessError(Exception):
        pass

    def body(case):
        now = time.time()
        if st["error"]:
            return
        if st["first_failure"] is not None and now - st["first_failure"] > SHRINK_S:
            return  # shrinking budget used: keep the smallest failure found so far
        if st["first_failure"] is None:
            if now - t0 > cap_s:
                st["stopped"] = "time budget"
                return
            if os.path.exists(stop_path):
                st["stopped"] = "another worker found a violation"
                return
        case = json.loads(json.dumps(case))
        h = digest(case)
        with open(current, "w") as fp:
            json.dump(case, fp)
        try:
            res = prop.check(case)
            failed = None
        except Exception:
            failed = traceback.format_exc()
        if os.path.exists(out_path + ".killed"):
            # the external solver did not end and was stopped: nothing to judge
            os.remove(out_path + ".killed")
            st["labels"]["external solver stopped"] = st["labels"].get("external solver stopped", 0) + 1
            return
        if failed:
            st["error"] = failed + "\ncase: " + json.dumps(case)
            raise HarnessError()
        dt = time.time() - now
        if dt > st["slowest"]:
            st["slowest"], st["slow_case"] = dt, case
        if st["first_failure"] is None:
            st["evaluations"] += 1
            st["seen"].add(h)
            for lab in res.labels:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if res.nontrivial and h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                k = len(st["nontrivial"])
                if k in (1, 10, 100) or (k in (1000,) and len(st["samples"]) < 4):
                    st["samples"].append(
                        {"case": case, "labels": res.labels, "observed": res.observed}
                    )
        if res.violations:
            st["failures"] += 1
            if st["first_failure"] is None:
                st["first_failure"] = time.time()
                open(stop_path, "w").close()
            if st["best"] is None or case_size(case) < case_size(st["best"]["case"]):
                st["best"] = {
                    "case": case,
                    "violations": res.violations[:10],
                    "observed": res.observed,
                }
                dump()
            raise Failed("; ".join(res.violations[:3]))

    test = settings(
        max_examples=n_cases,
        deadline=None,
        database=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )(given(prop.strategy())(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except BaseException as e:  # Failed, Flaky (shrink budget), HarnessError
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if st["best"] is None and st["error"] is None:
            st["error"] = traceback.format_exc()
    dump()
    return 0


# ------------------------------------------------------------------ parent
def replay(prop, path):
    with open(path) as fp:
        d = json.load(fp)
    return prop.check(d["case"])


def confirm(prop_id, path, timeout=180):
    """Re-executes a saved failure in a fresh process. Returns (reproduced, returncode)."""
    try:
        p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "check.py"), prop_id, "--replay", path],
            cwd=HERE,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            start_new_session=True,
        )
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill_tree(p)
        p.wait()
        return False, None
    return p.returncode == 1, p.returncode


def age(path, now):
    try:
        return now - os.stat(path).st_mtime
    except OSError:
        return 0


def solvers(group, seconds):
    """Processes of the external solver in this process group that have run for so long."""
    out = []
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % name) as fp:
                comm, rest = fp.read().split("(", 1)[1].rsplit(")", 1)
            rest = rest.split()
            if comm != "cbc" or int(rest[2]) != group:
                continue
            with open("/proc/uptime") as fp:
                up = float(fp.read().split()[0])
            if up - int(rest[19]) / os.sysconf("SC_CLK_TCK") > seconds:
                out.append(int(name))
        except (OSError, ValueError, IndexError):
            pass
    return out


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run(prop, tier, seed, out=sys.stdout):
    t0 = time.time()
    scratch_root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="vrpy-%s-" % prop.id, dir=scratch_root)
    replay_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay_path = os.path.join(replay_dir, "%s.json" % prop.id)
    if os.path.exists(replay_path):
        os.remove(replay_path)
    total = prop.cases[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = max(prop.workers, int(total * scale))
    cap = float(os.environ.get("VERIF_CAP", CAP_S[tier]))
    per = -(-total // prop.workers)
    stop = os.path.join(scratch, "stop")
    procs = []
    errors, crashes = [], []
    try:
        for i in range(prop.workers):
            o = os.path.join(scratch, "w%d.json" % i)
            env = dict(os.environ, TMPDIR=scratch)
            p = subprocess.Popen(
                [
                    sys.executable, os.path.join(HERE, "check.py"), prop.id,
                    "--worker", str(i), "--seed", str(seed), "--cases", str(per),
                    "--out", o, "--stop", stop, "--cap", str(cap),
                ],
                cwd=HERE,
                env=env,
                stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(scratch, "w%d.err" % i), "w"),
                start_new_session=True,
            )
            procs.append((p, o))
        stop_seen = None
        hung, stuck = [], []
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.1)
            now = time.time()
            for p, o in procs:
                if p.poll() is None and age(o + ".current", now) > SOLVER_S + 5:
                    for pid in solvers(p.pid, SOLVER_S):
                        open(o + ".killed", "w").close()
                        os.utime(o + ".current")
                        os.kill(pid, signal.SIGKILL)
                if p.poll() is None and not stuck and stop_seen is None and age(o + ".current", now) > HANG_S:
                    # a case that does not end; it is executed again on its own below
                    with open(o + ".current") as fp:
                        stuck.append(json.load(fp))
                    hung.append(o)
                    kill_tree(p)
                    open(stop, "w").close()
            if stop_seen is None and os.path.exists(stop):
                stop_seen = now
            limit = t0 + cap + PARENT_GRACE_S
            if stop_seen is not None:
                limit = min(limit, stop_seen + SHRINK_S + 30)
            if now > limit:
                for p, o in procs:
                    if p.poll() is None:
                        hung.append(o)
                        kill_tree(p)
                break
        for p, _ in procs:
            p.wait()
        agg = {"evaluations": 0, "distinct": 0, "failures": 0}
        nontrivial, labels, samples, failures = set(), {}, [], []
        notes = []
        slowest, slow_case = 0.0, None
        for i, (p, o) in enumerate(procs):
            d = None
            if os.path.exists(o):
                with open(o) as fp:
                    d = json.load(fp)
            if p.returncode != 0 and o not in hung:
                err = open(os.path.join(scratch, "w%d.err" % i)).read()[-3000:]
                if p.returncode < 0 and os.path.exists(o + ".current"):
                    with open(o + ".current") as fp:
                        crashes.append((p.returncode, json.load(fp)))
                else:
                    errors.append("worker %d exited with %s\n%s" % (i, p.returncode, err))
            if o in hung:
                notes.append("worker %d stopped at the wall-clock limit" % i)
            if d is None:
                continue
            if d["error"]:
                errors.append(d["error"])
            if d["stopped"]:
                notes.append("worker %d: %s" % (i, d["stopped"]))
            agg["evaluations"] += d["evaluations"]
            agg["distinct"] += d["distinct"]
            agg["failures"] += d["failures"]
            nontrivial |= set(d["nontrivial"])
            if d["slowest"] > slowest:
                slowest, slow_case = d["slowest"], d["slow_case"]
            for k, v in d["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += d["samples"][:2]
            if d["failure"]:
                failures.append(d["failure"])
        # a worker killed by a signal: the case that was running is re-executed on its own
        for rc, case in crashes:
            path = os.path.join(scratch, "crash.json")
            with open(path, "w") as fp:
                json.dump({"case": case}, fp)
            again = [confirm(prop.id, path)[1] for _ in range(2)]
            if all(a is not None and a < 0 for a in again):
                failures.append(
                    {
                        "case": case,
                        "violations": ["the process is killed by signal %d" % -rc],
                        "observed": None,
                    }
                )
            else:
                notes.append("a worker was ended by signal %d (not reproduced)" % -rc)
        for case in stuck if not failures else []:
            path = os.path.join(scratch, "stuck.json")
            with open(path, "w") as fp:
                json.dump({"case": case}, fp)
            if confirm(prop.id, path, HANG_S)[1] is None:
                failures.append(
                    {
                        "case": case,
                        "violations": ["solve() does not return within %d s" % HANG_S],
                        "observed": None,
                    }
                )
            else:
                notes.append("a case took more than %d s (not reproduced)" % HANG_S)
        violation = None
        if failures:
            violation = min(failures, key=lambda f: case_size(f["case"]))
            with open(replay_path, "w") as fp:
                json.dump({"property": prop.id, "seed": seed, "tier": tier, **violation}, fp, indent=1)
            reproduced = violation["violations"][0].startswith("solve() does not return")
            if not reproduced:
                reproduced = confirm(prop.id, replay_path)[0]
            violation["reproduced"] = reproduced
            with open(replay_path, "w") as fp:
                json.dump({"property": prop.id, "seed": seed, "tier": tier, **violation}, fp, indent=1)
        evidence = {
            "property": prop.id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": agg["evaluations"],
                "distinct_nontrivial": len(nontrivial),
                "distinct": agg["distinct"],
                "rule": prop.rule,
                "labels": dict(sorted(labels.items())),
                "samples": samples[:8],
                "slowest_case_s": round(slowest, 2),
                "slowest_case": slow_case if slowest > 20 else None,
                "notes": notes,
            },
            "assumptions": list(prop.assumptions),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(failures),
        }
        if violation:
            evidence["coverage"]["violation"] = violation
        path = os.path.join(HERE, "evidence", "%s.json" % prop.id)
        with open(path, "w") as fp:
            json.dump(evidence, fp, indent=1)
        if violation:
            for m in violation["violations"][:5]:
                print("  " + m, file=out)
            print("  reproduced by replay: %s" % violation["reproduced"], file=out)
            print("VIOLATION property=%s replay=%s" % (prop.id, replay_path), file=out)
            return 1
        if errors:
            print("HARNESS ERROR in %s\n%s" % (prop.id, errors[0]), file=out)
            return 3
        print(
            "OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs%s"
            % (
                prop.id, agg["evaluations"], len(nontrivial), time.time() - t0,
                (" (%s)" % "; ".join(notes[:2])) if notes else "",
            ),
            file=out,
        )
        return 0
    finally:
        for p, _ in procs:
            if p.poll() is None:
                kill_tree(p)
        shutil.rmtree(scratch, ignore_errors=True)
