"""Run one property's check.

    run.py C01 [quick|thorough]        run the check, write evidence/C01.json
    run.py --replay FILE               run one saved failing case again

Exit status: 0 property held, 1 with a VIOLATION line, 2 harness problem.
"""
import importlib
import importlib.util
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
NOBODY = 65534


def setup_paths():
    """Put the code under test first and Hypothesis last on the path."""
    sys.path.insert(0, core.REPO)
    if core.VTLIB not in sys.path:
        sys.path.append(core.VTLIB)
    import ocfl
    got = os.path.dirname(os.path.realpath(ocfl.__file__))
    want = os.path.join(os.path.realpath(core.REPO), "ocfl")
    if got != want:
        raise core.HarnessError("ocfl imported from %s, not %s" % (got, want))


def scratch_base():
    for base in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 512 * 1024 * 1024:
                return base
    return "/tmp"


def others_can_read(path):
    """True if an unprivileged user can reach and read path."""
    path = os.path.realpath(path)
    if not os.stat(path).st_mode & 0o004:
        return False
    while True:
        if os.path.isdir(path) and not os.stat(path).st_mode & 0o001:
            return False
        if path == "/":
            return True
        path = os.path.dirname(path)


def use_nobody():
    """Should the workers run as an unprivileged user?"""
    return (os.getuid() == 0 and os.environ.get("VERIF_KEEP_ROOT") != "1"
            and others_can_read(HERE) and others_can_read(os.path.join(core.REPO, "ocfl"))
            and others_can_read(sys.executable) and others_can_read(core.VTLIB))


def drop_privileges():
    """Run the code under test as an unprivileged user where we can."""
    if use_nobody():
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


def load(prop):
    return importlib.import_module("props." + prop.lower())


def part_seed(seed, prop, part, worker):
    import hashlib
    s = "%s/%s/%s/%s" % (seed, prop, part, worker)
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big")


def worker_main(prop, tier, seed, widx, nworkers, workdir, resfile):
    """Run this worker's share of every part; write a JSON result."""
    drop_privileges()
    os.environ["HOME"] = workdir
    os.environ["TMPDIR"] = workdir
    tempfile.tempdir = workdir
    os.chdir(workdir)
    setup_paths()
    core.quiet()
    res = {"parts": [], "failure": None, "error": None}
    try:
        mod = load(prop)
        only = os.environ.get("VERIF_PART")
        for part in mod.PARTS:
            if only and part.name != only:
                continue
            total = part.quick if tier == "quick" else part.thorough
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            total = max(1, int(total * scale))
            n = total // nworkers + (1 if widx < total % nworkers else 0)
            t0 = time.time()
            ctx, failure = run_part(prop, part, n, part_seed(seed, prop, part.name, widx), workdir, widx, nworkers)
            res["parts"].append({"name": part.name, "evaluations": ctx.evaluations,
                                 "nontrivial": sorted(ctx.nontrivial_hashes), "classes": ctx.classes,
                                 "samples": ctx.samples, "known": ctx.known, "wall": time.time() - t0})
            if failure is None and tier != "quick" and part.strategy is not None:
                failure = guided(prop, part.name, part_seed(seed, prop, part.name, widx), workdir, res)
            if failure is not None:
                res["failure"] = failure
                break
    except core.HarnessError as e:
        res["error"] = str(e)
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        res["error"] = "".join(traceback.format_exception(e))
    tmp = resfile + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh, default=str)
    os.rename(tmp, resfile)


def guided(prop, name, seed, workdir, res):
    """Coverage-guided search over the cases of one part; returns failure or None and adds to res."""
    if importlib.util.find_spec("atheris") is None:
        return None
    t0 = time.time()
    seconds = float(os.environ.get("VERIF_GUIDED", "240"))
    wd = os.path.join(workdir, "verif-scratch-guided-" + name)
    os.mkdir(wd)
    resfile = os.path.join(wd, "result.json")
    try:
        subprocess.run([sys.executable, os.path.join(HERE, "guided.py"), prop, name, str(seed), str(seconds), wd, resfile], cwd=wd, check=False,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=seconds + 600)
        with open(resfile) as fh:
            got = json.load(fh)
    except (OSError, ValueError, subprocess.TimeoutExpired) as e:
        raise core.HarnessError("coverage-guided search of part %s: %s" % (name, e))
    finally:
        core.rmtree(wd)
    if got["error"]:
        raise core.HarnessError("coverage-guided search of part %s: %s" % (name, got["error"]))
    failure = got.pop("failure")
    got.pop("error")
    res["parts"].append(dict(got, name=name + " (coverage-guided)", wall=time.time() - t0))
    return failure


def run_part(prop, part, n, seed, workdir, widx, nworkers):
    """Generate and run n cases of one part; returns (ctx, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    ctx = core.Ctx(workdir)
    fails = []   # last entry is the most shrunk failing case

    def fail_record(case, msg):
        return {"property": prop, "part": part.name, "case": case, "message": msg}

    # Fixed (enumerated) cases first, shared out over the workers
    if part.fixed is not None:
        for i, case in enumerate(part.fixed()):
            if i % nworkers != widx:
                continue
            try:
                core.run_case(part, case, ctx)
            except core.Violation as e:
                return ctx, fail_record(case, str(e))
    if part.strategy is None or n == 0:
        return ctx, None

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, print_blob=False,
              phases=(Phase.generate, Phase.target, Phase.shrink), report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck))
    @given(part.strategy())
    def test(case):
        try:
            core.run_case(part, case, ctx)
        except core.Violation as e:
            fails.append((case, str(e)))
            raise
    try:
        with core.captured():
            test()
    except core.HarnessError:
        raise
    except core.Violation as e:
        case, msg = fails[-1]
        return ctx, fail_record(case, str(e) or msg)
    except Exception as e:  # pylint: disable=broad-except
        # Hypothesis reports a failure that does not repeat (state kept by the
        # code under test between cases) as flaky: the failing case was real.
        if fails:
            case, msg = fails[-1]
            return ctx, fail_record(case, msg + "\n(reported as %s)" % type(e).__name__)
        raise
    return ctx, None


def known_findings(prop):
    """Known findings listed for prop: {key: text}."""
    found = {}
    path = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                # KNOWN-FINDING: property=C01 key=some-key text...
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    key = rest.split(" ", 1)[0].split("=", 1)[1]
                    found[key] = rest.split(" ", 1)[1] if " " in rest else ""
    return found


def main_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    base = tempfile.mkdtemp(prefix="verif-scratch-%s-" % prop, dir=scratch_base())
    os.chmod(base, 0o711)
    procs = []
    results = [None] * NWORKERS
    limit = 840 if tier == "quick" else 6 * 3600
    try:
        for i in range(NWORKERS):
            wd = os.path.join(base, "w%d" % i)
            os.mkdir(wd, 0o700)
            if use_nobody():
                os.chown(wd, NOBODY, NOBODY)
            env = dict(os.environ)
            env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                       PYTHONUTF8="1", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8", TZ="UTC",
                       HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(wd, ".hypothesis"))
            resfile = os.path.join(wd, "result.json")
            procs.append((subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), "--worker", prop, tier, str(seed), str(i),
                 str(NWORKERS), wd, resfile],
                env=env, cwd=wd, stdin=subprocess.DEVNULL, start_new_session=True), resfile))
        grace_end = None
        pending = set(range(NWORKERS))
        while pending:
            for i in list(pending):
                p, resfile = procs[i]
                if p.poll() is not None:
                    pending.discard(i)
                    try:
                        with open(resfile) as fh:
                            results[i] = json.load(fh)
                    except (OSError, ValueError):
                        results[i] = {"parts": [], "failure": None, "error": "worker %d ended with status %s without a result" % (i, p.returncode)}
                    if results[i]["failure"] and grace_end is None:
                        grace_end = time.time() + 45
            if time.time() - t0 > limit or (grace_end and time.time() > grace_end):
                break
            time.sleep(0.05)
        for i in pending:
            p, _ = procs[i]
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            results[i] = {"parts": [], "failure": None,
                          "error": None if grace_end else "worker %d did not finish in %ds" % (i, limit)}
    finally:
        for p, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        core.rmtree(base)
    return report(prop, tier, seed, results, time.time() - t0)


def report(prop, tier, seed, results, wall):
    mod_meta = json.load(open(os.path.join(HERE, "checks.json")))[prop]
    failures = [r["failure"] for r in results if r["failure"]]
    errors = [r["error"] for r in results if r["error"]]
    parts = {}
    for r in results:
        for p in r["parts"]:
            d = parts.setdefault(p["name"], {"evaluations": 0, "nontrivial": set(), "classes": {}, "samples": [], "known": {}, "wall": 0})
            d["evaluations"] += p["evaluations"]
            d["nontrivial"].update(p["nontrivial"])
            d["samples"] += p["samples"]
            d["wall"] = max(d["wall"], p["wall"])
            for k, v in p["classes"].items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            for k, v in p["known"].items():
                d["known"][k] = d["known"].get(k, 0) + v
    samples = []
    for name, d in parts.items():
        for s in d["samples"][:2]:
            samples.append({"part": name, "case": s})
    known = known_findings(prop)
    seen_known = {}
    for d in parts.values():
        for k, v in d["known"].items():
            seen_known[k] = seen_known.get(k, 0) + v
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod_meta["level"],
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in parts.values()),
            "distinct_nontrivial": sum(len(d["nontrivial"]) for d in parts.values()),
            "rule": mod_meta["rule"],
            "samples": samples,
            "parts": {name: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nontrivial"]),
                             "classes": dict(sorted(d["classes"].items())), "wall_s": round(d["wall"], 1)}
                      for name, d in parts.items()},
            "known_findings_observed": seen_known,
        },
        "assumptions": mod_meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    evdir = os.path.join(core.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
        fh.write("\n")
    for key, text in known.items():
        print("KNOWN-FINDING: property=%s %s (%s; observed %d times in this run)" % (prop, text, key, seen_known.get(key, 0)))
    unlisted = [k for k in seen_known if k not in known]
    if unlisted:
        errors.append("known findings observed but not listed: %s" % unlisted)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" %
          (prop, tier, seed, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"], wall))
    for name, d in parts.items():
        print("  %s: %d cases, %d distinct non-trivial, %.1fs %s" % (name, d["evaluations"], len(d["nontrivial"]), d["wall"],
              json.dumps(d["classes"], sort_keys=True) if os.environ.get("VERIF_VERBOSE") else ""))
    if failures:
        # Report the smallest
        failures.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
        f = failures[0]
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, core.case_hash([f["part"], f["case"]])))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1, default=str)
            fh.write("\n")
        print("part %s: %s" % (f["part"], f["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in sorted(set(errors))[:3]:
            print("ERROR: %s" % e[-3000:], file=sys.stderr)
        return 2
    return 0


def main_replay(path):
    """Run one saved case (without Hypothesis' search) as an unprivileged user."""
    with open(path) as fh:
        f = json.load(fh)
    base = tempfile.mkdtemp(prefix="verif-scratch-replay-", dir=scratch_base())
    if use_nobody():
        os.chown(base, NOBODY, NOBODY)
    pid = os.fork()
    if pid == 0:
        status = 2
        try:
            drop_privileges()
            os.environ["HOME"] = base
            tempfile.tempdir = base
            os.chdir(base)
            setup_paths()
            core.quiet()
            mod = load(f["property"])
            part = [p for p in mod.PARTS if p.name == f["part"]][0]
            core.run_case(part, f["case"], core.Ctx(base))
            print("replay: property held for this case")
            status = 0
        except core.Violation as e:
            print("part %s: %s" % (f["part"], e))
            print("VIOLATION property=%s replay=%s" % (f["property"], path))
            status = 1
        except Exception:  # pylint: disable=broad-except
            import traceback
            traceback.print_exc()
        sys.stdout.flush()
        os._exit(status)
    _, st = os.waitpid(pid, 0)
    core.rmtree(base)
    return os.waitstatus_to_exitcode(st)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        worker_main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6], a[7])
        return 0
    if a and a[0] == "--replay":
        return main_replay(os.path.abspath(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return main_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
