"""Coverage-guided search (atheris) over the cases of one part; used by run.py for the thorough tier.

guided.py PROP PART SEED SECONDS WORKDIR RESULTFILE

The bytes that libFuzzer makes are read as choices by the strategy of the part, so all
cases are ones that the strategy can make; what guides it is coverage of ocfl.
"""
import importlib
import json
import os
import random
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402


def main(prop, name, seed, seconds, workdir, resfile):
    os.chdir(workdir)
    os.environ["HOME"] = os.environ["TMPDIR"] = tempfile.tempdir = workdir
    sys.path.insert(0, core.REPO)
    sys.path.append(core.VTLIB)
    import atheris
    with atheris.instrument_imports(include=["ocfl"]):
        import ocfl  # noqa: F401 pylint: disable=unused-import
        import ocfl.inventory_validator, ocfl.layout_registry, ocfl.validator  # noqa: F401,E401 pylint: disable=unused-import,multiple-imports
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.database import InMemoryExampleDatabase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60
    core.quiet()
    part = [p for p in importlib.import_module("props." + prop.lower()).PARTS if p.name == name][0]
    ctx = core.Ctx(workdir)
    end = time.time() + float(seconds)
    fails = []

    def inner(case):
        try:
            core.run_case(part, case, ctx)
        except core.Violation as e:
            fails.append((case, str(e)))
            raise

    common = {"deadline": None, "database": InMemoryExampleDatabase(), "print_blob": False, "report_multiple_bugs": False,
              "suppress_health_check": list(HealthCheck)}
    fuzz = settings(**common)(given(part.strategy())(inner)).hypothesis.fuzz_one_input

    def finish(failure=None, error=None):
        with open(resfile + ".tmp", "w") as fh:
            json.dump({"evaluations": ctx.evaluations, "nontrivial": sorted(ctx.nontrivial_hashes), "classes": ctx.classes,
                       "samples": ctx.samples, "known": ctx.known, "failure": failure, "error": error}, fh, default=str)
        os.rename(resfile + ".tmp", resfile)
        os._exit(0)

    def one(data):
        if time.time() > end:
            finish()
        try:
            with core.captured():
                fuzz(data)
            return
        except core.HarnessError as e:
            finish(error=str(e))
        except Exception as e:  # pylint: disable=broad-except
            if not fails:
                finish(error="%s: %s" % (type(e).__name__, e))
        first = fails[-1]
        try:        # make it small
            with core.captured():
                settings(phases=(Phase.reuse, Phase.shrink), max_examples=10, **common)(given(part.strategy())(inner))()
        except core.Violation:
            first = fails[-1]
        except Exception:  # pylint: disable=broad-except
            pass
        finish(failure={"property": prop, "part": name, "case": first[0], "message": first[1]})

    corpus = os.path.join(workdir, "corpus")
    os.makedirs(corpus)
    r = random.Random(int(seed))
    for i in range(30):
        with open(os.path.join(corpus, str(i)), "wb") as fh:
            fh.write(r.randbytes(r.choice([100, 1000, 4000])))
    atheris.Setup(["guided", "-max_len=8000", "-len_control=0", "-timeout=0", "-rss_limit_mb=0", "-handle_xfsz=0", "-handle_term=0",
                   "-seed=%d" % (int(seed) % 2 ** 31 + 1), "-artifact_prefix=" + workdir + "/", corpus], one)
    atheris.Fuzz()


if __name__ == "__main__":
    main(*sys.argv[1:])
