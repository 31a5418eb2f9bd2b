"""C02: every object the library writes is a valid OCFL object."""
import ocfl

import objects
from core import Part, check
from props import c01


EXPLAINED = {"W001", "W003", "W004", "W005", "W007a", "W007b", "W008", "W009"}


def expected_warnings(case, i):
    """Warnings that follow from the inputs alone."""
    w = set()
    return w


def valid(case, ctx):
    d = ctx.dir()
    cfg = case["cfg"]
    lax = cfg["lax_digests"]
    n = len(case["hist"])

    def judge(i, objdir):
        tree, inv = objects.assert_valid(objdir, lax=lax, spec=cfg["spec_version"], what="object after version %d" % i)
        check(inv["id"] == case["id"], "id %r, expected %r", inv["id"], case["id"])
        check(inv["head"] == "v%d" % i, "head %s after writing version %d", inv["head"], i)
        check(inv.get("contentDirectory", "content") == cfg["content_directory"], "contentDirectory %r", inv.get("contentDirectory"))
        alg = cfg["digest_algorithm"]
        if case["mode"] == "update" and i > 1:
            alg = case["ucfg"][i - 2].get("digest_algorithm", alg)
        check(inv["digestAlgorithm"] == alg, "digestAlgorithm %r, expected %r", inv["digestAlgorithm"], alg)
        # a weaker option of validation must agree too
        passed, _ = ocfl.Object(lax_digests=lax).validate(objdir=objdir, check_digests=False, log_warnings=False)
        check(passed, "reported invalid without digest checks")
        if not lax:
            passed, v = ocfl.Object().validate_inventory(objdir + "/inventory.json")
            check(passed, "root inventory on its own reported invalid: %s", v)

    objdir, inv = c01.make(case, d, lambda i, objdir, inv: judge(i, objdir))
    if case["mode"] == "build":
        judge(n, objdir)
    ctx.event(case["mode"])
    ctx.event("versions=%d" % n)
    ctx.event("lax digest", int(lax))
    ctx.event("fixity", int(bool(cfg["fixity"])))
    ctx.event("no dedupe", int(not cfg["dedupe"]))
    ctx.event("no forward delta", int(not cfg["forward_delta"]))
    ctx.nontrivial(n > 1 and any(case["hist"]))


PARTS = [Part("valid", c01.cases, valid, 5000)]
