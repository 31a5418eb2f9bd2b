"""C11: valid objects made independently of the library pass validation, with exactly the warnings that apply."""
import os

import ocfl

import gen
import objgen
import ref
from core import HarnessError, Part, check, read_tree


def no_false_alarm(case, ctx):
    d = ctx.dir()
    tree = objgen.make(case)
    problems, _ = ref.check_object(tree, need_version_inventories=False)
    # the reference validator is strict about extra directories in version directories, allowed with a warning
    problems = [p for p in problems if "unexpected entries in" not in p]
    if problems:
        raise HarnessError("generated object not valid: %s" % problems)
    objdir = objgen.write(os.path.join(d, "obj"), tree)
    expect = objgen.warnings(case)
    passed, v = ocfl.Object().validate(objdir=objdir)
    check(passed, "valid object reported invalid: %s", str(v))
    got = {c for c in v.log.codes}
    check(got == expect, "warnings %s, expected %s", sorted(got), sorted(expect))
    check(v.log.num_errors == 0, "num_errors %d", v.log.num_errors)
    check(bool(v.messages) == bool(expect) if hasattr(v, "messages") else True, "messages")
    check(v.spec_version == case["spec"], "spec_version %r", v.spec_version)
    check(v.id == case["id"], "id %r", v.id)
    check(read_tree(objdir, dirs=True) == tree, "validation changed the object")
    # The root inventory on its own
    passed, v = ocfl.Object().validate_inventory(os.path.join(objdir, "inventory.json"))
    check(passed, "valid inventory reported invalid: %s", str(v))
    ctx.event("versions=%d" % len(case["hist"]))
    for w in expect:
        ctx.event(w)
    ctx.event("mixed algorithms", int(any(a != case["alg"] for a in case["valg"])))
    ctx.event("hex case", int(any(h != "lower" for h in case["hexcase"])))
    ctx.nontrivial(len(case["hist"]) > 1 and any(case["hist"]))


def readback(case, ctx):
    """Objects made elsewhere are read correctly, and can be updated."""
    d = ctx.dir()
    tree = objgen.make(case)
    objdir = objgen.write(os.path.join(d, "obj"), tree)
    for i, t in enumerate(case["hist"]):
        dst = os.path.join(d, "out%d" % i)
        md = ocfl.Object().extract(objdir=objdir, version=objgen.vdir(case, i), dstdir=dst)
        check(read_tree(dst, dirs=True) == gen.tree_bytes(t), "extracted version %d differs", i + 1)
        check(md.created == case["metas"][i]["created"], "created %r", md.created)
    check(read_tree(objdir, dirs=True) == tree, "extraction changed the object")
    ctx.nontrivial(len(case["hist"]) > 1 and any(case["hist"]))


PARTS = [
    Part("no_false_alarm", objgen.cases, no_false_alarm, 6000),
    Part("readback", objgen.cases, readback, 1500),
]
