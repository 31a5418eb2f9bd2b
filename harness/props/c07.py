"""C07: a dry run writes nothing and tells exactly what the real run then does."""
import os

import ocfl
from hypothesis import strategies as st

import gen
import objects
from core import Part, check, diff_trees, read_tree


@st.composite
def cases(draw):
    hist = draw(gen.histories(max_versions=4))
    return {"how": draw(st.sampled_from(["build", "create"])), "id": draw(gen.object_ids()), "cfg": draw(gen.configs()),
            "hist": hist, "metas": [draw(gen.metadata(full=True)) for _ in hist], "pad": draw(st.sampled_from([0, 0, 0, 2, 5]))}


def run(case, src, objdir):
    obj = ocfl.Object(**objects.object_kwargs(case["id"], case["cfg"]))
    metas = [objects.meta_obj(m) for m in case["metas"]]
    if case["how"] == "create":
        return obj.create(srcdir=os.path.join(src, "v1"), metadata=metas[0], objdir=objdir)
    return obj.build(srcdir=src, versions_metadata=dict(enumerate(metas, 1)), objdir=objdir)


def dry(case, ctx):
    d = ctx.dir()
    src = objects.write_sources(os.path.join(d, "src"), case["hist"])
    if case["pad"] and case["how"] == "build":
        for i in range(len(case["hist"])):
            os.rename(os.path.join(src, "v%d" % (i + 1)), os.path.join(src, "v%0*d" % (case["pad"], i + 1)))
    before = read_tree(d, dirs=True)
    os.chdir(d)
    inv = run(case, src, None).as_json()
    check(read_tree(d, dirs=True) == before, "dry run changed files: %s", diff_trees(before, read_tree(d, dirs=True)))
    objdir = os.path.join(d, "obj")
    inv1 = run(case, src, objdir).as_json()
    check(inv1 == inv, "inventory of the real run differs from that of the dry run")
    lax = case["cfg"]["lax_digests"]
    obj = ocfl.Object(path=objdir, lax_digests=lax)
    check(obj.parse_inventory().as_json() == inv, "stored inventory differs from the one returned")
    tree, _ = objects.assert_valid(objdir, lax=lax, spec=case["cfg"]["spec_version"])
    check(read_tree(src, dirs=True) == {p[4:]: x for p, x in before.items()} , "sources changed")
    # Once more, elsewhere: the same object
    again = os.path.join(d, "again")
    run(case, src, again)
    diff = diff_trees(tree, read_tree(again, dirs=True), "first", "second")
    check(not diff, "building twice gives different objects: %s", diff)
    ctx.event(case["how"])
    ctx.event("padded", int(bool(case["pad"])))
    ctx.nontrivial(any(case["hist"]))


PARTS = [Part("dry", cases, dry, 3000)]
