"""C16: the specification version of an object is kept, raised only on request, and judged by."""
import json
import os

import ocfl
from ocfl.validator import Validator
from hypothesis import strategies as st

import gen
import objects
import objgen
import ref
from core import Part, Raised, attempt, check, diff_trees, read_tree

VERSIONS = ["1.0", "1.1"]
UNSUPPORTED = ["1.2", "0.9", "2.0", "1", "", "1.10", "1.1 ", "01.1", "x"]


# ---------------------------------------------------------------- histories of updates

@st.composite
def history_cases(draw):
    hist = draw(gen.histories(min_versions=2, max_versions=5, max_paths=4, big=False))
    return {
        "id": draw(gen.object_ids()), "cfg": draw(gen.configs(lax=False, fixity=False)), "hist": hist,
        "metas": [draw(gen.metadata()) for _ in hist],
        # How each update is made, with the specification version of the Object instance and that asked for
        "ups": [[draw(st.sampled_from(["content", "metadata", "start", "next", "next"])), draw(st.sampled_from(VERSIONS)),
                 draw(st.sampled_from(VERSIONS)), draw(st.booleans())] for _ in hist[1:]],
        "bad": draw(st.sampled_from(UNSUPPORTED)),
    }


def check_declared(objdir, spec, what):
    tree = read_tree(objdir, dirs=True)
    decl = sorted(p for p in tree if p.startswith("0="))
    check(decl == ["0=ocfl_object_" + spec], "%s: declarations %s, expected version %s", what, decl, spec)
    typ = json.loads(tree["inventory.json"])["type"]
    check(typ == "https://ocfl.io/%s/spec/#inventory" % spec, "%s: inventory type %s with declaration of %s", what, typ, spec)
    tree, inv = objects.assert_valid(objdir, spec=spec, what=what)
    passed, v = ocfl.Object().validate(objdir=objdir)
    check(v.spec_version == spec, "%s: validated as version %s", what, v.spec_version)
    return tree, inv


def history(case, ctx):
    d = ctx.dir()
    cfg = case["cfg"]
    src = objects.write_sources(os.path.join(d, "src"), case["hist"])
    objdir = os.path.join(d, "obj")
    # A version that does not exist is refused
    res = attempt(lambda: ocfl.Object(**dict(objects.object_kwargs(case["id"], cfg), spec_version=case["bad"])).create(
        srcdir=os.path.join(src, "v1"), objdir=objdir), expected=(ocfl.ObjectException,))
    check(isinstance(res, Raised), "object with specification version %r was created", case["bad"])
    check(not os.path.exists(objdir), "refused creation left something")
    ocfl.Object(**objects.object_kwargs(case["id"], cfg)).create(srcdir=os.path.join(src, "v1"), metadata=objects.meta_obj(case["metas"][0]), objdir=objdir)
    spec = cfg["spec_version"]
    check_declared(objdir, spec, "new object")
    types = {"v1": spec}
    for i, (how, inst, ask, carry) in enumerate(case["ups"]):
        before = read_tree(objdir, dirs=True)
        c = dict(cfg, spec_version=inst)
        obj = ocfl.Object(**objects.object_kwargs(None, c))
        srcdir = os.path.join(src, "v%d" % (i + 2))
        md = objects.meta_obj(case["metas"][i + 1])
        if how == "content":
            obj.add_version_with_content(objdir=objdir, srcdir=srcdir, metadata=md)
        elif how == "metadata":
            obj.add_version_with_content(objdir=objdir, metadata=md)
        elif how == "start":
            obj.write_new_version(obj.start_new_version(objdir=objdir, srcdir=srcdir, metadata=md, carry_content_forward=carry))
        else:
            obj.open_obj_fs(objdir)
            inv = obj.parse_inventory()
            nv = attempt(lambda: ocfl.NewVersion.next_version(
                inventory=inv, srcdir=srcdir, spec_version=ask, metadata=md or ocfl.VersionMetadata(), carry_content_forward=carry,
                content_path_normalization=cfg["content_path_normalization"], forward_delta=cfg["forward_delta"], dedupe=cfg["dedupe"]),
                expected=(ocfl.NewVersionException,))
            ctx.event("asked for %s from %s" % (ask, spec))
            if ask < spec:
                check(isinstance(nv, Raised), "new version with specification version %s after %s", ask, spec)
                diff = diff_trees(before, read_tree(objdir, dirs=True))
                check(not diff, "refused version changed object: %s", diff)
                # Carry on with a version that keeps it
                ocfl.Object().add_version_with_content(objdir=objdir, metadata=md)
            else:
                check(not isinstance(nv, Raised), "new version with specification version %s after %s refused: %s", ask, spec, nv)
                if not carry:
                    nv.add_from_srcdir()
                obj.write_new_version(nv)
                if ask != spec:
                    ctx.nontrivial()
                spec = ask
        if inst != spec:
            ctx.nontrivial()
        v = "v%d" % (i + 2)
        types[v] = spec
        tree, inv = check_declared(objdir, spec, "object after %s update to %s" % (how, v))
        check(inv["head"] == v, "head is %s", inv["head"])
        for k, s in types.items():
            typ = json.loads(tree[k + "/inventory.json"])["type"]
            check(typ == "https://ocfl.io/%s/spec/#inventory" % s, "inventory of %s has type %s, was written with %s", k, typ, s)
        for p, data in before.items():
            if p.startswith("v"):
                check(tree.get(p, 1) == data, "%s changed", p)


# ---------------------------------------------------------------- forcing the version

@st.composite
def force_cases(draw):
    return {"obj": draw(objgen.cases(max_versions=2)), "force": draw(st.sampled_from(["1.0", "1.1", "1.1", None])),
            "break": draw(st.sampled_from([None, None, "fixity", "id", "type", "badtype", "laterspec", "nodecl"])), "again": draw(st.booleans()),
            "default": draw(st.sampled_from(VERSIONS))}


def force(case, ctx):
    """Validation with force_spec_version judges by that version, also what is declared otherwise."""
    d = ctx.dir()
    o = case["obj"]
    f = case["force"]
    tree = objgen.make(o)
    spec = o["spec"]
    inv = json.loads(tree["inventory.json"])
    typ = inv["type"]
    br = case["break"]
    if br == "fixity":
        inv["fixity"] = []
    elif br == "id":
        del inv["id"]
    elif br == "type":
        del inv["type"]
    elif br == "badtype":
        inv["type"] = "https://ocfl.io/%s/spec/#inventory " % spec
    elif br == "laterspec":
        inv["type"] = "https://ocfl.io/1.9/spec/#inventory"
    if br not in (None, "nodecl"):
        data = json.dumps(inv).encode()
        alg = inv["digestAlgorithm"]
        for where in ("", inv["head"] + "/"):
            if where == "" or where + "inventory.json" in tree:
                tree[where + "inventory.json"] = data
                tree[where + "inventory.json." + alg] = objgen.sidecar(o, data, alg)
    elif br == "nodecl":
        del tree["0=ocfl_object_" + spec]
    objdir = objgen.write(os.path.join(d, "obj"), tree)
    # The inventory alone
    invfile = os.path.join(objdir, "inventory.json")
    passed, v = ocfl.Object().validate_inventory(invfile, force_spec_version=f)
    codes = {m.split("]")[0].strip("[") for m in v.log.messages if m.startswith("[E")}
    want = set()
    if br == "id":
        want.add("E036a")
    if br == "type":
        want.add("E036b")
    elif f is not None and inv["type"] != "https://ocfl.io/%s/spec/#inventory" % f:
        want.add("E038a")
    elif f is None and br == "badtype":
        want.add("E038b")
    elif f is None and br == "laterspec":
        want.add("E038c")
    # The specification version that rules apply from
    judged = f or (case_version(inv, br) or "1.1")
    if br == "fixity":
        want.add("E056a" if judged == "1.0" else "E111")
    check(codes == want, "inventory of version %s (%s) validated with force_spec_version=%s gives %s, expected %s", spec, br, f, sorted(codes), sorted(want))
    check(passed == (not want), "passed is %s with errors %s", passed, sorted(codes))
    check_links(v, judged, "inventory")
    # The whole object
    val = Validator(force_spec_version=f, default_spec_version=case["default"])
    for _ in range(2 if case["again"] else 1):
        val.log.messages = []
        passed = val.validate_object(objdir)
        codes = {m.split("]")[0].strip("[") for m in val.log.messages if m.startswith("[E")}
        bad = set()
        if br == "nodecl":
            bad.add("E003a")
            if f is not None and f != spec:
                bad.add("E038a")
        elif f is not None and f != spec:
            bad |= {"E006", "E038a"}
        if br in (None, "nodecl"):
            check(passed == (not bad), "object of version %s (%s) with force_spec_version=%s: passed %s (%s)", spec, br, f, passed, sorted(codes))
            check(bad <= codes, "object of version %s (%s) with force_spec_version=%s gives %s, expected %s", spec, br, f, sorted(codes), sorted(bad))
        else:
            check(not passed, "broken object (%s) passed with force_spec_version=%s", br, f)
        wantspec = f or (case["default"] if br == "nodecl" else spec)
        check(val.spec_version == wantspec, "spec_version reported %s, expected %s", val.spec_version, wantspec)
    ctx.event("force %s on %s" % (f, spec))
    ctx.event("broken: %s" % br)
    ctx.nontrivial(f is not None and (f != spec or br is not None))


def case_version(inv, br):
    t = inv.get("type", "")
    for s in VERSIONS:
        if t == "https://ocfl.io/%s/spec/#inventory" % s:
            return s
    return None


def check_links(v, judged, what):
    """Errors of the inventory rules refer to the specification that was applied."""
    for m in v.log.messages:
        if m.startswith("[E") and not m.startswith("[E03"):
            check("ocfl.io/%s/spec" % judged in m, "%s judged as version %s: %s", what, judged, m)


PARTS = [Part("history", history_cases, history, 2500), Part("force", force_cases, force, 5000)]
