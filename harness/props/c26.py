"""C26: content and metadata pass unchanged through BagIt bags."""
import logging
import os
import warnings

from hypothesis import strategies as st

import gen
import ref
from core import Part, Raised, attempt, check, diff_trees, read_tree, write_tree
import ocfl
from props.c27 import Run
from ocfl import BaggerError, VersionMetadata, bag_as_source, bag_extracted_version

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import bagit

logging.getLogger("bagit").setLevel(logging.CRITICAL)

# Names and values that the bagit library itself keeps (it strips white space and line ends)
NAMES = ["a", "b", "c.txt", "dir", "a b", "é", "日本", ".hid", "~t", "#h", "q?", "[z]", "x+y", "&", "manifest-sha512.txt", "data", "bag-info.txt", "bagit.txt", "v1", "inventory.json", "x" * 60]
TEXT = st.one_of(st.sampled_from(["x", "First version", "a: b", "é日本", "=", "x" * 200, "00", "- item", "#c", "a  b", '"q"', "http://example.org/x?y#z"]),
                 st.text(st.characters(exclude_categories=("Cs", "Cc", "Zl", "Zp", "Zs", "Co", "Cn", "Cf")), min_size=1, max_size=12).map(lambda s: s.strip()).filter(lambda s: s))
DATES = ["2020-01-01", "1999-12-31", "2024-02-29", "0999-01-02"]


def texts():
    return st.one_of(st.none(), TEXT)


def trees():
    return st.lists(st.tuples(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3).map("/".join), gen.content_tokens()), max_size=6)


def make(items):
    tree = {}
    for p, t in items:
        if gen.compatible(p, tree):
            tree[p] = gen.content(t)
    return tree


@st.composite
def cases(draw):
    return {"tree": draw(trees()), "id": draw(TEXT), "message": draw(texts()), "name": draw(texts()), "noname": draw(st.integers(0, 3)) == 0,
            "address": draw(st.sampled_from([None, "mailto:a@example.org", "mailto:é+x@b", "https://example.org/me", "mailto:x", "mailto:me@b?subject=re:x&cc=a@b", "mailto:mailto:a@b", "mailto:o'x@b", "MAILTO:a@b"])),
            "created": draw(st.sampled_from(DATES)) + draw(st.sampled_from(["T00:00:00Z", "T23:59:59.5Z", "T12:30:00+01:00"])), "set": draw(st.booleans())}


def roundtrip(case, ctx):
    d = ctx.dir()
    tree = make(case["tree"])
    if not tree:
        tree = {"a": b""}  # bagit itself makes an invalid bag of nothing
    src, obj, bag = (os.path.join(d, x) for x in ("src", "obj", "bag"))
    write_tree(src, tree)
    name = None if case["noname"] else case["name"]
    address = case["address"] if name else None
    meta = VersionMetadata(created=case["created"], message=case["message"], name=name, address=address)
    ocfl.Object(identifier=case["id"]).create(srcdir=src, metadata=meta, objdir=obj)
    got = ocfl.Object().extract(objdir=obj, version="v1", dstdir=bag)
    bag_extracted_version(bag, got, set_bagging_date=case["set"])
    msg = diff_trees({"data/" + p: b for p, b in tree.items()}, {p: b for p, b in read_tree(bag).items() if p.startswith("data/")})
    check(not msg, "payload of bag: %s", msg)
    b = bagit.Bag(bag)
    check(b.is_valid(), "bag is not valid")
    check(b.info.get("External-Identifier") == case["id"], "identifier in bag %r, expected %r", b.info.get("External-Identifier"), case["id"])
    check(b.info.get("External-Description") == case["message"], "description in bag %r", b.info.get("External-Description"))
    check(b.info.get("Contact-Name") == name, "name in bag %r", b.info.get("Contact-Name"))
    mail = address[7:] if address and address.startswith("mailto:") else None
    check((b.info.get("Contact-Email") or None) == (mail or None), "email in bag %r", b.info.get("Contact-Email"))
    if case["set"]:
        check(b.info.get("Bagging-Date") == case["created"][:10], "date in bag %r", b.info.get("Bagging-Date"))
    # And back
    before = read_tree(bag, dirs=True)
    back = VersionMetadata()
    srcdir = bag_as_source(bag, back)
    msg = diff_trees(tree, read_tree(srcdir))
    check(not msg, "files of bag as source: %s", msg)
    check((back.id, back.message, back.name) == (case["id"], case["message"], name), "metadata of bag %r", (back.id, back.message, back.name))
    check(back.address == ("mailto:" + mail if mail else None), "address of bag %r", back.address)
    check(back.created == b.info["Bagging-Date"] + "T00:00:00Z", "created of bag %r", back.created)
    obj2 = os.path.join(d, "obj2")
    inv = ocfl.Object(identifier=back.id).create(srcdir=srcdir, metadata=back, objdir=obj2)
    problems = ref.check_object(read_tree(obj2, dirs=True))[0]
    check(not problems, "object made from bag: %s", problems[:3])
    check(inv.id == case["id"], "identifier of object from bag %r", inv.id)
    out = os.path.join(d, "out")
    ocfl.Object().extract(objdir=obj2, version="v1", dstdir=out)
    msg = diff_trees(tree, read_tree(out))
    check(not msg, "content of object made from bag: %s", msg)
    msg = diff_trees(before, read_tree(bag, dirs=True))
    check(not msg, "bag changed: %s", msg)
    ctx.nontrivial(len(tree) >= 2)


HOW = ["good", "good", "good", "alter", "add", "remove", "rename", "manifest", "nomanifest", "nobagit", "fetch", "fetch-there", "nodata", "notbag", "absent", "file", "baginfo"]


@st.composite
def source_cases(draw):
    info = {}
    for key in ("External-Identifier", "Bagging-Date", "External-Description", "Contact-Name", "Contact-Email"):
        n = draw(st.sampled_from([0, 1, 1, 2]))
        if n:
            info[key] = [draw(st.sampled_from(DATES) if key == "Bagging-Date" else TEXT) for _ in range(n)]
            if key == "Bagging-Date":
                info[key] = info[key][:1]
    if "Bagging-Date" in info and draw(st.integers(0, 5)) == 0:
        info["Bagging-Date"] = [draw(st.sampled_from(["2020-02-30", "yesterday", "2020/01/01", "2020-01-01T00:00:00Z", "20200101", "2020-1-1"]))]
    return {"tree": draw(trees()), "info": info, "how": draw(st.sampled_from(HOW)), "which": draw(st.integers(0, 9)), "alg": draw(st.sampled_from([["sha512"], ["md5"], ["sha256", "md5"]])),
            "given": {k: draw(TEXT) for k in draw(st.lists(st.sampled_from(["id", "message", "name", "address", "created"]), max_size=2, unique=True))}}


def source(case, ctx):
    d = ctx.dir()
    how = case["how"]
    tree = make(case["tree"])
    if not tree:
        tree = {"a": b"x"}
    bag = os.path.join(d, "bag")
    write_tree(bag, tree)
    info = {k: (v if len(v) > 1 else v[0]) for k, v in case["info"].items()}
    bagit.make_bag(bag, bag_info=dict(info, **({} if "Bagging-Date" in info else {"Bagging-Date": "2001-01-01"})), checksums=case["alg"])
    if "Bagging-Date" not in info:
        info["Bagging-Date"] = "2001-01-01"
    names = sorted(tree)
    f = os.path.join(bag, "data", names[case["which"] % len(names)])
    man = os.path.join(bag, "manifest-%s.txt" % case["alg"][0])

    def rewrite(path, fn):
        with open(path, "rb") as fh:
            data = fh.read()
        with open(path, "wb") as fh:
            fh.write(fn(data))
    path = bag
    if how == "alter":
        rewrite(f, lambda b: (bytes([b[0] ^ 1]) + b[1:]) if b else b"y")
    elif how == "add":
        write_tree(os.path.join(bag, "data"), {"one more": b""})
    elif how == "remove":
        os.remove(f)
    elif how == "rename":
        os.rename(f, f + ".new")
    elif how == "manifest":
        rewrite(man, lambda b: (b"0" if b[:1] != b"0" else b"1") + b[1:])
    elif how == "nomanifest":
        for a in case["alg"]:
            os.remove(os.path.join(bag, "manifest-%s.txt" % a))
    elif how == "nobagit":
        os.remove(os.path.join(bag, "bagit.txt"))
    elif how in ("fetch", "fetch-there"):
        write_tree(bag, {"fetch.txt": ("http://127.0.0.1:9/x - data/%s\n" % os.path.relpath(f, os.path.join(bag, "data"))).encode()})
        if how == "fetch":
            os.remove(f)
        else:
            return  # allowed or not as bagit has it: fetch.txt is not in the tag manifest
    elif how == "nodata":
        os.rename(os.path.join(bag, "data"), os.path.join(d, "gone"))
    elif how == "notbag":
        path = os.path.join(bag, "data")
        if "bagit.txt" in tree:
            return
    elif how == "absent":
        path = os.path.join(d, "nope")
    elif how == "file":
        path = f
    elif how == "baginfo":
        rewrite(os.path.join(bag, "bag-info.txt"), lambda b: b + b"Contact-Phone: 1\n")
    before = read_tree(d, dirs=True)
    given = case["given"]
    meta = VersionMetadata(**{k: v for k, v in given.items() if k != "id"})
    meta.id = given.get("id")
    res = attempt(bag_as_source, path, meta, expected=(BaggerError, bagit.BagError))
    msg = diff_trees(before, read_tree(d, dirs=True))
    check(not msg, "files changed: %s", msg)
    if how != "good":
        check(isinstance(res, Raised), "bag with %s accepted", how)
        now = {k: getattr(meta, k) for k in ("id", "message", "name", "address", "created")}
        check(now == {k: given.get(k) for k in now}, "metadata changed by a bag that is refused: %r", now)
        ctx.event(how)
        ctx.nontrivial()
        return
    check(not isinstance(res, Raised), "good bag refused: %s", res)
    msg = diff_trees(tree, read_tree(res))
    check(not msg, "files of bag as source: %s", msg)

    def first(key):
        v = info.get(key)
        return v[0] if isinstance(v, list) else v
    date = first("Bagging-Date")
    good = ref.good_created(date + "T00:00:00Z")
    want = {"id": first("External-Identifier"), "message": first("External-Description"), "name": first("Contact-Name"),
            "address": "mailto:" + first("Contact-Email") if "Contact-Email" in info else None, "created": date + "T00:00:00Z" if good else None}
    want.update(given)
    if not want["name"]:
        want["address"] = given.get("address")  # no use without a name
    now = {k: getattr(meta, k) for k in want}
    check(now == want, "metadata from bag %r, expected %r", now, want)
    if ("name" in given or "name" not in given and "address" not in given) and "created" not in given or now["name"]:
        obj = os.path.join(d, "obj")
        if "created" in given:
            meta.created = None
        ocfl.Object(identifier=meta.id or "x").create(srcdir=res, metadata=meta, objdir=obj)
        problems = ref.check_object(read_tree(obj, dirs=True))[0]
        check(not problems, "object made from bag with %r: %s", info, problems[:3])
    ctx.event("repeated" if any(isinstance(v, list) for v in info.values()) else "good date" if good else "bad date")
    ctx.nontrivial(len(info) > 1)


# ---------------------------------------------------------------- the commands

@st.composite
def command_cases(draw):
    n = draw(st.integers(1, 3))
    return {"trees": [draw(trees()) for _ in range(n)], "id": draw(TEXT), "bagid": draw(st.sampled_from(["same", "same", "other", "none"])), "argid": draw(st.booleans()),
            "msgs": [draw(texts()) for _ in range(n)], "argmsgs": [draw(texts()) for _ in range(n)], "name": draw(texts()), "ver": draw(st.integers(0, n)),
            "set": draw(st.booleans()), "spoil": draw(st.booleans()), "date": draw(st.sampled_from(DATES))}


def command(case, ctx):
    d = ctx.dir()
    obj = os.path.join(d, "obj")
    tool = "ocfl-object.py"
    wanted = []
    for i, items in enumerate(case["trees"]):
        tree = make(items) or {"a": b"%d" % i}
        bag = os.path.join(d, "bag%d" % i)
        write_tree(bag, tree)
        info = {"Bagging-Date": case["date"]}
        bagid = {"same": case["id"], "other": case["id"] + "-other", "none": None}[case["bagid"]]
        if bagid and i == 0:
            info["External-Identifier"] = bagid
        if case["msgs"][i]:
            info["External-Description"] = case["msgs"][i]
        if case["name"]:
            info["Contact-Name"] = case["name"]
        bagit.make_bag(bag, bag_info=info, checksums=["sha512"])
        names = sorted(tree)
        argv = ["create" if i == 0 else "update", "--objdir=" + obj, "--srcbag=" + bag]
        if i == 0 and case["argid"]:
            argv.append("--id=" + case["id"])
        if case["argmsgs"][i]:
            argv.append("--message=" + case["argmsgs"][i])
        before = read_tree(d, dirs=True)
        if case["spoil"]:
            # A damaged bag changes nothing
            f = os.path.join(bag, "data", names[0])
            with open(f, "ab") as fh:
                fh.write(b"spoilt")
            spoilt = read_tree(d, dirs=True)
            r = Run(tool, *argv)
            msg = diff_trees(spoilt, read_tree(d, dirs=True))
            check(r.code != 0 and not msg, "command with a damaged bag: %s %s", r, msg)
            with open(f, "wb") as fh:
                fh.write(tree[names[0]])
        r = Run(tool, *argv)
        ident = case["id"] if case["argid"] else bagid
        if i == 0 and (ident is None or (bagid and bagid != ident)):
            msg = diff_trees(before, read_tree(d, dirs=True))
            check(r.code != 0 and not msg, "create from a bag for %r: %s %s", bagid, r, msg)
            ctx.event("refused")
            ctx.nontrivial()
            return
        check(r.code == 0 and r.exc is None, "from a bag: %s", r)
        now = read_tree(d, dirs=True)
        msg = diff_trees({p: x for p, x in before.items() if not p.startswith("obj/") and p != "obj"}, {p: x for p, x in now.items() if not p.startswith("obj/") and p != "obj"})
        check(not msg, "files other than those of the object changed: %s", msg)
        problems = ref.check_object(read_tree(obj, dirs=True))[0]
        check(not problems, "object made from bags: %s", problems[:3])
        wanted.append((tree, case["argmsgs"][i] or case["msgs"][i]))
        # Every version so far comes out as a bag
        for k in range(i + 1) if i == len(case["trees"]) - 1 else [i]:
            tree_k, message = wanted[k]
            out = os.path.join(d, "out-%d-%d" % (i, k))
            argv = ["extract", "--objdir", obj, "--dstbag", out, "--objver", "v%d" % (k + 1)] + (["--set-bagging-date"] if case["set"] else [])
            r = Run(tool, *argv)
            check(r.code == 0 and r.exc is None, "to a bag: %s", r)
            msg = diff_trees({"data/" + p: x for p, x in tree_k.items()}, {p: x for p, x in read_tree(out).items() if p.startswith("data/")})
            check(not msg, "payload of bag for v%d: %s", k + 1, msg)
            b = bagit.Bag(out)
            check(b.is_valid(), "bag is not valid")
            got = {x: b.info.get(x) for x in ("External-Identifier", "External-Description", "Contact-Name")}
            want = {"External-Identifier": ident, "External-Description": message, "Contact-Name": case["name"]}
            check(got == want, "tags %r of the bag for v%d, expected %r", got, k + 1, want)
            if case["set"]:
                check(b.info.get("Bagging-Date") == case["date"], "date in bag %r", b.info.get("Bagging-Date"))
            # ... but not where there is something already
            there = read_tree(d, dirs=True)
            r = Run(tool, *argv)
            msg = diff_trees(there, read_tree(d, dirs=True))
            check(r.code != 0 and not msg, "extracted to an existing bag: %s %s", r, msg)
    ctx.event("%d versions" % len(wanted))
    ctx.nontrivial(len(wanted) > 1)


PARTS = [
    Part("command", command_cases, command, quick=600, thorough=8000, rule="at least two versions, or an identifier that must be refused"),
    Part("roundtrip", cases, roundtrip, quick=1500, thorough=20000, rule="at least two files"),
    Part("source", source_cases, source, quick=3000, thorough=40000, rule="a bag that must be refused, or with metadata"),
]
