"""C25: Namaste files declare what was written, and tell what kind of thing a path is."""
import os
import zipfile

from fsspec.implementations.dirfs import DirFileSystem
from fsspec.implementations.local import LocalFileSystem
from hypothesis import strategies as st

import gen
from core import Part, Raised, attempt, check, diff_trees, read_tree, write_tree
from ocfl import find_path_type
from ocfl.namaste import Namaste, NamasteException, content_to_tvalue, find_namastes, get_namaste

CHARS = st.characters(exclude_categories=("Cs",))
CONTENTS = ["ocfl_1.0", "ocfl_object_1.1", "a", " a ", "a b", "a/b", "../x", "/etc", "", " ", "\n", "a\nb", "a\r\nb", "\ra", "x" * 39, "x" * 40, "x" * 41,
            "x" * 39 + " y", "é" * 45, "é日本", "a\0b", "a=b", "::", "٣", "a\u2028b", "_", "__", "a_b", "~", "tab\tx", "A", "ª²"]


def contents():
    return st.one_of(st.sampled_from(CONTENTS), st.sampled_from(CONTENTS), st.text(CHARS, max_size=8), st.text(CHARS, min_size=30, max_size=60))


def want_tvalue(text):
    """Trimmed, at most 40 characters, others than word characters, '.', '-' and ':' replaced."""
    out = ""
    for c in text.strip():
        if len(out) == 40:
            break
        out += c if c.isalnum() or c in "_.-:" else "_"
    return out


@st.composite
def cases(draw):
    return {"items": [[draw(st.integers(0, 3)), draw(contents())] for _ in range(draw(st.integers(0, 6)))],
            "others": draw(st.lists(st.sampled_from(["00=x", "x", "1", "=", "0", "10=y", "a0=z", "0-1", "content"]), max_size=3, unique=True)),
            "limit": draw(st.one_of(st.none(), st.integers(0, 8))), "fs": draw(st.sampled_from(["os", "dirfs", "subdir"])),
            "damage": draw(st.sampled_from(["none", "none", "other", "empty", "longer", "delete", "utf8", "dir", "newline"])), "which": draw(st.integers(0, 5)),
            "probe": draw(contents())}


def namastes(case, ctx):
    d = ctx.dir()
    # The tvalue
    for text in [case["probe"]] + [c for _, c in case["items"]]:
        t = content_to_tvalue(text)
        check(t == want_tvalue(text), "tvalue of %r is %r, expected %r", text, t, want_tvalue(text))
        check(len(t) <= 40 and "/" not in t and "\0" not in t and "\n" not in t, "unsafe tvalue %r", t)
        n = Namaste(1, text)
        check(n.tvalue == t and n.filename == "1=" + t, "filename %r for content %r", n.filename, text)
        n = Namaste(1, text, tvalue="xyz")
        check(n.tvalue == "xyz" and n.filename == "1=xyz", "filename %r with tvalue given", n.filename)
    # Write
    sub = os.path.join(d, "sub")
    os.mkdir(sub)
    kw = {"os": {"dir": sub}, "dirfs": {"fsw": DirFileSystem(sub, LocalFileSystem())},
          "subdir": {"dir": "sub", "fsw": DirFileSystem(d, LocalFileSystem())}}[case["fs"]]
    files = {}
    for name in case["others"]:
        files[name] = b"x"
    write_tree(sub, files)
    for tag, text in case["items"]:
        n = Namaste(tag, text)
        if len(n.filename.encode()) > 240:
            continue
        n.write(**kw)
        files[n.filename] = (text + "\n").encode()
    msg = diff_trees(files, read_tree(sub))
    check(not msg, "files written: %s", msg)
    # Read back
    for tag in (0, 1, 2, 3, 4):
        want = sorted(f for f in files if f.startswith("%d=" % tag))
        for limit in (None, case["limit"], len(want), len(want) - 1):
            got = attempt(find_namastes, tag, limit=limit, expected=(NamasteException,), **kw)
            if limit is not None and len(want) > limit:
                check(isinstance(got, Raised), "more than %d files of tag %d: %r", limit, tag, got)
            else:
                check(not isinstance(got, Raised), "find tag %d, limit %s: %s", tag, limit, got)
                check([x.filename for x in got] == want, "found %r, expected %r", [x.filename for x in got], want)
        if len(want) <= 10:
            got = find_namastes(tag, **kw)
            check([x.filename for x in got] == want, "found %r, expected %r", [x.filename for x in got], want)
            for x in got:
                ok = x.tvalue != ""
                check(x.content_ok(**kw) is ok, "content of %r as written is not accepted", x.filename)
        one = attempt(get_namaste, tag, sub, expected=(NamasteException,))
        if len(want) == 1:
            check(not isinstance(one, Raised) and one.filename == want[0], "get_namaste: %r", one)
        else:
            check(isinstance(one, Raised), "get_namaste of %d files: %r", len(want), one)
    # Damage
    mine = sorted(f for f in files if f[:2] in ("0=", "1=", "2=", "3=") and f[2:])
    if mine and case["damage"] != "none":
        f = mine[case["which"] % len(mine)]
        full = os.path.join(sub, f)
        n = Namaste(int(f[0]), tvalue=f[2:])
        how = case["damage"]
        if how in ("delete", "dir"):
            os.remove(full)
            if how == "dir":
                os.mkdir(full)
            ok = False
        else:
            data = {"other": case["probe"].encode(), "empty": b"", "longer": b"zz" + files[f], "utf8": b"\xff" + files[f], "newline": b"\n" + files[f] + b"\n \n"}[how]
            with open(full, "wb") as fh:
                fh.write(data)
            ok = how != "utf8" and want_tvalue(data.decode()) == f[2:]
        check(n.content_ok(**kw) is ok, "%r with content %s: %s", f, how, not ok)
        res = attempt(n.check_content, expected=(NamasteException,), **kw)
        check(isinstance(res, Raised) != ok, "check_content of %r with content %s: %r", f, how, res)
        ctx.event(how)
    ctx.nontrivial(len([f for f in files if f not in case["others"]]) >= 2)


DECLS = ["0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl_2.0", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_9.9", "0=ocfl_object_1", "0=ocfl", "0=ocfl_", "0=ocfl_1.",
         "0=xocfl_1.0", "0=OCFL_1.0", "0=", "0=a", "0=z", "1=ocfl_1.0", "ocfl_1.0", "0=ocfl_object_1.0x", "0=ocfl_1.0\n", "0=ocfl_object_", "0=ocfl_10.12", "inventory.json"]


@st.composite
def type_cases(draw):
    return {"names": draw(st.lists(st.sampled_from(DECLS), max_size=3, unique=True)), "more": draw(st.sampled_from([0, 0, 0, 12])),
            "how": draw(st.sampled_from(["dir", "dir", "slash", "relative", "dot", "zip", "file", "barefile", "none", "noparent", "badzip", "proto"])),
            "name": draw(gen.segments())}


def types(case, ctx):
    d = ctx.dir()
    name, how = case["name"], case["how"]
    if "://" in name or "::" in name or name.startswith("~"):
        return
    full = os.path.join(d, name)
    tree = {n: b"" for n in case["names"]}
    for i in range(case["more"]):
        tree["0=a%d" % i] = b""
    tags = sorted(n for n in tree if n.startswith("0="))
    want = None

    def kind(n):
        for start, what in (("0=ocfl_object_", "object"), ("0=ocfl_", "root")):
            if n.startswith(start):
                a, dot, b = n[len(start):].partition(".")
                if dot and all(x and all(c in "0123456789" for c in x) for x in (a, b)):
                    return what
        return None
    for n in tags:
        want = want or kind(n)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        path = full
        if how == "zip":
            with zipfile.ZipFile(os.path.join(d, "z.zip"), "w") as z:
                z.writestr("x", b"")
                for n in tree:
                    z.writestr(n, b"")
            path = "zip://" + os.path.join(d, "z.zip")
            if any(n != n.strip() for n in tree):
                return
        elif how in ("file", "barefile", "badzip"):
            with open(full, "wb") as fh:
                fh.write(b"{}")
            path = {"file": full, "barefile": name, "badzip": "zip://" + full}[how]
            want = "file" if how != "badzip" else None
        elif how in ("none", "noparent", "proto"):
            want = None
            path = {"none": full, "noparent": full + "/x/y", "proto": "nosuch://" + full}[how]
        else:
            write_tree(full, tree)
            path = {"dir": full, "slash": full + "/", "relative": name, "dot": "./" + name}[how]
        before = read_tree(d, dirs=True)
        got = find_path_type(path)
        check(isinstance(got, str), "type %r", got)
        if want is None:
            check(got not in ("root", "object", "file") and got, "%s with %r is said to be %r", how, sorted(tree), got)
        else:
            check(got == want, "%s with %r is said to be %r, expected %r", how, sorted(tree), got, want)
        msg = diff_trees(before, read_tree(d, dirs=True))
        check(not msg, "files changed: %s", msg)
    finally:
        os.chdir(cwd)
    ctx.event(str(want))
    ctx.nontrivial(want is not None)


PARTS = [
    Part("namastes", cases, namastes, quick=8000, thorough=120000, rule="at least two Namaste files are written and read back"),
    Part("types", type_cases, types, quick=6000, thorough=60000, rule="the path is a storage root, object or file"),
]
