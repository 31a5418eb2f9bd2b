"""C24: files and directories are seen, compared and copied alike on every file system."""
import os
import tempfile
import zipfile

import fsspec
from fsspec.implementations.dirfs import DirFileSystem
from fsspec.implementations.local import LocalFileSystem
from fsspec.spec import AbstractFileSystem
import ocfl
from hypothesis import strategies as st

import gen
from core import Part, Raised, attempt, check, diff_trees, read_tree, write_tree
from ocfl.fsw import (BUFLEN, FswException, fsw_copydir, fsw_copyfile, fsw_files_identical, fsw_listdir_names, fsw_opendir_as_fs,
                      fsw_openfile, fsw_openfs, fsw_readtext, fsw_walk, fsw_walk_files)

SIZES = [0, 1, 2, 100, BUFLEN - 1, BUFLEN, BUFLEN + 1, 2 * BUFLEN, 2 * BUFLEN + 7, 17 * BUFLEN + 1]


def plain(p):
    """Zip and memory file systems rewrite some odd names, keep clear of those."""
    return "\\" not in p and "://" not in p and "::" not in p and all(s == s.strip() for s in p.split("/")) and not p.startswith("~")


@st.composite
def tree_cases(draw):
    return {"files": draw(gen.trees(max_size=7)), "empty": draw(st.lists(gen.paths(maxdepth=2), max_size=2)),
            "fs": draw(st.sampled_from(["dirfs", "dirfs", "url", "memory", "memdir", "zip"])),
            "dst": draw(st.sampled_from(["dirfs", "memory", "memdir"])),
            "start": draw(st.integers(0, 50)), "slash": draw(st.booleans()), "prune": draw(st.integers(0, 2 ** 16)),
            "target": draw(st.sampled_from(["t", "t/u", "deep/er/t", "f.txt", "a b", "é"])), "taken": draw(st.sampled_from([None, None, None, "dir", "file"])),
            "size": draw(st.sampled_from(SIZES)), "change": draw(st.sampled_from(["none", "first", "last", "middle", "longer", "shorter", "block"])),
            "at": draw(st.integers(0, 10 ** 7))}


def memory():
    mem = fsspec.filesystem("memory", skip_instance_cache=True)
    mem.store.clear()
    mem.pseudo_dirs[:] = [""]
    return mem


def make_fs(kind, d, tree, ctx):
    """Put tree (None for empty directory) on a file system of the kind."""
    if kind == "zip":
        zname = os.path.join(d, "..", "z.zip")
        with zipfile.ZipFile(zname, "w") as z:
            dirs = set()
            for p in tree:
                parts = p.split("/")
                for i in range(1, len(parts)):
                    dirs.add("/".join(parts[:i]))
                if tree[p] is None:
                    dirs.add(p)
            for p in sorted(dirs):
                z.writestr(zipfile.ZipInfo(p + "/"), b"")
            for p in tree:
                if tree[p] is not None:
                    z.writestr(p, tree[p])
        return fsw_openfs("zip://" + zname)
    if kind in ("memory", "memdir"):
        mem = memory()
        top = "/base/x/" if kind == "memdir" else "/"
        if kind == "memdir":
            mem.makedirs("/base/x")
        for p in tree:
            if tree[p] is None:
                mem.makedirs(top + p, exist_ok=True)
            else:
                mem.makedirs(os.path.dirname(top + p), exist_ok=True)
                mem.pipe(top + p, tree[p])
        return fsw_openfs("memory://base/x") if kind == "memdir" else mem
    write_tree(d, {p: b for p, b in tree.items() if b is not None})
    for p in tree:
        if tree[p] is None:
            os.makedirs(os.path.join(d, p), exist_ok=True)
    return fsw_openfs(d) if kind == "url" else DirFileSystem(d, LocalFileSystem())


def dirs_of(tree):
    """Each directory: its subdirectories and files."""
    out = {"": (set(), set())}
    for p in tree:
        parts = p.split("/")
        for i in range(len(parts)):
            here, name = "/".join(parts[:i]), parts[i]
            out.setdefault(here, (set(), set()))
            last = i == len(parts) - 1
            out[here][1 if last and tree[p] is not None else 0].add(name)
        if tree[p] is None:
            out.setdefault(p, (set(), set()))
    return out


def fs_tree(fs, top=""):
    """Read a file system with fsspec alone."""
    got = {}
    for p in fs.find(top):
        rel = p.lstrip("/")
        if top:
            check(rel.startswith(top + "/") or rel == top, "%r found below %r", p, top)
            rel = rel[len(top) + 1:]
        got[rel] = fs.cat_file(p)
    return got


def tree_check(case, ctx):
    d = ctx.dir()
    kind, dst = case["fs"], case["dst"]
    if dst != "dirfs" and kind in ("memory", "memdir"):
        dst = "dirfs"  # there is just one memory file system
    files = {p: gen.content(t) for p, t in case["files"]}
    if kind in ("zip", "memory", "memdir") or dst != "dirfs":
        files = {p: b for p, b in files.items() if plain(p)}
    tree = dict(files)
    for p in case["empty"]:
        if gen.compatible(p, tree) and (plain(p) or (kind in ("dirfs", "url"))):
            tree[p] = None
    if kind == "zip" and not tree:
        tree["a"] = b"x"
        files = dict(tree)
    src = os.path.join(d, "src")
    os.makedirs(src)
    fs = make_fs(kind, src, tree, ctx)
    alldirs = dirs_of(tree)
    names = sorted(alldirs)
    start = names[case["start"] // 2 % len(names)] if case["start"] % 2 else ""
    arg = "/" + start if case["slash"] else start
    below = {p[len(start) + 1 if start else 0:]: b for p, b in tree.items() if not start or p.startswith(start + "/") or p == start}
    below.pop("", None)
    wfiles = {p: b for p, b in below.items() if b is not None}

    # Walk sees every file and directory below start once
    want = dirs_of(below)
    got = list(fsw_walk(fs, arg))
    check(len(got) == len({g[0] for g in got}), "a directory is visited twice: %r", got)
    seen = {}
    for dirpath, ds, fl in got:
        rel = dirpath.strip("/")
        check(rel == start or not start or rel.startswith(start + "/"), "walk of %r visits %r", arg, dirpath)
        rel = rel[len(start) + 1 if start else 0:]
        check(len(set(ds)) == len(ds) and len(set(fl)) == len(fl), "duplicate entries %r %r", ds, fl)
        seen[rel] = (set(ds), set(fl))
    check(seen == want, "walk of %r on %s gives %r, expected %r", arg, kind, seen, want)
    # Pruned walk does not enter pruned directories
    seen = set()
    gone = set()
    for dirpath, ds, _ in fsw_walk(fs, arg):
        seen.add(dirpath.strip("/"))
        for i, name in enumerate(sorted(ds)):
            if case["prune"] >> ((i + len(seen)) % 16) & 1:
                ds.remove(name)
                gone.add(os.path.join(dirpath.strip("/"), name))
    expect = {x for x in names if (x == start or not start or x.startswith(start + "/")) and
              not any(x == g or x.startswith(g + "/") for g in gone)}
    check(seen == expect, "pruned walk visits %r, expected %r", seen, expect)
    lst = fsw_walk_files(fs, arg)
    check(sorted(lst) == sorted(wfiles), "fsw_walk_files of %r on %s gives %r, expected %r", arg, kind, sorted(lst), sorted(wfiles))
    for x in names:
        for form in (x, "/" + x):
            n = fsw_listdir_names(fs, form)
            check(sorted(n) == sorted(alldirs[x][0] | alldirs[x][1]), "fsw_listdir_names of %r on %s gives %r", form, kind, n)
            if kind in ("dirfs", "url"):
                os.chdir(src)    # put back after the case
                n = fsw_listdir_names(None, form)
                os.chdir(d)
                check(sorted(n) == sorted(alldirs[x][0] | alldirs[x][1]), "fsw_listdir_names of %r in working directory gives %r", form, n)
    for p, b in list(wfiles.items())[:4]:
        full = start + "/" + p if start else p
        with fsw_openfile(full, fs=fs) as fh:
            check(fh.read() == b, "content of %r differs", full)
        for q, c in list(wfiles.items())[:4]:
            other = start + "/" + q if start else q
            check(fsw_files_identical(fs, full, other) is (b == c), "files %r and %r: identical is wrong", full, other)
        res = attempt(fsw_files_identical, fs, full, "not/there", expected=(FileNotFoundError,))
        check(isinstance(res, Raised), "identical to an absent file: %s", res)
        res = attempt(fsw_files_identical, fs, "not/there", full, expected=(FileNotFoundError,))
        check(isinstance(res, Raised), "absent file identical: %s", res)
    if start:
        sub = fsw_opendir_as_fs(fs, start)
        check(sorted(fsw_walk_files(sub)) == sorted(wfiles), "files of directory as file system: %r", fsw_walk_files(sub))

    # Copy: exactly the files, nothing else changed on either side
    dstdir = os.path.join(d, "dst")
    os.makedirs(dstdir)
    there = {"other": b"o", "t.txt": b"t"}
    target = case["target"]
    if case["taken"] == "dir":
        there[target + "/z"] = b"z"
    elif case["taken"] == "file":
        there[target] = b"z"
    dfs = make_fs(dst, dstdir, there, ctx)
    if start not in [p for p in tree if tree[p] is not None]:
        res = attempt(fsw_copydir, fs, start, dfs, target, expected=(FswException,))
        if case["taken"]:
            check(isinstance(res, Raised), "copy to an existing %s succeeds", case["taken"])
            copied = {}
        else:
            check(not isinstance(res, Raised), "copy of %r from %s to %s fails: %s", start, kind, dst, res)
            check(dfs.isdir(target), "copy has not made the directory")
            copied = {target + "/" + p: b for p, b in wfiles.items()}
        now = fs_tree(dfs) if dst != "dirfs" else read_tree(dstdir)
        msg = diff_trees({**there, **copied}, now)
        check(not msg, "copy of %r from %s to %s: %s", start, kind, dst, msg)
        for bad in ["not-there"] + [p for p in tree if tree[p] is not None][:1]:
            res = attempt(fsw_copydir, fs, bad, dfs, "new", expected=(FswException,))
            check(isinstance(res, Raised), "copy of %r which is no directory: %s", bad, res)
            check(not dfs.exists("new"), "refused copy has made the destination")
    if kind in ("dirfs", "url"):
        msg = diff_trees(tree, read_tree(src, dirs=True))
        check(not msg, "source changed: %s", msg)

    # A single large file, copied and compared
    body = gen.content("L%d:%d" % (case["size"], case["at"] % 5))
    lfs = make_fs(dst, os.path.join(d, "dst"), {"large": body}, ctx)
    fsw_copyfile(lfs, "large", lfs, "copy")
    check(lfs.cat_file("copy") == body, "copy of a file of %d bytes differs", len(body))
    check(fsw_files_identical(lfs, "large", "copy") is True, "copy of %d bytes not identical", len(body))
    other = bytearray(body)
    how = case["change"]
    n = len(body)
    if n and how in ("first", "last", "middle"):
        other[{"first": 0, "last": n - 1, "middle": case["at"] % n}[how]] ^= 1
    elif how == "longer":
        other += b"\0"
    elif how == "shorter":
        other = other[:-1]
    elif how == "block" and n > BUFLEN:
        other[BUFLEN - 1] ^= 0x80
    lfs.pipe("other", bytes(other))
    check(fsw_files_identical(lfs, "large", "other") is (bytes(other) == body), "comparison of %d bytes, %s changed", n, how)
    check(fsw_files_identical(lfs, "other", "copy") is (bytes(other) == body), "comparison of %d bytes, %s changed", n, how)
    fsw_copyfile(lfs, "other", lfs, "copy")
    check(lfs.cat_file("copy") == bytes(other), "copy over an existing file differs")
    if dst != "dirfs" or kind in ("memory", "memdir"):
        memory()
    ctx.event(kind + ">" + dst)
    ctx.nontrivial(len(wfiles) >= 2 or start)


URLS = ["file", "plain", "relative", "dotrel", "memory", "zip", "temp", "instance"]


@st.composite
def open_cases(draw):
    return {"url": draw(st.sampled_from(URLS)), "name": draw(gen.paths(maxdepth=2)), "what": draw(st.sampled_from(["dir", "dir", "file", "none"])),
            "create": draw(st.booleans()), "exists_ok": draw(st.booleans()), "text": draw(st.text(alphabet="aé\n €x", max_size=8)),
            "noparent": draw(st.integers(0, 5)) == 0}


def open_check(case, ctx):
    d = ctx.dir()
    name, what, url = case["name"], case["what"], case["url"]
    create, exists_ok = case["create"], case["exists_ok"]
    if "://" in name or "::" in name or (url in ("memory", "zip") and not plain(name)):
        return
    parent = os.path.dirname(os.path.join(d, name))
    full = os.path.join(d, name)
    cwd = os.getcwd()
    data = case["text"].encode()
    saved = tempfile.tempdir
    tempfile.tempdir = d
    kw = {"create": create, "exists_ok": exists_ok}
    try:
        os.chdir(d)
        if url == "temp":
            if create:
                fs = fsw_openfs("temp://new", **kw)
                check(os.listdir(os.path.join(d, os.listdir(d)[0])) == ["new"], "temp directory not made: %r", read_tree(d, dirs=True))
            else:
                fs = fsw_openfs("temp://")
                res = attempt(fsw_openfs, "temp://" + name, expected=(FileNotFoundError,))
                check(isinstance(res, Raised), "temp file system opened with a path")
            fs.write_bytes("x/../y" if False else "y", data)
            check(fs.cat_file("y") == data and fsw_walk_files(fs) == ["y"], "temp file system")
            ctx.event("temp")
            return
        if url == "instance":
            os.makedirs(full)
            fs = DirFileSystem(full, LocalFileSystem())
            check(fsw_openfs(fs) is fs, "instance not returned")
            ctx.event("instance")
            return
        if url == "memory":
            mem = memory()
            if os.path.dirname(name) and not case["noparent"]:
                mem.makedirs("/" + os.path.dirname(name), exist_ok=True)
            if what == "dir":
                mem.makedirs("/" + name, exist_ok=True)
                mem.pipe("/" + name + "/in", data)
            fs = attempt(fsw_openfs, "memory://" + name, expected=(FswException,), **kw)
            if create and what == "dir" and not exists_ok:
                check(isinstance(fs, Raised), "existing directory created again")
            elif what == "dir":
                check(not isinstance(fs, Raised), "memory://%s: %s", name, fs)
                check(fsw_walk_files(fs) == ["in"] and fs.cat_file("in") == data, "content of memory://%s", name)
            elif create and what == "none" and not (case["noparent"] and "/" in name):
                check(not isinstance(fs, Raised), "memory://%s: %s", name, fs)
                check(mem.isdir("/" + name) and mem.ls("/" + name) == [], "directory not created")
            memory()
            ctx.event("memory")
            return
        if url == "zip":
            if create:
                return
            zname = os.path.join(d, "z.zip")
            with zipfile.ZipFile(zname, "w") as z:
                z.writestr(name, data)
            for u in ("zip://" + zname, "zip://z.zip"):
                fs = fsw_openfs(u)
                check(fsw_walk_files(fs) == [name] and fsw_readtext(name, fs=fs) == case["text"], "content of %s", u)
            res = attempt(fsw_openfs, "zip://not.zip", expected=(FileNotFoundError,))
            check(isinstance(res, Raised), "absent zip file: %s", res)
            # Neither a zip file with its end cut off, nor other things
            with open(zname, "rb") as fh:
                whole = fh.read()
            write_tree(d, {"cut.zip": whole[:len(whole) // 2], "text.zip": data, "dir.zip/x": b"x"})
            for u in ("zip://cut.zip", "zip://text.zip", "zip://dir.zip", "nonesuch://" + zname, "x" + str(len(data)) + "://a"):
                res = attempt(fsw_openfs, u, expected=(FileNotFoundError,))
                check(isinstance(res, Raised), "%s opened: %s", u, res)
                res = attempt(ocfl.Object().validate, u, expected=(ocfl.ObjectException,))
                check(isinstance(res, Raised) or res[0] is False, "%s validated: %s", u, res)
            ctx.event("zip")
            return
        # Local directories
        if not case["noparent"]:
            os.makedirs(parent, exist_ok=True)
        if what == "dir":
            os.makedirs(full, exist_ok=True)
            write_tree(full, {"in": data})
        elif what == "file":
            os.makedirs(parent, exist_ok=True)
            with open(full, "wb") as fh:
                fh.write(data)
        before = read_tree(d, dirs=True)
        u = {"file": "file://" + full, "plain": full, "relative": name, "dotrel": "./" + name}[url]
        fs = attempt(fsw_openfs, u, expected=(FileNotFoundError, FswException), **kw)
        if not create:
            if what == "dir":
                check(not isinstance(fs, Raised), "%r: %s", u, fs)
            else:
                check(isinstance(fs, Raised) and isinstance(fs.exc, FileNotFoundError), "%r which is %s opened: %s", u, what, fs)
        elif what == "none":
            if os.path.isdir(os.path.join(d, os.path.dirname(name))) or not case["noparent"]:
                check(not isinstance(fs, Raised), "%r not created: %s", u, fs)
                check(os.path.isdir(full) and not os.listdir(full), "%r: directory not created", u)
                before = None
            else:
                check(isinstance(fs, Raised) and isinstance(fs.exc, FileNotFoundError), "%r created without parent: %s", u, fs)
        elif not exists_ok:
            check(isinstance(fs, Raised) and isinstance(fs.exc, FswException), "%r exists but is opened: %s", u, fs)
        elif what == "dir":
            check(not isinstance(fs, Raised), "%r: %s", u, fs)
        else:
            return  # a file where the directory should be: later operations fail
        if before is not None:
            msg = diff_trees(before, read_tree(d, dirs=True))
            check(not msg, "opening %r changed files: %s", u, msg)
        if not isinstance(fs, Raised):
            check(isinstance(fs, AbstractFileSystem), "not a file system: %r", fs)
            if what == "dir":
                check(fsw_walk_files(fs) == ["in"], "files of %r: %r", u, fsw_walk_files(fs))
                check(fsw_readtext("in", fs=fs) == case["text"], "text read")
            os.chdir("/")
            fs.pipe("new file", data)
            check(read_tree(full).get("new file") == data, "file written to %r is not there", u)
        if what == "dir":
            os.chdir(d)
            for p in (name + "/in", full + "/in"):
                check(fsw_readtext(p) == case["text"], "text of local file %r", p)
                with fsw_openfile(p) as fh:
                    check(fh.read() == data, "bytes of local file %r", p)
        ctx.event(url + " " + what + (" create" if create else ""))
        ctx.nontrivial()
    finally:
        tempfile.tempdir = saved
        os.chdir(cwd)


PARTS = [
    Part("trees", tree_cases, tree_check, quick=5000, thorough=80000, rule="at least two files below the start of the walk, or a start other than the root"),
    Part("open", open_cases, open_check, quick=8000, thorough=100000, rule="a local directory is opened, created or refused"),
]
