"""C21: digests are those of the named algorithm, whatever the content and wherever it is."""
import hashlib
import os
import re
import zipfile

import fsspec
from fsspec.implementations.dirfs import DirFileSystem
from fsspec.implementations.local import LocalFileSystem
from hypothesis import strategies as st

import gen
import ref
from core import Part, Raised, attempt, check
from ocfl.digest import digest_regex, file_digest, normalized_digest, string_digest

ALGS = {"sha512": lambda: hashlib.new("sha512"), "sha256": lambda: hashlib.new("sha256"), "sha1": lambda: hashlib.new("sha1"),
        "md5": lambda: hashlib.new("md5"), "blake2b-512": lambda: hashlib.blake2b(digest_size=64),
        "blake2b-384": lambda: hashlib.blake2b(digest_size=48), "blake2b-256": lambda: hashlib.blake2b(digest_size=32),
        "blake2b-160": lambda: hashlib.blake2b(digest_size=20)}
LENGTHS = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}
EX = {"sha512-spec-ex": ("sha512", 15), "sha256-spec-ex": ("sha256", 6)}
UNKNOWN = ["", "sha-512", "SHA512", "sha384", "blake2b", "blake2b-224", "crc32", "sha512/256", "sha512 ", "md5\n", "sha512-spec-ex2"]
BIG = [1 << 20, (1 << 20) + 1, 65 * 65536, 65 * 65536 + 1, 5000000, 8388609, 17000001]
EDGE = [0, 1, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 196608, 4096, 8192, 300000]


def expected(alg, data):
    if alg in EX:
        base, n = EX[alg]
        d = expected(base, data)
        return d[:n] + "..." + d[-3:]
    h = ALGS[alg]()
    h.update(data)
    return h.hexdigest()


@st.composite
def file_cases(draw):
    kind = draw(st.integers(0, 80))
    size = draw(st.sampled_from(BIG)) if kind == 77 else draw(st.sampled_from(EDGE)) if kind % 2 else draw(st.integers(0, 5000))
    return {"size": size, "k": draw(st.integers(0, 9)),
            "flavor": draw(st.sampled_from(["random", "zeros", "crlf", "ff"])), "name": draw(gen.paths(maxdepth=2)),
            "fs": draw(st.sampled_from(["relative", "absolute", "dirfs", "zip", "memory", "local"])),
            "unknown": draw(st.sampled_from(UNKNOWN)), "unit": draw(st.integers(1, 3)),
            "deflate": draw(st.booleans())}


def body(case):
    n = case["size"]
    if case["flavor"] == "random":
        return gen.content("L%d:%d" % (n, case["k"]))
    unit = {"zeros": b"\0", "crlf": b"\r\n", "ff": b"\xff\x1a\r"}[case["flavor"]] * case["unit"]
    return (unit * (n // len(unit) + 1))[:n]


def files(case, ctx):
    d = ctx.dir()
    data = body(case)
    name = case["name"]
    full = os.path.join(d, name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, "wb") as fh:
        fh.write(data)
    fs, path = None, name
    cwd = os.getcwd()
    kind = case["fs"]
    if kind == "zip" and ("\\" in name or name != name.strip()):
        kind = "dirfs"
    if kind == "absolute":
        path = full
    elif kind == "dirfs":
        fs = DirFileSystem(d, LocalFileSystem())
    elif kind == "local":
        fs, path = LocalFileSystem(), full
    elif kind == "zip":
        with zipfile.ZipFile(os.path.join(d, "..", "z.zip"), "w") as z:
            z.writestr(name, data, compress_type=zipfile.ZIP_DEFLATED if case["deflate"] else zipfile.ZIP_STORED)
        fs = fsspec.filesystem("zip", fo=os.path.join(d, "..", "z.zip"))
    elif kind == "memory":
        mem = fsspec.filesystem("memory", skip_instance_cache=True)
        mem.store.clear()
        mem.pipe("/x/y", data)
        fs, path = mem, "/x/y"
    try:
        os.chdir(d)
        for alg in list(ALGS) + list(EX):
            got = file_digest(path, alg, fs=fs)
            want = expected(alg, data)
            check(got == want, "%s of %d bytes (%s): %s, expected %s", alg, len(data), kind, got, want)
            check(re.fullmatch(digest_regex(alg), got), "digest_regex of %s does not match %s", alg, got)
            check(normalized_digest(got, alg) == got, "%s digest is not in normalized form", alg)
        check(file_digest(path, fs=fs) == expected("sha512", data), "default algorithm")
        res = attempt(file_digest, path, case["unknown"], fs=fs, expected=(ValueError,))
        check(isinstance(res, Raised), "digest %s for unknown algorithm %r", res, case["unknown"])
    finally:
        os.chdir(cwd)
    ctx.event(kind)
    ctx.event("over one buffer", int(len(data) > 65536))
    ctx.nontrivial(len(data) > 0)


@st.composite
def form_cases(draw):
    return {"text": draw(st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=40)),
            "alg": draw(st.sampled_from(sorted(ALGS) + sorted(EX))), "unknown": draw(st.sampled_from(UNKNOWN)),
            "mask": draw(st.integers(0, 2**64)), "edit": draw(st.sampled_from(["drop", "add", "char", "newline", "space", "leading", "none", "0x", "unicode"])),
            "pos": draw(st.integers(0, 127)), "ch": draw(st.sampled_from("gGzZ-_.:/ @`'é０٣Kſ\n\0"))}


def forms(case, ctx):
    text, alg = case["text"], case["alg"]
    # Digest of a string is that of its UTF-8 form
    for a in ("sha512", "sha256", "sha1", "md5"):
        check(string_digest(text, a) == expected(a, text.encode("utf-8")), "string_digest %s of %r", a, text)
    check(string_digest(text) == expected("sha512", text.encode("utf-8")), "string_digest default")
    for fn in (lambda: string_digest(text, case["unknown"]), lambda: digest_regex(case["unknown"])):
        check(isinstance(attempt(fn, expected=(ValueError,)), Raised), "unknown algorithm %r accepted", case["unknown"])
    # Any letter case is accepted and compares equal once normalized
    d = expected(alg, text.encode("utf-8"))
    rx = digest_regex(alg)
    v = "".join(c.upper() if case["mask"] >> (i % 64) & 1 else c for i, c in enumerate(d))
    if alg in EX:
        check(normalized_digest(v, alg) == v, "%s digest %s altered", alg, v)
        check(bool(re.fullmatch(rx, v)) == (v == d), "%s digest %s: form", alg, v)
    else:
        check(re.fullmatch(rx, v), "digest_regex for %s does not match %s", alg, v)
        check(normalized_digest(v, alg) == d, "normalized %s digest of %s", alg, v)
        check(normalized_digest(normalized_digest(v, alg), alg) == d, "normalization is not stable")
        n = LENGTHS[alg]
        pos = case["pos"] % n
        e = case["edit"]
        w = {"drop": v[:pos] + v[pos + 1:], "add": v[:pos] + "0" + v[pos:], "char": v[:pos] + case["ch"] + v[pos + 1:], "newline": v + "\n",
             "space": v + " ", "leading": " " + v, "none": v, "0x": "0x" + v[2:], "unicode": v[:pos] + "a" + v[pos + 1:]}[e]
        good = len(w) == n and all(c in "0123456789abcdefABCDEF" for c in w)
        check(bool(re.fullmatch(rx, w)) == good, "form of %s digest %r: regex says %s", alg, w, not good)
        # A different digest never becomes equal by normalization
        if good and w.lower() != d:
            check(normalized_digest(w, alg) != normalized_digest(v, alg), "different digests normalize to the same")
        ctx.event(e)
    ctx.nontrivial(v != d)


PARTS = [Part("files", file_cases, files, 6000), Part("forms", form_cases, forms, 8000)]
