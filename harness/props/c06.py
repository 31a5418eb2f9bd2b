"""C06: content is stored once, or as often as the settings ask, at paths made from the source paths."""
import os
import re
from urllib.parse import unquote

from hypothesis import strategies as st

import gen
import objects
import ref
from core import Part, check, read_tree
from props import c01


@st.composite
def cases(draw):
    case = draw(c01.cases())
    case["cfg"]["digest_algorithm"] = "sha512" if not case["cfg"]["lax_digests"] else case["cfg"]["digest_algorithm"]
    for u in case["ucfg"]:
        u.pop("digest_algorithm", None)
    # Contents that repeat
    if draw(st.booleans()):
        case["hist"] = [[[p, draw(st.sampled_from(["s:a", "s:b", "s:"]))] for p, _ in t] for t in case["hist"]]
    return case


def economy(case, ctx):
    d = ctx.dir()
    objdir, _inv = c01.make(case, d)
    tree = read_tree(objdir, dirs=True)
    n = len(case["hist"])
    cd = case["cfg"]["content_directory"]
    stored = set()   # contents stored by earlier versions
    for i in range(n):
        c = dict(case["cfg"])
        if i > 0 and case["mode"] == "update":
            c.update(case["ucfg"][i - 1])
        prefix = "v%d/%s/" % (i + 1, cd)
        files = {p[len(prefix):]: x for p, x in tree.items() if p.startswith(prefix) and x is not None}
        src = gen.tree_bytes(case["hist"][i])
        by_content = {}
        for p, x in src.items():
            by_content.setdefault(x, []).append(p)
        for x, paths in by_content.items():
            have = sorted(p for p, y in files.items() if y == x)
            if x in stored and c["forward_delta"]:
                want = 0
                ctx.event("forward delta")
            elif c["dedupe"]:
                want = 1
                ctx.event("deduped", int(len(paths) > 1))
            else:
                want = len(paths)
                ctx.event("repeated", int(len(paths) > 1))
            check(len(have) == want, "v%d: %d copies of %r stored (%r), expected %d (settings %r)", i + 1, len(have), x[:20], have, want, c)
            # Where they are stored
            norm = c["content_path_normalization"]
            for q in have:
                bases = {q, re.sub(r"__\d+$", "", q)}
                if norm is None:
                    ok = bases & set(paths)
                elif norm == "uri":
                    ok = {unquote(b) for b in bases} & set(paths) and re.fullmatch(r"[A-Za-z0-9_.~%/-]+", q) and not q.startswith(".")
                else:
                    ok = {ref.digest("md5", p.encode("utf-8"))[:16] for p in paths} & bases
                check(ok, "v%d: content stored at %r with normalization %s, sources %r", i + 1, q, norm, paths)
                if q not in (paths if norm is None else [q]):
                    ctx.event("suffix")
        extra = [p for p, x in files.items() if x not in by_content]
        check(not extra, "v%d: content stored that is not in the version: %r", i + 1, extra)
        stored |= set(files.values())
    toks = [[t for _, t in tr] for tr in case["hist"]]
    ctx.nontrivial(any(len(set(t)) < len(t) for t in toks) or any(set(a) & set(b) for a, b in zip(toks, toks[1:])))


PARTS = [Part("economy", cases, economy, 4000)]
