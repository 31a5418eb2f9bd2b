"""Drive the object-writing API of the code under test from plain-data cases."""
import json
import os
import zlib

import ocfl

import gen
import ref
from core import check, read_tree, write_tree


def meta_obj(m):
    if m is None:
        return None
    return ocfl.VersionMetadata(created=m[0], message=m[1], name=m[2], address=m[3])


# As documented for Object
DEFAULTS = {"content_directory": "content", "digest_algorithm": "sha512", "content_path_normalization": "uri", "spec_version": "1.1",
            "forward_delta": True, "dedupe": True, "lax_digests": False, "fixity": None, "identifier": None}


def object_kwargs(ident, cfg):
    """Arguments for Object; in half of the cases those that have the default value are left out."""
    kw = dict(cfg)
    if zlib.crc32(json.dumps([ident, cfg], sort_keys=True).encode()) & 1:
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v != DEFAULTS[k] or type(v) is not type(DEFAULTS[k])}
        if ident is None:
            return kw
    kw["identifier"] = ident
    if kw.get("fixity") is not None:
        kw["fixity"] = list(kw["fixity"])
    return kw


def write_sources(base, hist):
    """Write source trees as v1, v2, ... below base."""
    for i, tree in enumerate(hist):
        write_tree(os.path.join(base, "v%d" % (i + 1)), gen.tree_bytes(tree))
    return base


def build(d, ident, cfg, hist, metas, name="obj", dry=False):
    """Object.build of all versions in one call."""
    src = os.path.join(d, "src-" + name)
    if not os.path.isdir(src):
        write_sources(src, hist)
    obj = ocfl.Object(**object_kwargs(ident, cfg))
    objdir = os.path.join(d, name)
    inv = obj.build(srcdir=src,
                    versions_metadata={i + 1: meta_obj(m) for i, m in enumerate(metas) if m is not None},
                    objdir=None if dry else objdir)
    return objdir, inv


def create_and_update(d, ident, cfg, hist, metas, name="obj", update_cfgs=None, after=None):
    """Object.create of the first version and add_version_with_content for the rest.

    update_cfgs: optional list of dicts of changes to the configuration for each update.
    after(i, objdir, inv): called when version i (1, 2, ...) has been written.
    """
    src = os.path.join(d, "src-" + name)
    if not os.path.isdir(src):
        write_sources(src, hist)
    objdir = os.path.join(d, name)
    obj = ocfl.Object(**object_kwargs(ident, cfg))
    inv = obj.create(srcdir=os.path.join(src, "v1"), metadata=meta_obj(metas[0]), objdir=objdir)
    if after:
        after(1, objdir, inv)
    for i in range(1, len(hist)):
        c = dict(cfg)
        if update_cfgs:
            c.update(update_cfgs[i - 1])
        obj = ocfl.Object(**object_kwargs(None, c))
        inv = obj.add_version_with_content(objdir=objdir, srcdir=os.path.join(src, "v%d" % (i + 1)),
                                           metadata=meta_obj(metas[i]))
        check(inv is not None, "add_version_with_content returned None for version %d", i + 1)
        if after:
            after(i + 1, objdir, inv)
    return objdir, inv


def assert_valid(objdir, lax=False, spec=None, what="object", library=True):
    """The independent validator finds no problem with the object; returns (tree, inventory)."""
    tree = read_tree(objdir, dirs=True)
    problems, inv = ref.check_object(tree, lax=lax, spec=spec)
    check(not problems, "%s is not valid: %s", what, "; ".join(problems[:4]))
    if library:
        passed, validator = ocfl.Object(lax_digests=lax).validate(objdir=objdir)
        check(passed, "%s is reported invalid: %s", what, str(validator)[:600])
    return tree, inv
