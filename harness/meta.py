"""Source of properties.jsonl, MANIFEST.json and checks.json.

    meta.py            write the three files

Each property is one entry below, so that what is stated, what is claimed and
what is reported stay in step.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

PROPS = []
NOT_APPLICABLE = []
COMMON = ["generated cases only: no exhaustive claim beyond the enumerated fixed cases",
          "CPython 3.12 on Linux, local file systems; hashlib and json of the standard library are trusted"]


def prop(pid, title, statement, over, text, why, files, mechanism, rule, technique, level="exploration", note=None, assumptions=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, rule=rule, technique=technique, level=level, note=note,
                      assumptions=list(assumptions) + COMMON))


def write():
    from props_meta import PROPS as _  # noqa: F401  (fills PROPS)
    assert len({p["id"] for p in PROPS}) == len(PROPS)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }, ensure_ascii=False) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    claimed = [p for p in PROPS if p["id"] not in na]
    with open(os.path.join(VERIF, "harness", "checks.json"), "w") as fh:
        json.dump({p["id"]: {"level": p["level"], "rule": p["rule"], "assumptions": p["assumptions"]} for p in claimed},
                  fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    manifest = {
        "version": 1,
        "setup_cmd": PY + " harness/selfcheck.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "%s harness/run.py %s quick" % (PY, p["id"]),
            "thorough_cmd": "%s harness/run.py %s thorough" % (PY, p["id"]),
            "technique": "property-based testing: " + p["technique"],
            "level": p["level"],
            "level_note": p["note"] or "Random search over generated cases: a violation outside the generators' reach or with very low probability can be missed.",
        } for p in claimed],
        "not_applicable": NOT_APPLICABLE,
        "notes": "Run any check with VERIF_SEED=n for another search; replay a reported case with 'harness/run.py --replay FILE'. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import meta
    meta.write()
