#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/vss_tools/vspec/"
X = V + "vssexporters/"
A = {
    "vspec": (V + "vspec.py", "VSpec / load_vspec"), "tree": (V + "tree.py", "VSSNode / build_tree"), "model": (V + "model.py", "pydantic models"),
    "main": (V + "main.py", "get_trees"), "dt": (V + "datatypes.py", "datatype checks"), "units": (V + "units_quantities.py", "load_units / load_quantities"),
    "idgen": (V + "utils/idgen_utils.py", "fnv hash"), "idval": (V + "utils/vss2id_val.py", "validate_static_uids"), "opts": (V + "cli_options.py", "options"), "cli": (V + "cli.py", "cli"),
    "misc": (V + "utils/misc.py", "camel_case / camel_back / getattr_nn"),
    "cparser": ("binary/c_parser/cparserlib.c", "VSSReadTree / VSSsearchNodes / VSSWriteTree"),
    "goparser": ("binary/go_parser/parserlib/parser.go", "VSSReadTree / VSSsearchNodes / VSSWriteTree"),
}
for n in "apigear binary csv ddsidl franca go graphql id json jsonschema protobuf samm tree yaml".split():
    A["xtree" if n == "tree" else n] = (X + "vss2%s.py" % n, "cli and the functions below it")
A["samm"] = (X + "vss2samm/vss2samm.py", "cli")
A["sammh"] = (X + "vss2samm/helpers/", "samm / ttl / vss helpers")

P = []


def prop(id, title, statement, over, text, why, anchors, note, extra_mech=(), technique=None, observe=("exported files", "exit status", "messages")):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, anchors=anchors, note=note, mech=list(extra_mech),
                  technique=technique or "property-based testing (Hypothesis, reference model)", observe=list(observe)))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": [A[a][0] for a in p["anchors"]],
                "mechanism": [{"name": A[a][1], "where": A[a][0]} for a in p["anchors"]] + [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"], "hook_needed": None,
            },
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "Every check drives the command line of /repo's current tree (and its C and Go libraries) with generated inputs; see DESIGN.md. tools/meta.py writes this file and properties.jsonl.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
