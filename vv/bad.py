"""Ways of making a valid model invalid (each is rejected by documentation)."""
import copy

from hypothesis import strategies as st

from .gen import QUANTITIES, UNITS, leaf_attrs, Cfg, prob

STRUCTURAL = [
    "missing_parent", "child_of_leaf", "two_roots", "no_root", "foreign_root", "no_type", "no_description", "bad_type",
    "property_in_branch", "scalar_node", "list_node", "core_on_branch", "core_on_leaf", "empty_file", "leaf_below_added_leaf", "tree_of_leaf", "struct_of_leaf", "bad_instances",
]
VALUES = ["unknown_unit", "unknown_datatype", "bad_default", "bad_allowed", "allowed_and_range", "bad_uid", "missing_datatype"]
FILES = ["missing_include", "include_cycle", "yaml_garbage", "bad_overlay", "unit_redefined", "unit_bad_quantity", "unit_bad_datatype", "unit_none", "empty_unit_def", "lone_surrogate"]
STRICT = ["strict_name", "strict_extra", "abort_name", "abort_extra", "bool_name"]
TYPES = ["types_missing", "types_leaf_in_struct", "types_property_in_branch", "types_root_struct", "types_orphan", "types_extra", "types_bad_ref", "types_two_roots", "types_no_desc", "types_core_on_struct", "types_tree_in_struct", "types_below_property"]

LEAF = {"type": "sensor", "datatype": "uint8", "description": "added"}


def pick(d, xs):
    return xs[d(st.integers(0, len(xs) - 1))]


def make(d, kind, base, types=None):
    """-> dict(base, types, units, quantities, raw{file:text}, args, kind) or None if not applicable."""
    c = {"kind": kind, "base": copy.deepcopy(base), "types": copy.deepcopy(types), "units": None, "quantities": None, "raw": {}, "args": [], "append": ""}
    b, t = c["base"], c["types"]
    root = next(iter(b))
    branches = [k for k, a in b.items() if a["type"] == "branch"]
    leaves = [k for k, a in b.items() if a["type"] != "branch"]
    prims = [k for k in leaves if "." not in b[k]["datatype"]]
    if kind in ("child_of_leaf", "leaf_below_added_leaf", "property_in_branch", "missing_parent") and prob(d, 0.2):
        # far down
        k = pick(d, branches)
        for i in range(d(st.integers(1, 9))):
            k += ".Down%d" % i
            b[k] = {"type": "branch", "description": "b"}
        b[k + ".Lowest"] = dict(LEAF)
        branches, leaves = [k], [k + ".Lowest"]
    if kind == "missing_parent" and prob(d, 0.3):
        # another spelling of an existing one
        k = pick(d, branches)
        k, n = k.rpartition(".")[::2]
        n = d(st.sampled_from([n.upper(), n.lower(), n[:-1] or "Q", n + "x", n.swapcase()]))
        k = k + "." + n if k else n
        if k in b:
            return None
        b[k + ".Leaf"] = dict(LEAF)
    elif kind == "missing_parent":
        b[pick(d, branches) + ".NoSuch." + d(st.sampled_from(["Leaf", "Deep.Leaf"]))] = dict(LEAF)
    elif kind == "child_of_leaf":
        if not leaves:
            return None
        b[pick(d, leaves) + ".Child"] = d(st.sampled_from([dict(LEAF), {"type": "branch", "description": "b"}]))
    elif kind == "tree_of_leaf":
        # a well-formed subtree at an impossible place
        if not leaves:
            return None
        k = pick(d, leaves) + ".Sub"
        b[k] = {"type": "branch", "description": "b"}
        if d(st.booleans()):
            k += ".Sub"
            b[k] = {"type": "branch", "description": "b"}
        b[k + ".Leaf"] = dict(LEAF)
    elif kind == "struct_of_leaf":
        if not leaves:
            return None
        k = pick(d, leaves) + ".S"
        b[k] = {"type": "struct", "description": "s"}
        b[k + ".x"] = {"type": "property", "datatype": "uint8", "description": "p"}
    elif kind == "leaf_below_added_leaf":
        k = pick(d, branches) + ".Host"
        b[k] = dict(LEAF)
        b[k + ".Inner"] = dict(LEAF)
    elif kind == "two_roots":
        k = d(st.sampled_from(["Second", "Second", root.upper(), root.lower(), root + "x", root[:-1] or "Q"]))
        if k == root:
            return None
        b[k] = d(st.sampled_from([{"type": "branch", "description": "b"}, dict(LEAF)]))
    elif kind == "no_root":
        del b[root]
        if not b:
            return None
    elif kind == "foreign_root":
        b["Foreign.Leaf"] = dict(LEAF)
    elif kind == "lone_surrogate":
        # not expressible in any output file
        b[pick(d, list(b))]["description"] = "Text \ud800 text"
    elif kind in ("no_type", "no_description"):
        b[pick(d, list(b))].pop(kind[3:])
    elif kind == "bad_type":
        b[pick(d, list(b))]["type"] = d(st.sampled_from(["signal", "Sensor", "branches", 5, "", ["sensor"]]))
    elif kind == "property_in_branch":
        b[pick(d, branches) + ".Prop"] = {"type": "property", "datatype": "uint8", "description": "p"}
    elif kind in ("scalar_node", "list_node"):
        b[pick(d, branches) + ".Odd"] = d(st.sampled_from(["text", 5, True] if kind == "scalar_node" else [[], [1], ["a", "b"]]))
    elif kind == "core_on_branch":
        k, v = d(st.sampled_from([("datatype", "uint8"), ("min", 0), ("max", 5), ("unit", "km"), ("allowed", ["a"]), ("default", 1), ("arraysize", 3)]))
        b[pick(d, branches)][k] = v
    elif kind == "core_on_leaf":
        if not leaves:
            return None
        k, v = d(st.sampled_from([("instances", "Row[1,2]"), ("aggregate", True), ("instances", ["Left", "Right"])]))
        b[pick(d, leaves)][k] = v
    elif kind == "bad_instances":
        b[pick(d, branches)]["instances"] = d(st.sampled_from([5, 0, True, 1.5, {"Left": 1}, {}]))
    elif kind == "empty_file":
        c["base"] = {}
    elif kind == "unknown_unit":
        if not prims:
            return None
        b[pick(d, prims)]["unit"] = d(st.sampled_from(["parsec", "KM", "kilometers"]))
    elif kind == "unknown_datatype":
        if not leaves:
            return None
        k = pick(d, leaves)
        b[k] = {"type": "sensor", "description": "d", "datatype": d(st.sampled_from(["uint7", "Integer", "No.Such", "uint8[", "uint8[]x"]))}
    elif kind == "missing_datatype":
        if not leaves:
            return None
        k = pick(d, leaves)
        b[k] = {"type": "sensor", "description": "d"}
    elif kind == "bad_default":
        k = pick(d, branches) + ".BadDef"
        b[k] = {**LEAF, **d(st.sampled_from([{"default": 256}, {"default": "x"}, {"default": [1]}, {"datatype": "uint8[]", "default": 1}, {"allowed": [1, 2], "default": 0}, {"datatype": "string", "default": 5}, {"datatype": "uint8[]", "arraysize": 2, "default": [1]}, {"arraysize": 2}]))}
    elif kind == "bad_allowed":
        k = pick(d, branches) + ".BadAll"
        b[k] = {**LEAF, **d(st.sampled_from([{"allowed": [1, 300]}, {"allowed": ["a"]}, {"allowed": 5}, {"datatype": "boolean", "allowed": ["x"]}]))}
    elif kind == "allowed_and_range":
        k = pick(d, branches) + ".BadRange"
        b[k] = {**LEAF, "allowed": [1, 2], **d(st.sampled_from([{"min": 0}, {"max": 0}, {"min": 1, "max": 3}]))}
    elif kind == "bad_uid":
        b[pick(d, list(b))]["constUID"] = d(st.sampled_from(["0x123", "12345678", "0x1234567G", "0x123456789"]))
    elif kind == "missing_include":
        c["append"] = "\n#include nowhere.vspec\n"
    elif kind == "include_cycle":
        c["append"] = "\n#include loop.vspec\n"
        c["raw"]["loop.vspec"] = "#include loop.vspec X\n"
    elif kind == "yaml_garbage":
        c["append"] = d(st.sampled_from(["\n}{\n", "\nX: [1, 2\n", "\n- a\n", "\nA: b: c\n"]))
    elif kind == "bad_overlay":
        c["raw"]["ovx.vspec"] = d(st.sampled_from(["}{\n", "Other.Leaf:\n  type: sensor\n  datatype: uint8\n  description: d\n", root + ":\n  type: nonsense\n"]))
        c["args"] += ["-l", "ovx.vspec"]
    elif kind == "unit_redefined":
        c["raw"]["u2.yaml"] = "km:\n  definition: again\n  unit: kilometer\n  quantity: length\n  allowed-datatypes: ['numeric']\n"
        c["args"] += ["-u", "units.yaml", "-u", "u2.yaml"]
    elif kind == "unit_bad_quantity":
        c["units"] = {**UNITS, "odd": {"definition": "d", "unit": "odd unit", "quantity": "noquantity", "allowed-datatypes": ["numeric"]}}
    elif kind == "unit_bad_datatype":
        c["units"] = {**UNITS, "odd": {"definition": "d", "unit": "odd unit", "quantity": "length", "allowed-datatypes": ["uint9"]}}
    elif kind == "unit_none":
        c["units"] = {**UNITS, "odd": None}
    elif kind == "empty_unit_def":
        u = {"definition": "d", "unit": "odd unit", "quantity": "length", "allowed-datatypes": ["numeric"]}
        u.pop(d(st.sampled_from(["definition", "quantity", "unit"])))
        c["units"] = {**UNITS, "odd": u}
    elif kind in ("strict_name", "abort_name"):
        b[pick(d, branches) + "." + d(st.sampled_from(["lower", "With_Underscore", "1Digit", "Minus-Sign"]))] = dict(LEAF)
        c["args"] += ["--strict"] if kind == "strict_name" else ["-a", "name-style"]
    elif kind == "bool_name":
        b[pick(d, branches) + ".Flag"] = {**LEAF, "datatype": "boolean"}
        c["args"] += d(st.sampled_from([["--strict"], ["-a", "name-style"]]))
    elif kind in ("strict_extra", "abort_extra"):
        b[pick(d, list(b))]["unheardOf"] = 5
        c["args"] += ["--strict"] if kind == "strict_extra" else ["-a", "unknown-attribute"]
        if prob(d, 0.3):
            c["args"] += ["-e", "somethingElse"]
    elif kind == "types_missing":
        if not t:
            return None
        s = [k for k, a in t.items() if a["type"] == "struct"]
        b[pick(d, branches) + ".Typed"] = {**LEAF, "datatype": pick(d, s)}
        c["types"] = None
    elif kind.startswith("types_"):
        if not t:
            return None
        structs = [k for k, a in t.items() if a["type"] == "struct"]
        tb = [k for k, a in t.items() if a["type"] == "branch"]
        troot = next(iter(t))
        if kind == "types_leaf_in_struct":
            t[pick(d, structs) + ".Sens"] = d(st.sampled_from([dict(LEAF), {"type": "branch", "description": "b"}]))
        elif kind == "types_tree_in_struct":
            k = pick(d, structs) + ".Sub"
            t[k] = {"type": "branch", "description": "b"}
            t[k + ".S"] = {"type": "struct", "description": "s"}
            t[k + ".S.x"] = {"type": "property", "datatype": "uint8", "description": "p"}
        elif kind == "types_below_property":
            k = pick(d, [k for k, a in t.items() if a["type"] == "property"]) + ".S"
            t[k] = d(st.sampled_from([{"type": "struct", "description": "s"}, {"type": "property", "datatype": "uint8", "description": "p"}]))
            if t[k]["type"] == "struct":
                t[k + ".x"] = {"type": "property", "datatype": "uint8", "description": "p"}
        elif kind == "types_property_in_branch":
            t[pick(d, tb) + ".Prop"] = {"type": "property", "datatype": "uint8", "description": "p"}
        elif kind == "types_root_struct":
            c["types"] = {"MyType": {"type": "struct", "description": "s"}, "MyType.X": {"type": "property", "datatype": "uint8", "description": "p"}}
            if d(st.booleans()):
                # with a type in a namespace beside it
                c["types"]["MyType.In"] = {"type": "struct", "description": "s"}
                c["types"]["MyType.In.X"] = {"type": "property", "datatype": "uint8", "description": "p"}
            c["base"] = {k: v for k, v in b.items() if "." not in str(v.get("datatype", ""))}
        elif kind == "types_orphan":
            t[troot + ".Ghost.S"] = {"type": "struct", "description": "s"}
        elif kind == "types_extra":
            t[pick(d, list(t))]["unheardOf"] = 5
        elif kind == "types_bad_ref":
            t[pick(d, structs) + ".Bad"] = {"type": "property", "datatype": "NoSuchStruct", "description": "p"}
        elif kind == "types_two_roots":
            other = d(st.sampled_from([x for x in ("OtherTypes", troot + "X", troot[:-1], troot.lower(), troot.upper()) if x and x != troot]))
            c["raw"]["t2.vspec"] = "OtherTypes:\n  type: branch\n  description: o\nOtherTypes.S:\n  type: struct\n  description: s\nOtherTypes.S.x:\n  type: property\n  datatype: uint8\n  description: p\n".replace("OtherTypes", other)
            c["args"] += ["-t", "t2.vspec"]
        elif kind == "types_no_desc":
            t[pick(d, list(t))].pop("description")
        elif kind == "types_core_on_struct":
            k, v = d(st.sampled_from([("datatype", "uint8"), ("min", 0), ("unit", "km"), ("instances", "Row[1,2]")]))
            t[pick(d, structs)][k] = v
    else:
        raise AssertionError(kind)
    return c


def emit_bad(box, c):
    """Writes the case; returns arguments."""
    from .gen import dump, emit_units

    emit_units(box, c["units"], c["quantities"])
    box.write("root.vspec", (dump(c["base"]) if c["base"] else "") + c["append"])
    for f, t in c["raw"].items():
        box.write(f, t)
    args = ["-s", "root.vspec"]
    if c["types"]:
        box.write("types.vspec", dump(c["types"]))
        args += ["-t", "types.vspec"]
    return args + c["args"]
