"""The exporters and how to point them at outputs inside a box."""
import os
import shutil

from .gen import dump, emit_units
from .runner import Violation

EXPAND = {"csv", "id", "json", "jsonschema", "tree", "yaml"}
NO_TYPES = {"binary", "franca", "graphql"}
UUID = {"apigear", "binary", "csv", "ddsidl", "franca", "id", "json", "jsonschema", "samm", "tree", "yaml"}
TYPES_OUTPUT = {"csv", "json", "yaml"}
ALL = ["apigear", "binary", "csv", "ddsidl", "franca", "go", "graphql", "id", "json", "jsonschema", "protobuf", "samm", "tree", "yaml"]


def out_args(ex, types=False, sep=False):
    """Arguments selecting outputs below 'out*' of the box."""
    if ex == "apigear":
        return ["--output-dir", "outdir"]
    if ex == "samm":
        return ["-tf", "outdir"]
    a = ["-o", "out.file"]
    if ex == "protobuf" and types:
        a += ["--types-out-dir", "outtypes"]
    if ex in TYPES_OUTPUT and types and sep:
        a += ["--types-output", "out.types"]
    return a


def outputs(listing):
    return {k: v for k, v in listing.items() if k.startswith("out")}


def clear(box):
    for n in os.listdir(box.root):
        if n.startswith("out"):
            p = os.path.join(box.root, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def same_as_flat(box, ex, args, flat, types=None, opts=(), units=None, quantities=None):
    """Whatever exporter ex makes of the model that args compose, it makes of the model spelled in one file, too."""
    clear(box)
    oa = out_args(ex, bool(types)) + list(opts)
    r1 = box.export(ex, *args, *oa)
    o1 = outputs(box.tree_listing())
    clear(box)
    emit_units(box, units, quantities, d="flat/")
    box.write("flat/root.vspec", dump(flat))
    a = ["-s", "flat/root.vspec"]
    if types:
        box.write("flat/types.vspec", dump(types))
        a += ["-t", "flat/types.vspec"]
    r2 = box.export(ex, *a, *oa)
    o2 = outputs(box.tree_listing())
    clear(box)
    if r1.ok != r2.ok:
        raise Violation("%s exits %s for the composed and %s for the same model in one file: %s" % (ex, r1.code, r2.code, (r2 if r1.ok else r1).tail()))
    for k in sorted(set(o1) | set(o2)):
        x, y = o1.get(k), o2.get(k)
        if x != y:
            at = next((i for i, (p, q) in enumerate(zip(x or b"", y or b"")) if p != q), min(len(x or b""), len(y or b"")))
            raise Violation("%s: %s differs from the export of the same model in one file: %r and %r" % (ex, k, x if x is None else x[max(0, at - 60) : at + 60], y if y is None else y[max(0, at - 60) : at + 60]))
    return r1.ok
