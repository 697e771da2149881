"""Independent decoder of the binary format (documented in vss2binary.py and binary/)."""
import struct


class BinError(Exception):
    pass


def decode(data):
    """-> ordered {fqn: fields}; the whole buffer must be consumed."""
    pos = 0
    out = {}

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise BinError("truncated at byte %d" % pos)
        b = data[pos : pos + n]
        pos += n
        return b

    def s8():
        return take(take(1)[0]).decode("utf-8")

    def s16():
        return take(struct.unpack("<H", take(2))[0])

    def node(prefix):
        d = {"name": s8(), "type": s8(), "uuid": s8(), "description": s16().decode("utf-8"), "datatype": s8(), "min": s8(), "max": s8(), "unit": s8()}
        al = s16()
        vals = []
        i = 0
        while i < len(al):
            n = int(al[i : i + 2].decode("ascii"), 16)
            v = al[i + 2 : i + 2 + n]
            if len(v) != n:
                raise BinError("allowed of %s" % d["name"])
            vals.append(v.decode("utf-8"))
            i += 2 + n
        d["allowed"] = vals
        d["default"], d["validate"] = s8(), s8()
        d["children"] = take(1)[0]
        fqn = prefix + d["name"]
        if fqn in out:
            raise BinError("%s twice" % fqn)
        out[fqn] = d
        for _ in range(d["children"]):
            node(fqn + ".")

    node("")
    if pos != len(data):
        raise BinError("%d bytes after the last node" % (len(data) - pos))
    return out
