"""The C parser library answers exactly what the model says, and writes back what it read."""
import shutil
import tempfile

from .. import binparse

RULE = (
    "Generated models (instances, deep chains, long names, non-ASCII texts, enum values up to 255 bytes, access control "
    "attributes) exported as binary and read by a driver linked with the C parser library (with address and undefined behaviour sanitizers); a generated script of "
    "searches (literal, wildcard, non-existing, with scope lists, any depth or not, leaves only or not), node and UUID "
    "lists into reused files and tree rewrites is answered and compared with a reference model. Non-trivial: the tree has "
    "more than three nodes and at least one search."
)
COUNTS = {"quick": 1200, "thorough": 24000}
STATE = {}


def prepare(tier):
    STATE["tmp"] = tempfile.mkdtemp(prefix="vvb.")
    STATE["exe"] = binparse.build("c", STATE["tmp"])


def cleanup():
    shutil.rmtree(STATE.get("tmp", "/nonexistent"), ignore_errors=True)


def strategy(tier):
    return binparse.cases()


def check(c, box):
    return binparse.check(STATE["exe"], c, box)
