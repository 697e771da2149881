"""The log options select what is reported and nothing else."""
import os
import re

from hypothesis import strategies as st

from .. import bad
from ..engine import Info
from ..exporters import ALL, NO_TYPES, out_args, outputs
from ..gen import Cfg, emit, models, prob
from ..runner import Violation, run_cli

RULE = (
    "A generated model, valid or with one of about 40 defects, exported by one of the 14 exporters with log level DEBUG and then with every "
    "other level, the default and any letter case, with and without a log file, over an existing log file. The records of a level have to be "
    "exactly those of the DEBUG run at or above it, in the file and on the console, and exit status and output the same. Failing runs have to "
    "give a reason. Non-trivial: the DEBUG run has records that the level hides and others that it does not."
)
COUNTS = {"quick": 900, "thorough": 16000}
CFG = Cfg(max_nodes=6, max_depth=3, instances=0.25, structs=0.3, text="plain", ext=0.15)
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
KINDS = [k for k in bad.STRUCTURAL + bad.VALUES + bad.FILES + bad.STRICT + bad.TYPES if k != "include_cycle"]  # ends somewhere in the logging itself
RECORD = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3}:(%s):" % "|".join(LEVELS), re.M)
CONSOLE = re.compile(r"^(?:\[\d\d:\d\d:\d\d\]| {10}) (%s) " % "|".join(LEVELS), re.M)


@st.composite
def strategy_(draw):
    d = draw
    ex = d(st.sampled_from(ALL))
    m = d(models(Cfg(**{**CFG.__dict__, "structs": 0.0}) if ex in NO_TYPES else CFG))
    c = None
    if prob(d, 0.4):
        kind = d(st.sampled_from([k for k in KINDS if not (ex in NO_TYPES and k.startswith("types_"))]))
        c = bad.make(d, kind, m["base"], m["types"])
    elif prob(d, 0.4):
        # only reported
        ks = list(m["base"])
        m["base"][ks[d(st.integers(0, len(ks) - 1))]]["unheardOf"] = 5
    return {"m": m, "c": c, "ex": ex, "level": d(st.sampled_from([*LEVELS, None])), "low": d(st.booleans()), "file": not prob(d, 0.3), "old": d(st.booleans()), "lf": d(st.sampled_from(["new.log", "new.log", "newlog", "new.log.txt"])), "env": prob(d, 0.15)}


def strategy(tier):
    return strategy_()


def records(text):
    """log file -> [(level, message)]"""
    ms = list(RECORD.finditer(text))
    if text and (not ms or ms[0].start() != 0):
        raise Violation("the log file starts with %r" % text[:200])
    return [(a[1], text[a.end() : (b.start() if b else len(text))]) for a, b in zip(ms, ms[1:] + [None])]


def check(c, box):
    ex = c["ex"]
    if c["c"]:
        args = bad.emit_bad(box, c["c"])
    else:
        args = emit(box, c["m"])
    if ex in NO_TYPES and "-t" in args:
        return Info(False)
    args = ["export", ex, *args, *out_args(ex, "-t" in args)]
    before = set(box.tree_listing())

    def run(opts, env=None):
        import shutil

        for n in os.listdir(box.root):
            if n.startswith("out"):
                p = box.path(n)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        box.commands += 1
        os.environ.update(env or {})
        try:
            r = run_cli([*opts, *args], box.root, os.path.join(box.base, "meta"), None)
        finally:
            for k in env or {}:
                del os.environ[k]
        return r, outputs(box.tree_listing())

    r0, o0 = run(["--log-level", "DEBUG", "--log-file", "all.log"])
    if r0.signal:
        raise Violation("%s dies from signal %d" % (ex, r0.signal))
    if not box.exists("all.log"):
        raise Violation("no log file is written")
    full = records(box.read("all.log"))
    lv = c["level"]
    lf = c.get("lf", "new.log")
    opts, env = [], {}
    if lv:
        v = lv.lower() if c["low"] else lv
        if c["env"]:
            env["VSS_TOOLS_LOG_LEVEL"] = v
        else:
            opts += ["--log-level", v]
    if c["file"]:
        opts += ["--log-file", lf]
        if c["old"]:
            box.write(lf, "old content\n" * 400)
    what = "%s %s %s:" % (ex, " ".join(opts), env or "")
    r, o = run(opts, env)
    at = LEVELS.index(lv or "INFO")
    want = [(x, t) for x, t in full if LEVELS.index(x) >= at]
    if r.code != r0.code:
        raise Violation("%s exit status %d, with DEBUG %d" % (what, r.code, r0.code))
    if o != o0:
        raise Violation("%s output differs from that with DEBUG: %s" % (what, sorted(k for k in set(o) | set(o0) if o.get(k) != o0.get(k))))
    now = set(box.tree_listing()) - before - set(o)
    if now != {"all.log"} | ({lf} if c["file"] else set()):
        raise Violation("%s files written: %s" % (what, sorted(now)))
    if c["file"]:
        got = records(box.read(lf))
        if got != want:
            x = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("%s the log file has %s, expected %s (record %d)" % (what, got[x : x + 1], want[x : x + 1], x))
    shown = CONSOLE.findall(r.stdout)
    if shown != [x for x, _ in want]:
        raise Violation("%s the console shows records of levels %s, expected %s" % (what, shown[:20], [x for x, _ in want][:20]))
    if r.code and not r.uncaught and not any(LEVELS.index(x) > 2 for x, _ in full) and "Usage:" not in r0.stdout:
        raise Violation("%s fails without an error reported" % what)
    if not r.code and any(LEVELS.index(x) > 2 for x, _ in full):
        raise Violation("%s succeeds with an error reported: %s" % (what, [t for x, t in full if LEVELS.index(x) > 2][:1]))
    return Info(0 < len(want) < len(full), [ex, str(lv), "failing" if r.code else "ok", "env" if env else "option"])
