"""JoinStrings: the grammar and meaning against a reference reader."""
import json
import re
from hypothesis import strategies as st
from . import gen
from .fw import Violation, short

ID = "C11"
EXAMPLES = {"quick": 9000, "thorough": 200000}
RULE = ("a case is a configuration with 1 to 8 connections given as JoinStrings: spelled from random items, or damaged by edits; "
        "non-trivial: at least one string is accepted or refused although it differs from its neighbours by few characters, that "
        "is the case holds a damaged string, or one with a priority, port or pipe kind written out")
ASSUMPTIONS = ["priorities are 64 bit integers"]


def strategy(tier):
    return st.fixed_dictionaries({
        "joins": st.lists(gen.any_join, min_size=1, max_size=8),
        "fmt": st.sampled_from(["json", "yaml"]),
        "via": st.sampled_from(["lint", "lint", "join", "manipulate"]),
    })


def text(cfg, fmt):
    return json.dumps(cfg) if fmt == "json" else gen.to_yaml(cfg)


def run(case, ctx):
    joins = case["joins"]
    # A YAML key has at most 1024 characters
    fmt = "json" if any(len(w) > 1000 for j in joins for w in re.findall("[A-Za-z0-9_]+", j)) else case["fmt"]
    ref = [gen.parse_join(j) for j in joins]
    bad = [i for i, r in enumerate(ref) if r is None]
    good = [i for i, r in enumerate(ref) if r is not None]
    ctx.note("with refused" if bad else "all accepted", "via " + case["via"], fmt)
    if bad:
        cfg = {"connection": {"k%d" % i: j for i, j in enumerate(joins)}}
        cmd = "manipulate" if case["via"] == "manipulate" else "lint"
        r = ctx.pa2run(["config", "--format", fmt, cmd], stdin=text(cfg, fmt).encode())
        if r.rc != 1 or r.out:
            raise Violation("accepted: one of %r; status %d, stdout %s" % ([joins[i] for i in bad], r.rc, short(r.out)))
        if cmd == "lint":
            e = r.err.decode("utf8", "replace")
            for i in bad:
                if "PA: Error: 0003: k%d:%s" % (i, joins[i]) not in e:
                    raise Violation("not refused: %r; stderr %s" % (joins[i], short(r.err, 800)))
            if e.count("PA: Error:") != len(bad):
                raise Violation("refused more than %r; stderr %s" % ([joins[i] for i in bad], short(r.err, 800)))
    if good:
        cfg = gen.settings_for([ref[i] for i in good])
        cfg["connection"] = {"k%d" % i: joins[i] for i in good}
        want = {"k%d" % i: gen.as_objects(ref[i]) for i in good}
        if case["via"] == "manipulate":
            r = ctx.pa2run(["config", "--format", fmt, "manipulate"], stdin=text(cfg, fmt).encode())
            want2 = {}
            for k, v in want.items():
                for n, (a, b) in enumerate(zip(v, v[1:])):
                    a = {x: y for x, y in a.items() if x not in ("priority", "breakable")}
                    b = {x: y for x, y in b.items() if x != "output_port"}
                    want2[(k, n)] = [a, b]
            if r.rc != 0:
                raise Violation("refused: one of %r; stderr %s" % ([joins[i] for i in good], short(r.err, 800)))
            got = sorted((json.dumps(gen.strip_sets(v), sort_keys=True) for v in json.loads(r.out)["connection"].values() if v))
            if got != sorted(json.dumps(v, sort_keys=True) for v in want2.values()):
                raise Violation("meaning of %r: got %s, expected %s" % ([joins[i] for i in good], got, want2))
        else:
            r = ctx.pa2run(["config", "--format", fmt, "lint"], stdin=text(cfg, fmt).encode())
            if r.rc != 0:
                raise Violation("refused: one of %r; stderr %s" % ([joins[i] for i in good], short(r.err, 800)))
            got = {k: gen.strip_sets(v) for k, v in json.loads(r.out)["connection"].items()}
            if got != want:
                raise Violation("meaning of %r: got %s, expected %s" % ([joins[i] for i in good], got, want))
    if case["via"] == "join":
        j = joins[0]
        r = ctx.pa2run(["config", "--format", "json", "connection", "--id", "k", "join", "--", j], stdin=b"{}")
        if ref[0] is not None:
            if r.rc != 0:
                raise Violation("connection join refused %r: %s" % (j, short(r.err)))
            if json.loads(r.out)["connection"] != {"k": j}:
                raise Violation("connection join of %r printed %s" % (j, short(r.out)))
        elif r.rc == 0 and isinstance(json.loads(r.out)["connection"].get("k"), str):
            raise Violation("connection join accepted %r" % j)
    return bool(bad) or any(c in j for j in joins for c in "[") or any("|%s|" % c in j for j in joins for c in "TFC")
