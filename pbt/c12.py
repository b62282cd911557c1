"""Multiple connections of one output or input, names which look generated, and what config manipulate prints."""
import json, re
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, faults, gen, nets
from .fw import Violation, short

ID = "C12"
WORKERS = 16
EXAMPLES = {"quick": 3600, "thorough": 60000}
RULE = ("a case is an acyclic network in which most outputs and inputs are connected several times, with names and keys like those which "
        "pa2 generates, run as it is, printed by config manipulate, and run again as printed, or a network in which programs close their input early, with every kind of connection; non-trivial: there is an implicit junction "
        "(fan-in or fan-out other than at a junction) and at least one message")
ASSUMPTIONS = ["programs copy their input as it is"]


def strategy(tier):
    small = {"n": 8}
    n = nets.net(max_nodes=8 if tier == "quick" else 12, names="heavy", data=nets.data_spec(big=False))
    # Also through the junctions pa2 adds the kinds of the connections have to mean the same
    n = nets.seldom_wide(n)
    return st.one_of(n, n, n, faults.case("paced", own=False, most=3))


def items_of(c):
    return gen.as_objects(gen.parse_join(c)) if isinstance(c, str) else c


def pairs(conn):
    o = []
    for a, b in zip(conn, conn[1:]):
        a = {k: v for k, v in a.items() if k not in ("priority", "breakable")}
        b = {k: v for k, v in b.items() if k != "output_port"}
        o.append([a, b])
    return o


def implicit(case):
    """The nodes and ports for which pa2 has to add a junction."""
    ind, outd = Counter(e[2] for e in case["edges"]), Counter((e[0], e[1]) for e in case["edges"])
    return [v for v, c in ind.items() if c > 1 and case["nodes"][v]["t"] != "junction"] + [p for p, c in outd.items() if c > 1 and case["nodes"][p[0]]["t"] != "junction"]


def check_split(cfg, got):
    want = {k: pairs(items_of(v)) for k, v in cfg["connection"].items()}
    seen = {}
    for k, v in got["connection"].items():
        m = re.fullmatch(r"(.*)_([0-9]+)", k, re.S)
        if not m or m.group(1) not in want:
            raise Violation("manipulate: key %r comes from none of %r" % (k, sorted(want)))
        seen.setdefault(m.group(1), []).append((int(m.group(2)), gen.strip_sets(v)))
    for k, w in want.items():
        g = [v for _, v in sorted(seen.get(k, []), key=lambda x: x[0])]
        if g != w:
            raise Violation("manipulate: connection %r became %s, expected %s" % (k, json.dumps(g), json.dumps(w)))
    a, b = cg.normal(dict(cfg, connection={})), dict(got, connection={})
    if json.dumps(a, sort_keys=True) != json.dumps(b, sort_keys=True):
        raise Violation("manipulate: changed the settings: %s" % short(json.dumps(b), 1500))


def run(case, ctx):
    if "mode" in case:
        o = faults.run(case, ctx)
        faults.judge_told(case, o, ctx)
        faults.judge_status(case, o)
        faults.judge_data(case, o, ctx)
        return faults.nontrivial(case, o, ctx) and bool(implicit(case))
    cfg, stdin = nets.config(case, ctx)
    text = cg.text_of(cfg, case["fmt"])
    r = ctx.process(text, stdin=stdin, fmt=case["fmt"])
    nets.check_run(case, ctx, r)
    m = ctx.pa2run(["config", "--format", case["fmt"], "manipulate"], stdin=text.encode("utf8"))
    if m.rc != 0:
        raise Violation("manipulate: status %d, %s" % (m.rc, short(m.err)))
    try:
        got = json.loads(m.out)
    except ValueError:
        raise Violation("manipulate printed %s" % short(m.out))
    check_split(cfg, got)
    if case["rs"] & 1:
        r = ctx.process(m.out, stdin=stdin)
        nets.check_run(case, ctx, r)
    l = nets.note(case, ctx)
    return any(x.startswith("fan") and "junction" not in x for x in l) and "data none" not in l
