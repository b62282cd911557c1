"""Config edit commands: sequences of edits against a model of the configuration."""
import json, re
from hypothesis import strategies as st
from . import confgen as cg, gen
from .fw import Violation, short

ID = "C13"
EXAMPLES = {"quick": 14000, "thorough": 200000}
RULE = ("a case is a start configuration and a sequence of 1 to 6 edit commands (valid and invalid, ids new, repeated or in use), each "
        "given what the one before printed; non-trivial: at least two edits, or one of an entry that already existed")
ASSUMPTIONS = ["arguments are UTF-8 without NUL, as operating system and pa2 demand"]

U64 = re.compile(r"\+?[0-9]+")

number = st.one_of(st.integers(0, 30).map(str), st.integers(0, 2**64 - 1).map(str),
                   st.sampled_from(["0", "1", "007", "18446744073709551615", "+5"]),
                   st.sampled_from(["18446744073709551616", "-1", "", "abc", "1.5", "1e3", " 1", "1 ", "0x10", "99999999999999999999", "\u0661"]))

envdef = st.one_of(
    st.builds(lambda k, v: k + "=" + v, cg.arg_text.filter(lambda s: s and "=" not in s), cg.arg_text),
    st.sampled_from(["A=1", "A=2", "A=", "A==", "A=b=c", "B=x y", "PATH=/x", "AB=1", "A=A=1"]),
    st.sampled_from(["A", "=x", "=", "", "novalue"]))

json_join = st.one_of(
    cg.conn_objects(names=gen.ident, max_size=4).map(lambda v: json.dumps(v)),
    cg.conn_objects(names=gen.ident, max_size=4).map(lambda v: gen.to_yaml(v)),
    cg.conn_objects(names=gen.ident, min_size=2, max_size=3).map(lambda v: json.dumps(v[0])))


def edits(ids):
    i = st.one_of(st.sampled_from(ids), cg.arg_text) if ids else cg.arg_text
    i = st.one_of(i, st.sampled_from(["a", "b"]))
    return st.one_of(
        st.tuples(st.just("faucet source"), i, st.tuples(cg.arg_text)),
        st.tuples(st.just("drain destination"), i, st.tuples(cg.arg_text)),
        st.tuples(st.just("regulator watermark"), i, st.tuples(number, number)),
        st.tuples(st.just("connection join"), i, st.tuples(st.one_of(gen.any_join, json_join).filter(lambda s: "\x00" not in s))),
        st.tuples(st.just("launch command"), i, st.tuples(cg.arg_text)),
        st.tuples(st.just("launch path"), i, st.tuples(cg.arg_text)),
        st.tuples(st.just("launch args"), i, st.lists(cg.arg_text, min_size=1, max_size=4)),
        st.tuples(st.just("launch env"), i, st.lists(envdef, min_size=1, max_size=4)))


@st.composite
def cases(draw):
    cfg = draw(cg.config(names=st.sampled_from(["a", "b", "c", "x y", "", "\u00e9"])))
    eds = draw(st.lists(edits(["a", "b", "c", "x y", "", "\u00e9"]), min_size=1, max_size=25 if draw(gen.rare(60)) else 6))
    return {"cfg": cfg, "edits": [[a, b, list(c)] for a, b, c in eds], "fmts": draw(st.lists(st.sampled_from(["json", "yaml"]), min_size=6, max_size=6)),
            "dashes": draw(st.booleans())}


def strategy(tier):
    return cases()


def as_number(s):
    if s.isascii() and U64.fullmatch(s) and int(s) < 2**64:
        return int(s)
    return None


def launch(c, i):
    return c["launch"].setdefault(i, {"cmd": None, "path": None, "env": {}, "arg": []})


def read_join(s):
    """What `connection join` stores, False when it must refuse, None when it cannot be told."""
    if gen.parse_join(s) is not None:
        return s
    try:
        v = json.loads(s)
    except ValueError:
        v = None
    if v is None and s.startswith("-\n"):
        return "yaml"
    if isinstance(v, dict):
        v = [v]
    if isinstance(v, list) and all(isinstance(x, dict) for x in v):
        return [cg.norm_conn(x) for x in v]
    if "{" in s or "[" in s[:1] or s.lstrip()[:1] in ("-", "[", "{", "?", "&", "!"):
        return None
    return False


def apply(c, ed):
    """The configuration after the edit, or None if it has to be refused, or "?" if unknown."""
    what, i, a = ed
    c = json.loads(json.dumps(c))
    if what == "faucet source":
        c["faucet"][i] = {"source": a[0]}
    elif what == "drain destination":
        c["drain"][i] = {"destination": a[0]}
    elif what == "regulator watermark":
        lo, hi = as_number(a[0]), as_number(a[1])
        if lo is None or hi is None:
            return None
        c["regulator"].setdefault(i, {"buffered": None, "monitored_buffers": []})["buffered"] = [min(lo, hi), max(lo, hi)]
    elif what == "connection join":
        v = read_join(a[0])
        if v is None:
            return "?"
        if v is False:
            return None
        if v == "yaml":
            return ("yaml", a[0])
        c["connection"][i] = v
    elif what == "launch command":
        launch(c, i)["cmd"] = a[0]
    elif what == "launch path":
        launch(c, i)["path"] = a[0]
    elif what == "launch args":
        launch(c, i)["arg"] = list(a)
    elif what == "launch env":
        env = {}
        for x in a:
            k, eq, v = x.partition("=")
            if not eq or not k:
                return None
            env[k] = v
        launch(c, i)["env"] = env
    return c


def from_yaml(text):
    """Only what gen.to_yaml makes of connection objects."""
    objs = []
    for l in text.split("\n"):
        if l.strip() == "-":
            objs.append({})
        else:
            k, v = l.strip().split(": ", 1)
            v = None if v == "~" else json.loads(v)
            objs[-1][json.loads(k)] = v
    return [cg.norm_conn(o) for o in objs]


def run(case, ctx):
    cur = cg.normal(case["cfg"])
    doc = json.dumps(case["cfg"]).encode()
    fmt = "json"
    nontrivial = len(case["edits"]) > 1
    for n, ed in enumerate(case["edits"]):
        what, i, a = ed
        sub, act = what.split()
        args = ["config", "--format", fmt, sub] + cg.opt("id", i) + [act]
        if case["dashes"] or any(x.startswith("-") for x in a):
            args.append("--")
        args += a
        want = apply(cur, ed)
        sect = {"faucet": "faucet", "drain": "drain", "regulator": "regulator", "connection": "connection", "launch": "launch"}[sub]
        if i in cur[sect]:
            nontrivial = True
            ctx.note("edit of an existing entry")
        r = ctx.pa2run(args, stdin=doc)
        ctx.note(what)
        if want == "?":
            if r.rc not in (0, 1):
                raise Violation("status %d of %s" % (r.rc, ed))
            ctx.note("unknown")
            continue
        if want is None:
            ctx.note("refused " + what)
            if r.rc != 1 or r.out:
                raise Violation("%r has to be refused: status %d, stdout %s" % (ed, r.rc, short(r.out)))
            continue
        if isinstance(want, tuple):
            conns = from_yaml(want[1])
            want = json.loads(json.dumps(cur))
            want["connection"][i] = conns
            ctx.note("YAML join")
        if r.rc != 0:
            raise Violation("%r refused: %s" % (ed, short(r.err)))
        got = json.loads(r.out)
        if not cg.same(got, want):
            raise Violation("%r on %s printed %s, expected %s" % (ed, short(doc, 1000), cg.canon_print(got), cg.canon_print(want)))
        cur, doc = want, r.out
        fmt = case["fmts"][n % len(case["fmts"])]
        if fmt == "yaml" and not all(cg.yaml_plain(s) and len(s) < 100 for s in cg.strings(want)):
            fmt = "json"
    return nontrivial
