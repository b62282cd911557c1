"""graph: the DOT document against a reference graph."""
import json
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, dot, gen
from .c15 import components
from .fw import Violation, short

ID = "C16"
EXAMPLES = {"quick": 20000, "thorough": 300000}
RULE = ("a case is a consistent configuration of 1 to 4 connections, names any text where written as objects, and one choice of the "
        "diagram and legend options; non-trivial: the diagram is drawn and a component is in more than one connection, or a name is no "
        "DOT identifier")
ASSUMPTIONS = ["names and connection sets without NUL characters"]

SHAPE = {"faucet": "trapezium", "drain": "invtrapezium", "junction": "oval", "buffer": "invhouse", "launch": "box", "regulator": "house"}
COLOR = {"faucet": "darkseagreen1", "drain": "lightpink", "junction": "papayawhip", "buffer": "lightgray", "launch": "lightblue", "regulator": "lightgray"}

anytext = st.one_of(cg.arg_text, cg.arg_text, st.sampled_from(["node", "Edge", "1a", "-1", "1.5", ".5", "a\\", "\\n", "\\\"", '"', "\\", "a->b", "[x]", "{", "<b>", "//", "/*", "#", "a\nb",
                                                  "legend_launch", "cluster_nodes_k", "\\\n", "strict", "a;b", "\\N", "\\G", "x\\\"y"]))


@st.composite
def cases(draw):
    pool = draw(st.lists(gen.ident, min_size=1, max_size=3))
    opool = pool + draw(st.lists(anytext, max_size=3))
    conns = {}
    for k in draw(st.lists(st.one_of(st.sampled_from(["a", "b", "z", "main"]), anytext), min_size=1, max_size=20 if draw(gen.rare(50)) else 4, unique=True)):
        if draw(st.booleans()):
            conns[k] = draw(gen.render_join(draw(gen.join_items(names=st.sampled_from(pool), max_size=5))))
        else:
            conns[k] = gen.as_objects(draw(gen.join_items(names=st.sampled_from(opool), max_size=5)))
    cfg = {"connection": conns}
    for v in conns.values():
        for t, n in components(v):
            if t in ("faucet", "drain", "launch", "regulator"):
                cfg.setdefault(t, {})[n] = {"source": "x"} if t == "faucet" else {}
    if draw(st.integers(0, 3)) == 0:
        cfg.setdefault("faucet", {})["unused"] = {"source": "-"}
    opts = draw(st.lists(st.sampled_from(["d", "l", "border"]), unique=True, max_size=3))
    if draw(st.booleans()):
        opts = [o for o in opts if o != "l"]
    return {"cfg": cfg, "opts": opts, "long": draw(st.booleans()), "fmt": draw(st.sampled_from(["json", "yaml"]))}


def strategy(tier):
    return cases()


def seq_of(v):
    items = gen.parse_join(v) if isinstance(v, str) else None
    if items is not None:
        return [(i["type"], i["name"], i["port"]) for i in items]
    return [(c["component_type"], c["component_name"], c.get("output_port")) for c in v]


def run(case, ctx):
    cfg, opts = case["cfg"], case["opts"]
    a = ["graph", "--format", case["fmt"]]
    for o in opts:
        a.append({"d": "--diagram-only" if case["long"] else "-d", "l": "--legend-only" if case["long"] else "-l", "border": "--legend-border"}[o])
    r = ctx.pa2run(a, stdin=cg.text_of(cfg, case["fmt"]).encode())
    if r.rc != 0 or r.err:
        raise Violation("graph: status %d, stderr %s" % (r.rc, short(r.err)))
    out = r.out.decode("utf8")
    try:
        g = dot.parse(out)
    except dot.Bad as e:
        raise Violation("not DOT: %s in %s" % (e, short(out, 2000)))
    want_d = not ("l" in opts and "d" not in opts)
    want_l = not ("d" in opts and "l" not in opts)
    ctx.note("diagram" if want_d else "no diagram", "legend" if want_l else "no legend")

    legend = [s for s in g.walk() if s.attrs.get("label") == "Legend" and s in g.subs]
    rest = [s for s in g.subs if s not in legend]
    if bool(legend) != want_l or len(legend) > 1:
        raise Violation("options %s: %d legends" % (opts, len(legend)))
    if legend:
        check_legend(legend[0], "border" in opts)

    nodes, edges, places = {}, [], {}

    def visit(s, cluster):
        if s.id is not None and s.id.startswith("cluster"):
            if cluster is not None:
                raise Violation("cluster in cluster")
            if s.attrs.get("label", "")[-1:] != ":":
                raise Violation("cluster %r is labelled %r" % (s.id, s.attrs.get("label")))
            cluster = s.attrs["label"][:-1]
        for i, at in s.nodes:
            if nodes.setdefault(i, at) != at:
                raise Violation("node %r is both %s and %s" % (i, nodes[i], at))
            if places.setdefault(i, cluster) != cluster:
                raise Violation("node %r in %r and in %r" % (i, places[i], cluster))
        edges.extend(s.edges)
        for x in s.subs:
            visit(x, cluster)
    for s in rest:
        visit(s, None)
    if g.nodes or g.edges:
        raise Violation("nodes or edges outside of the diagram: %s" % short(out, 1000))
    cids = [s.id for x in rest for s in x.walk() if s.id is not None]
    if len(set(cids)) != len(cids):
        raise Violation("two groups share an id, so they become one: %s" % cids)

    comps, wedges, allowed = set(), Counter(), {}
    if want_d:
        for k, v in cfg["connection"].items():
            seq = seq_of(v)
            for n, (t, nm, p) in enumerate(seq):
                comps.add((t, nm))
                end = n in (0, len(seq) - 1)
                allowed.setdefault((t, nm), set()).add(None if t == "junction" and end or k == "" else k)
                if not end or n == 0:
                    wedges[((t, nm), seq[n + 1][:2], {"out": "", "err": "Err", "exit": "Exit"}[p])] += 1
    who = {}
    for i, at in nodes.items():
        t = [x for x in SHAPE if SHAPE[x] == at.get("shape")]
        if len(t) != 1 or COLOR[t[0]] != at.get("fillcolor"):
            raise Violation("node %r: %s" % (i, at))
        c = (t[0], at.get("label"))
        if c in who.values():
            raise Violation("component %s has several nodes" % (c,))
        who[i] = c
    if set(who.values()) != comps:
        raise Violation("the nodes are %s, the components %s" % (sorted(set(who.values()) - comps), sorted(comps - set(who.values()))))
    got = Counter()
    for x, y, at in edges:
        if x not in who or y not in who:
            raise Violation("edge %r -> %r leads to no component" % (x, y))
        got[(who[x], who[y], at.get("label", ""))] += 1
    if got != wedges:
        raise Violation("edges too many: %s, missing: %s" % (dict(got - wedges), dict(wedges - got)))
    for i, c in who.items():
        if places[i] not in allowed[c]:
            raise Violation("component %s is in the group %r, but in the connections %s" % (c, places[i], allowed[c]))
    multi = any(len(s) > 1 for s in allowed.values())
    odd = any(not (n[:1].isalpha() and n.replace("_", "a").isalnum() and n.isascii()) for t, n in comps)
    if multi:
        ctx.note("component in several connections")
    if odd:
        ctx.note("odd name")
    return bool(want_d and (multi or odd))


def check_legend(s, border):
    if bool(s.id and s.id.startswith("cluster")) != border:
        raise Violation("legend %r, border %s" % (s.id, border))
    seen = {}
    for x in s.walk():
        if x is s:
            continue
        if len(x.nodes) != 1 or x.edges or x.subs:
            raise Violation("legend entry %r" % x.id)
        at = x.nodes[0][1]
        seen[x.attrs.get("label")] = (at.get("shape"), at.get("fillcolor"))
    if seen != {t: (SHAPE[t], COLOR[t]) for t in SHAPE}:
        raise Violation("the legend says %s" % seen)
